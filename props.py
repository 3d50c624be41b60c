"""The property catalogue: statement, and what decides it.  gen.py derives properties.jsonl and MANIFEST.json from this
table; check.py runs the entry of one property."""
import wit_scalar
PROPS = []
NA = []          # property ids that this family of technique does not decide, with the reason
ABSINT = 'abstract interpretation of LLVM IR (relational linear domain, region heap, loop fixpoints)'
NOTE = ('Every obligation is discharged for all inputs admitted by the contract entry on the IR clang emits for the current source; '
        'trusted: the interpreter in /verif/engine, clang front end, the models of memcpy/memcmp/malloc; sizes are assumed below 2^40.')


def P(id, title, statement, over, text, why, files, mech, drivers=(), rules=(), explain='', technique=ABSINT, note=NOTE, assume=(), state=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, drivers=list(drivers), rules=list(rules),
                      explain=explain, technique=technique, note=note, assume=list(assume), state=list(state), na=na))


def D(src, **k):
    return dict(src=src, **k)


H = 'code/include/swoc/'
C = 'code/src/'

# ---------------------------------------------------------------- memory spans
P('M01', 'Span slicing stays inside the span and loses nothing',
  'Taking a prefix, suffix, sub-range or clipped part of a memory span always yields exactly the requested elements, cut to the span, never memory outside it; '
  'removing a part leaves exactly the rest. Rebinding a span to another element type or aligning it covers the same bytes (less the padding needed to reach the alignment) '
  'and is refused when the byte size does not divide.',
  ['inputs'], 'for every span address, length and requested count/offset (including counts beyond the span), for element sizes 1, 4, 8, 24 and untyped spans',
  'tests slice a few fixed arrays; the guarantee is over every size, offset and alignment',
  [H + 'MemSpan.h'], [('prefix/suffix/subspan/clip/remove/rebind/align', H + 'MemSpan.h')],
  drivers=[D('memspan.cc', min=40)],
  explain='One contract entry per slicing operation and element type: span of symbolic address/length, symbolic arguments; obligations: result pointer and length equal the mathematical clip, '
          'result lies inside the source object, the remainder is the complement; rebind/align obligations on byte extents.')
P('M02', 'Bulk span operations touch exactly the byte extent of the spans',
  'Copying into, comparing, filling and iterating memory spans reads and writes exactly the common byte extent of the operands whatever the element size: nothing outside either span is '
  'accessed and every byte inside takes part. Two spans are equal exactly when they have the same length and all their bytes are equal, and three-way comparison is decided by the first differing byte of the common part; it is zero only for equal spans.',
  ['inputs'], 'for all span lengths, element sizes, contents and overlaps admitted by the operation',
  'tests use char spans where element count equals byte count',
  [H + 'MemSpan.h'], [('memcpy/memcmp/memset/operator==/apply/make', H + 'MemSpan.h')],
  drivers=[D('spanops.cc', min=22)],
  explain='Contract entries for every overload with element sizes 1, 4 and 8 and untyped spans; memcpy/memcmp/memset extents are checked against the symbolic object sizes and the returned values against the extents compared.')
P('B01', 'Buffer writers never overrun and account for every byte sent',
  'A writer over a fixed buffer stores only inside its unrestricted capacity, stores bytes in the order sent, leaves all other bytes alone, and its extent equals the number of bytes sent even when they did not fit. '
  'Size, remaining space, error state, view, auxiliary area, restrict/restore, commit/discard and copy follow from extent and capacity exactly.',
  ['inputs', 'histories'], 'for every buffer size, capacity, prior extent (including past the end), and data length; each operation is checked from an arbitrary prior state so every history is covered',
  'tests write short literals into one or two buffer sizes',
  [H + 'BufferWriter.h'], [('FixedBufferWriter and BufferWriter::write', H + 'BufferWriter.h')],
  drivers=[D('bufwriter.cc', min=18)],
  explain='Every operation of the fixed writer is analysed from an arbitrary writer state (any capacity, any extent, any buffer) with one arbitrary tracked byte of the buffer; obligations: accounting equations, content of the tracked byte, bounds of every store.')

# ---------------------------------------------------------------- text views
P('T01', 'Cutting a text view never loses, invents or leaves the text',
  'Every prefix, suffix, split, take, remove and find operation of a text view, by count, character, character set or predicate, yields exactly the part of the text on its side of the first (or last) matching '
  'character and leaves exactly the other part, dropping only that one delimiter. When nothing matches, prefix and suffix are empty, split is empty and leaves the view alone, '
  'take takes the whole view, remove_prefix leaves the view alone and remove_suffix clears it. A count past the end means the whole view, except that split then yields nothing. No operation reads outside the view.',
  ['inputs'], 'for every text, length, count, delimiter and predicate, including embedded NUL bytes, empty views and counts past the end',
  'tests cut a handful of literals; the guarantee is over every position of the delimiter and every size',
  [H + 'TextView.h'], [('prefix/suffix/split/take/remove/substr', H + 'TextView.h')],
  drivers=[D('text.cc', min=35)],
  explain='One contract entry per operation and delimiter form over a text of symbolic length with one arbitrary tracked character; obligations: position of the cut relative to every delimiter, exact remainder, bounds of every read.')
P('T02', 'Trimming removes exactly the leading or trailing run',
  'Trimming or clipping a text view by character, character set or predicate removes (or yields) exactly the maximal leading and/or trailing run of characters that match, and nothing else; a view of only matching '
  'characters becomes empty. A transform view yields the transform of every source character once, in order, and ends exactly at the end of the source.',
  ['inputs'], 'for every text and every set of trimmed characters',
  'tests trim a few literals', [H + 'TextView.h'], [('ltrim/rtrim/trim/clip and CharSet', H + 'TextView.h'), ('TransformView', H + 'TextView.h')],
  drivers=[D('trim.cc', min=17)],
  explain='Contract entries over a text of symbolic length with an arbitrary tracked character: every removed character matches, the first kept one does not, remainder exact.')
P('T03', 'Text to number conversion is exact, saturating and maximal',
  'Parsing text as a number consumes exactly the longest run of digits valid in the radix (after optional space, sign and, when no base is given, a 0, 0x or 0b prefix), reports exactly the parsed part, and yields the exact value '
  'up to the limits of the type, beyond which it stays at the largest (or smallest) value. Upper and lower case digits are equal in every base up to 36. Text that has no number yields zero with an empty parsed part. It never reads outside the text.',
  ['inputs'], 'for every text of every length; digit values for every combination of digits, saturation around the limit for radices 2, 3, 8, 10, 16, 36',
  'overflow boundaries and unusual bases and prefixes are a sparse part of the input space',
  [H + 'TextView.h', C + 'TextView.cc'], [('svto_radix, svtoi, svtou, svtod', C + 'TextView.cc')],
  drivers=[D('numeric.cc', repo=['src/TextView.cc'], min=40)],
  explain='Consumption obligations for text of symbolic length with an arbitrary tracked character; value obligations over symbolic digits, including every last digit next to each saturation limit. The numeric accuracy of svtod is not part of the property.')
P('T04', 'View comparison, matching and construction agree with the text',
  'Comparing two views returns -1, 0 or 1: the order of the first differing character (with or without regard to case), or else the shorter view first; zero exactly for equal text. The ordering and equality functors agree with it. '
  'A view starts (or ends) with text exactly when it is at least as long and that end of it matches. Constructing or assigning a view from a pointer and size, range, literal, C string, string or view gives exactly that text; a null C string gives an empty view.',
  ['inputs'], 'for every pair of views of any length, including empty views and views of the same storage',
  'tests compare a few literals', [H + 'TextView.h', H + 'string_view_util.h', C + 'string_view_util.cc'], [('memcmp/strcmp/strcasecmp of views', C + 'string_view_util.cc'), ('starts_with/ends_with, functors, constructors and assignment', H + 'TextView.h')],
  drivers=[D('compare.cc', repo=['src/string_view_util.cc'], min=24)],
  explain='Contract entries over two views of symbolic length and content; obligations compare the result with the mathematical order of the common part and the lengths.',
  assume=['case insensitive comparison is considered for text without embedded NUL (strncasecmp stops there); C locale'])

# ---------------------------------------------------------------- scaled integers
P('S01', 'Scaled integers keep their value and round only as asked',
  'Conversion, assignment, addition, subtraction and comparison of Scalar values of any scales act on the value (count times scale): a lossless conversion preserves it exactly, mixed scale sums and differences are exact, comparison orders by value. '
  'round_up gives the least multiple not below the value and round_down the greatest multiple not above it, for negative values too. Conversions that could lose value, or that cross tags, do not compile.',
  ['inputs'], 'for every count (within the range where the product of count and scale is representable) over representative pairs of scales: equal, multiple, divisor, coprime, common factor',
  'tests check a handful of counts for a few scale pairs',
  [H + 'Scalar.h'], [('scale_conversion_round_up/down, operators', H + 'Scalar.h')],
  drivers=[D('scalar.cc', min=55)], rules=[wit_scalar.rule], technique=ABSINT + '; compile-fail witnesses',
  explain='Arithmetic obligations on symbolic counts for representative scale pairs and counter types, including integrality reasoning on quotients; witness programs for conversions that must be rejected, each with an accepted twin.')

# ---------------------------------------------------------------- intrusive containers
P('L01', 'The intrusive list is exactly the sequence its operations describe',
  'Prepending, appending, inserting, erasing (one element or a range), taking, splitting, splicing and moving intrusive lists yields exactly the list the corresponding sequence operation yields: forward and backward links, head, tail and count all agree with that '
  'sequence, removed elements have null links and a list whose elements were moved is empty. Iteration in either direction, apply, nth and contains see every element exactly once in that order; decrementing end() is the last element; erase returns the following element.',
  ['inputs', 'histories'], 'for lists of every length, every position and every size of spliced list (removed ranges of up to three elements at any position of a list of any length); every operation is checked from an arbitrary list so every history is covered',
  'tests exercise short lists at the ends; links, count and tail must agree after every operation at every position',
  [H + 'IntrusiveDList.h'], [('IntrusiveDList operations', H + 'IntrusiveDList.h')],
  drivers=[D('dlist.cc', min=40)],
  explain='Each operation is analysed from a list of symbolic length (nodes laid out in order, which is general because the code only compares addresses for equality) with one arbitrary tracked node; obligations: links of the tracked node, of the operand and head/tail/count.')

P('A03', 'Arena writers never lose text and arena cells hold one object at a time',
  'Everything written to an ArenaWriter (characters, spans, committed auxiliary data), in any order and whatever reallocation that causes, is in its view, in order and complete, at the start of the arena remnant, so that allocating the extent from the arena finalizes exactly that text; '
  'allocations made in the arena before are never touched. A failed commit leaves room for the retry. FixedArena hands out each cell to one object at a time: a destroyed object is destructed once and its cell is reused before new memory is taken, a live cell never is, no cell is lost, and clear forgets all cells.',
  ['inputs', 'histories'], 'for arenas of zero to two active blocks and one frozen block with every block size and fill, every amount of text already written, and every size of write (unrestricted writers); free lists of zero to four cells',
  'tests write a few strings; the writer can lose exactly the byte at the capacity boundary or corrupt text on the move to a new block',
  [H + 'ArenaWriter.h', C + 'ArenaWriter.cc', H + 'MemArena.h', H + 'BufferWriter.h'], [('ArenaWriter::write/commit/realloc', C + 'ArenaWriter.cc'), ('FixedArena::make/destroy/clear', H + 'MemArena.h')],
  drivers=[D('arenawriter.cc', repo=['src/ArenaWriter.cc', 'src/MemArena.cc'], min=17)],
  explain='Arbitrary arena and writer state, one operation, exact accounting; content is tracked at one arbitrary byte of the old text, of the new text and of earlier allocations.')

P('V01', 'Vectray is a sequence of live elements whatever storage holds it',
  'After any push_back (copy or move, including of one of its own elements), emplace_back, pop_back, reserve, copy, move, assignment, conversion to another fixed size, or sized / allocator construction, a Vectray holds exactly the elements the same std::vector operation gives, in order: '
  'size, empty, indexing, iteration, front, back, data and the span conversions agree (constant and not). Each element is constructed and destroyed exactly once through its own constructors and destructor, appended rvalues are moved and lvalues copied, only constructed elements are ever touched, '
  'fixed storage is aligned for the element type, reserved space is not reallocated and a given allocator is the one used.',
  ['inputs', 'histories'], 'for fixed sizes 1 and 3 (1 to 5 in thorough runs) and every content of zero to one past the fixed size (element values arbitrary), each operation; conversions between fixed sizes 1, 2 and 4',
  'tests push a few elements into a fixed size of one and never copy, pop, convert or use constant access; a wrong destruction or raw copy needs an element type that notices',
  [H + 'Vectray.h'], [('Vectray', H + 'Vectray.h')],
  drivers=[D('vectray.cc', min=90, thorough_defs=['THOROUGH'])],
  explain='The element type of the driver records its own address, liveness and whether it was moved from; every abstract path of every operation is checked for construction, destruction and content (std::vector and std::variant are analysed as compiled code).')

# ---------------------------------------------------------------- arena
P('A01', 'Arena allocation yields exactly the memory asked for, apart from all other',
  'Every arena allocation (raw, typed span, object, localized text) succeeds for any size and power of two alignment and yields exactly the requested size, aligned as requested, inside one block owned by the arena and after everything already allocated in that block, '
  'so it overlaps no other allocation and no earlier content changes. require guarantees the remnant, a sized remnant is exactly the bytes the same allocation then returns, and the size accounting follows. '
  'Localized text is a copy; localize_c adds a nul that is not part of the view and reads nothing past the source.',
  ['inputs', 'histories'], 'for every request size up to 2^38, alignments 1, 8, 16, 64, and every arena of up to three blocks (three for alignment 1 and 16, else two) with any sizes and fill levels, which covers every block the search can pick (first, middle, last) or a new one',
  'tests allocate a few sizes from fresh arenas; block boundaries, alignment padding and large requests are where it fails',
  [H + 'MemArena.h', C + 'MemArena.cc'], [('MemArena::alloc/require/remnant/make/localize', C + 'MemArena.cc'), ('Block::alloc/satisfies', H + 'MemArena.h')],
  drivers=[D('memarena.cc', repo=['src/MemArena.cc'], match='alloc|require|typed|make|localize', min=26, thorough_defs=['THOROUGH'])],
  explain='Each operation is analysed from an arena whose blocks have symbolic size and fill; obligations on the returned extent, the fill and integrity of every block, the accounting and an arbitrary tracked byte of earlier content.')
P('A02', 'Arena memory is released exactly once, exactly when promised',
  'Freezing keeps active memory valid as the frozen generation and releases the previous one; thawing releases frozen memory; clear and destruction release everything; moves transfer everything; discard only resets or, for a span, undoes an allocation at the end of its block, and never loses a block. '
  'Nothing is released twice or leaked, allocation failure is never returned as memory, and a static block supplied by the user is used, kept through freeze, thaw, clear and moves, made available again by thaw, and never released by the arena. Sizes reported follow.',
  ['histories'], 'for arenas with up to three active and three frozen blocks of any size and fill, with and without a static block; every operation from an arbitrary such arena',
  'leaks, double release and use after release need particular histories of freeze, thaw, move and clear',
  [H + 'MemArena.h', C + 'MemArena.cc'], [('freeze/thaw/clear/discard/move/destructor/static block', C + 'MemArena.cc')],
  drivers=[D('memarena.cc', repo=['src/MemArena.cc'], match='freeze|clear|dtor|move|discard|undo|contains|static|self|oom', min=31)],
  explain='Ownership obligations over the abstract heap: every block alive or released exactly as promised, list integrity, accounting.')

# ---------------------------------------------------------------- ranges and spaces
P('R01', 'Range predicates and combinations are the set operations',
  'A discrete range contains exactly the values from its minimum to its maximum, both included; it is empty exactly when the minimum exceeds the maximum. The intersection contains exactly the common values, ranges intersect exactly when there is a common value, and the hull (also |=) is the smallest range containing both, '
  'the other range if one is empty. For non-empty ranges superset, subset and their strict forms and the comparison operators are set inclusion, adjacency means that the value following one range starts the other (never by wrapping around the limits), '
  'and relationship and left_edge_relationship report the most specific relation that holds.',
  ['inputs'], 'for every pair of ranges over 8 bit, 32 bit unsigned and signed metrics and a class metric with MIN/MAX, including ranges at the limits of the metric',
  'tests compare a few literal ranges; limits of the metric and empty ranges are not covered',
  [H + 'DiscreteRange.h'], [('DiscreteRange members', H + 'DiscreteRange.h')],
  drivers=[D('range.cc', min=20)],
  explain='Contract entries over two arbitrary ranges and an arbitrary metric value; set relations are stated pointwise on that value.')
SPACE_REPO = ['src/RBTree.cc', 'src/MemArena.cc']
SPACE_OVER = 'for every space of up to three ranges (four in thorough runs) at any positions with any payloads, in every red black tree of them, and every non-empty range, including ranges at the limits of the metric; each operation is checked from an arbitrary such space so histories are covered'
P('R02', 'Marking, filling and erasing a space change exactly the range given',
  'After mark, every value in the range has the payload and every other value is as before. After fill, values in the range that had no payload have it and all others are as before. After erase, no value in the range has a payload and all others are as before. '
  'find succeeds exactly for values that have a payload and yields it; lower_bound is the last range starting at or before the value, upper_bound the first starting after it, and intersection yields exactly the ranges that share a value with the argument. '
  'Ranges stay in order, non-empty and disjoint, adjacent ranges with equal payloads are merged into one, no node is lost, and clear leaves an empty usable space.',
  ['inputs', 'histories'], SPACE_OVER, 'tests mark a few sequences of literal ranges; the case analysis on overlap, adjacency, payload equality and metric limits is far larger',
  [H + 'DiscreteRange.h', H + 'RBTree.h', C + 'RBTree.cc'], [('DiscreteSpace mark/fill/erase/find/lower_node/upper_node/intersection', H + 'DiscreteRange.h')],
  drivers=[D('space.cc', repo=SPACE_REPO, match='mark|fill|erase|find|bound|isect|clear', min=38, thorough_defs=['THOROUGH'])],
  explain='Each operation is analysed from a space of K ranges with symbolic bounds and payloads (relations between them are split on as the code branches) and an arbitrary value whose payload before and after is compared; the list and tree afterwards are checked completely.')
P('R03', 'Blending a space applies the blend once to exactly the range',
  'After blend, every value in the range has the payload the functor computes from its previous payload (a default constructed payload for values that had none) and the color, applied exactly once, or no payload if the functor returned false; every other value is as before. '
  'Ranges stay in order, non-empty and disjoint, adjacent ranges with equal payloads are merged into one and no node is lost.',
  ['inputs', 'histories'], SPACE_OVER + ', for every functor (any result and validity per payload, not necessarily idempotent)',
  'tests blend bit sets, which are idempotent, in a few configurations',
  [H + 'DiscreteRange.h', H + 'RBTree.h', C + 'RBTree.cc'], [('DiscreteSpace::blend', H + 'DiscreteRange.h')],
  drivers=[D('space.cc', repo=SPACE_REPO, match='blend', min=26, thorough_defs=['THOROUGH'])],
  explain='As R02, with the blend functor an arbitrary function from payload to payload and validity.')
P('R04', 'The range tree stays a valid ordered red black tree',
  'Inserting before or after any node, prepending, appending and removing any node keeps the tree and the list in the same order with exactly the expected nodes, parent and child links consistent, the root black, no red node with a red child, the same number of black nodes on every path, and the subtree extent (hull) of every node exact. '
  'The search of any value is therefore logarithmic and exact.',
  ['inputs', 'histories'], 'for every valid red black tree of up to nine nodes (twelve in thorough runs) with every shape and colouring, every position',
  'tests build trees by insertion in a few orders and never look at colours or removal rebalancing',
  [H + 'RBTree.h', C + 'RBTree.cc', H + 'DiscreteRange.h'], [('rebalance_after_insert/remove, rotate, replace_with', C + 'RBTree.cc'), ('structure_fixup, insert_before/after, prepend/append/remove', H + 'DiscreteRange.h')],
  drivers=[D('space.cc', repo=SPACE_REPO, match='tree', min=36, thorough_defs=['THOROUGH'])],
  explain='Every shape and colouring of a valid tree is generated abstractly with symbolic keys; one structural operation at every position; the result is checked completely against the in-order list.')
P('H01', 'The intrusive hash map keeps its elements, chains and counts consistent',
  'After any insert, erase (of an element, an iterator, a range), clear, apply or expand: iteration yields exactly the elements inserted and not erased, each once; elements with equal keys are contiguous and in insertion order; each bucket starts where the chain of the previous active bucket ends and its count is the number of its elements; '
  'find yields the first element with the key (or end), equal_range exactly the elements with the key (constant versions agree), an element that is not in the map is neither found nor erased; erase returns the following element and unlinks the element. '
  'The bucket count is always positive and at least what was requested; the table expands (to the next prime, keeping every element) after an insert that leaves the average chain above the limit (AVERAGE), or a chain of differing keys above the limit (MAXIMUM), and never by itself if MANUAL.',
  ['inputs', 'histories'], 'for maps of up to 2 (3 for most operations; thorough: 4) elements of arbitrary keys and every distribution over 3 buckets of the table',
  'tests use one string table with a few collisions and never erase from the middle of a chain; the interaction of chain position, equal keys, counts and expansion is combinatorial',
  [H + 'IntrusiveHashMap.h', H + 'IntrusiveDList.h'], [('IntrusiveHashMap insert/find/equal_range/erase/expand/apply', H + 'IntrusiveHashMap.h')],
  drivers=[D('hashmap.cc', min=58, thorough_defs=['THOROUGH'])],
  explain='A map is populated with arbitrary keys (equalities between keys and bucket collisions are split on), then each operation is analysed and the element list, bucket list, counts and table are checked completely.')
IPH = [H + 'IPAddr.h', H + 'IPEndpoint.h', H + 'IPSrv.h', H + 'swoc_ip_util.h', C + 'swoc_ip.cc']
IPR = ['src/swoc_ip.cc']
P('I01', 'An IP address and port keep their value in every representation',
  'Host order, network order, octets, socket address structures (specific and generic), IPAddr, IPEndpoint, IP4Srv/IP6Srv/IPSrv: converting an address (and port) into any of them and back yields the same value, the bytes are in network order and only the address (and port, and family) are changed. '
  'Octet i is the i-th most significant. Increment, decrement (with carry and borrow over 128 bits), shifts by 0 to 127 (32) and bitwise operators act on the numeric value. An IPv4 address as IPv6 is ::ffff:a.b.c.d and recognized as such. Other families and default objects are invalid, and what is made from an invalid one is invalid. Copying a socket address (onto itself included) reports whether it is an IP address. Equal addresses have equal hashes.',
  ['inputs'], 'for every address, port and shift count', 'tests use a few literal addresses; most shift counts, carries and assembly orders of the 128 bits are never touched',
  IPH, [('IP4Addr, IP6Addr, IPAddr', H + 'IPAddr.h'), ('IPEndpoint', H + 'IPEndpoint.h'), ('IPSrv', H + 'IPSrv.h')],
  drivers=[D('ipaddr.cc', repo=IPR, match='rep_', min=17)],
  explain='Addresses are symbolic bit vectors (each bit an unknown): every conversion is analysed and the result compared bit for bit.')
P('I02', 'A mask or network selects exactly its bits',
  'A mask of width n has exactly the n most significant bits. Masking an address keeps those bits and clears the others, inverse masking sets the others; the range and the network (IP4Net, IP6Net, IPNet) of an address and mask run from the former to the latter and report the mask. Invalid masks change nothing and select the single address. '
  'mask_for yields the widest network that starts at an address. Widening or narrowing changes the width by that amount. Default and cleared networks are empty. The types for either family agree with the specific ones.',
  ['inputs'], 'for every address and every width of both families', 'tests use a few literal masks',
  IPH + [H + 'IPRange.h'], [('IPMask', H + 'IPAddr.h'), ('IP4Range/IP6Range::assign, IP4Net/IP6Net/IPNet', H + 'IPRange.h')],
  drivers=[D('ipaddr.cc', repo=IPR, match='mask_', min=9)],
  explain='Every width is enumerated, addresses are symbolic bit vectors.')
P('I03', 'Address classification agrees with the prefixes in every type',
  'Loopback is 127/8 and ::1; multicast is 224/4 and ff00::/8; link local is 169.254/16 and fe80::/10; private is 10/8, 172.16/12, 192.168/16, 100.64/10 and fc00::/7; any is all zero. '
  'IP4Addr, IP6Addr, IPAddr, IPEndpoint and the functions on network order, host order and socket addresses give the same answer. Invalid addresses are in no class. set_to_any and set_to_loopback make such an endpoint with port 0.',
  ['inputs'], 'for every address of both families', 'tests look at a handful of literal addresses',
  IPH, [('is_loopback, is_multicast, is_link_local, is_private, is_any', H + 'swoc_ip_util.h')],
  drivers=[D('ipaddr.cc', repo=IPR, match='class_', min=9)],
  explain='Addresses are symbolic bit vectors; the answer of every type is compared with the prefix.')
P('I04', 'Addresses and services are totally ordered',
  'Exactly one of less, equal and greater holds for two addresses (or services); less is transitive; cmp and the derived operators agree. Addresses of a family order numerically, IPv4 before IPv6, invalid before both; services order by address and then port.',
  ['inputs'], 'for every two (three) addresses or services of any families', 'tests compare a few literal addresses',
  IPH, [('operator<, cmp', H + 'IPAddr.h'), ('IP4Srv/IP6Srv operator<', H + 'IPSrv.h')],
  drivers=[D('ipaddr.cc', repo=IPR, match='order_', min=8)],
  explain='The sign conditions of all pairs (triples) are analysed case by case.')
P('I05', 'IP text is accepted only if well formed and means exactly what it spells',
  'load of IP4Addr, IP6Addr, IPAddr: four octets up to 255 separated by single dots (or fewer numbers, the last of which fills the remaining octets; numbers are decimal without prefix); eight hexadecimal groups of at most ffff, or fewer with exactly one "::" standing for the missing zero groups (at least one), in either case of digits. Surrounding white space and one matched pair of brackets are ignored. '
  'Empty, extra or too large octets, missing, extra or too large groups, a second "::", a leading or trailing single colon, any other character and unmatched brackets are rejected, leaving the zero address (an invalid IPAddr). '
  'A mask is a number up to 128. A range is an address, ADDR-ADDR or ADDR/WIDTH, a network ADDR/WIDTH or (IPv4) ADDR/MASK, with width at most 32 or 128 by family; anything else is rejected and leaves an empty range or network. A service is an address (an IPv6 address in brackets) with an optional :PORT of at most 65535; the specific and generic types and IPEndpoint agree; anything else is rejected.',
  ['inputs'], 'for every digit value and every enumerated form (number and length of parts, position of "::", position of a foreign character or brackets, all widths)', 'tests load a few dozen literal texts; truncating or ignoring junk in one position passes them all',
  IPH + [H + 'IPRange.h', H + 'TextView.h'], [('IP4Addr::load, IP6Addr::load, IPMask::load, IP*Range::load, IP*Net::load, IP*Srv::load, IPEndpoint::tokenize/parse', C + 'swoc_ip.cc')],
  drivers=[D('iptext.cc', repo=['src/swoc_ip.cc', 'src/TextView.cc'], match='v4_|v6_|mask_|range_|srv_', min=29)],
  explain='Texts are arrays of symbolic characters (any digit, any foreign character) in each of the enumerated forms; the parser is analysed on each form and its result is compared with the value of the digits.')
P('I06', 'A range splits into the fewest networks that cover it exactly',
  'networks() of IP4Range, IP6Range, IPRange and IPRangeView: the first network starts at the minimum, each next one at the address after the end of the previous one, each is the largest network that starts there and does not pass the maximum, and the last one ends exactly at the maximum (so the networks are disjoint, in order, cover exactly the range and no fewer would do). An empty or invalid range has none. '
  'network_mask() is the mask of a range that is a network and invalid for every other. IPRange and IPRangeView have the family, minimum, maximum, equality and emptiness of the range they are made from and contain exactly its addresses, none of the other family; default, cleared, mixed family ranges are invalid and empty, also when assigned from an invalid view.',
  ['inputs', 'histories'], 'for every minimum and maximum; every alignment of an IPv4 address and every previous network width, selected alignments of IPv6 (around 64 bits among them; more in thorough runs)',
  'tests list the networks of about ten literal ranges', IPH + [H + 'IPRange.h'], [('IP4Range::NetSource, IP6Range::NetSource, IPRange::NetSource', C + 'swoc_ip.cc'), ('IPRange, IPRangeView', H + 'IPRange.h')],
  drivers=[D('ipnets.cc', repo=IPR, match='nets_', min=40, thorough_defs=['THOROUGH'])],
  explain='One step of the network iterator from an arbitrary state (address bits unknown above its alignment, any maximum, any valid current width) is compared with the largest aligned block; by induction over the steps the whole sequence is the cover.')
P('I07', 'An IP space is the union of its IPv4 and IPv6 spaces',
  'mark, fill, erase and blend of a range change exactly the addresses of that range in the space of its family (a mark sets the payload, a fill only where there is none, an erase removes it, a blend applies the functor once and removes where it returns false) and nothing in the other; invalid ranges change nothing. find of an address (specific or generic, constant or not) succeeds exactly if the address is in a range and yields its payload; an invalid address is not found. '
  'Iteration forward yields the ranges of IPv4 and then of IPv6, each in order with its payload, backward the reverse; the iterators of one family delimit its ranges; intersection delimits exactly the ranges that share an address with the argument; the counts are the numbers of ranges; clear empties both. IPRangeSet contains exactly the addresses of the marked ranges and merges overlapping and adjacent ones.',
  ['inputs', 'histories'], 'for every address, range and payload, in spaces of up to two ranges of each family',
  'tests use one family at a time or a few literal ranges', [H + 'IPRange.h', H + 'DiscreteRange.h', C + 'RBTree.cc', C + 'swoc_ip.cc'], [('IPSpace, IPRangeSet', H + 'IPRange.h')],
  drivers=[D('ipspace.cc', repo=['src/swoc_ip.cc', 'src/RBTree.cc', 'src/MemArena.cc'], match='space_', min=49)],
  explain='Spaces of arbitrary ranges are built through the interface; each operation is analysed and the payload of an arbitrary address of each family is compared before and after.')
BWF = ['src/bw_format.cc', 'src/TextView.cc']
BWH = [H + 'bwf_base.h', H + 'bwf_ex.h', H + 'bwf_std.h', C + 'bw_format.cc']
P('F01', 'Formatted numbers spell the value',
  'Formatting an integer writes exactly the digits of its value, without leading zeros, in radix 10 (types g, d), 16 (x, X), 8 (o) or 2 (b, B), in the case of the type; "#" puts 0x, 0X, 0 (octal), 0b or 0B before them; a negative value has a "-", a positive one what the sign asks for. '
  'This holds for every value of every signed and unsigned type, the minimum included.',
  ['inputs'], 'for every value of every number of digits in every radix', 'tests format a few literal values',
  BWH, [('bwf::Format_Integer, bwformat of integral types', C + 'bw_format.cc')],
  drivers=[D('bwfnum.cc', repo=['src/bw_format.cc'], match='num_', min=10)],
  explain='The values of each number of digits are analysed together; the digits written are summed and compared with the value.')
P('F02', 'Fields have the width and alignment of the specifier',
  'A formatted integer, text or adjusted field has exactly its content, padded with the fill character to the minimum width (left aligned: fill after, right aligned: before, centered: half before and the odd one after, sign aligned: between sign/radix prefix and digits) and never padded if it is at least that wide. '
  'The precision limits the length of text. A field longer than the maximum width is cut to it. All of this holds in a writer of any capacity: what does not fit is counted and dropped, and nothing outside the buffer is touched. A view written to a stream is filled to the width of the stream in the same way (left, or otherwise right).',
  ['inputs'], 'for every fill character, alignment, minimum up to 11, sign, radix mark, and (adjusted fields) every writer capacity up to 9', 'tests use one writer that is large enough and a dozen literal specifiers',
  BWH, [('bwf::Write_Aligned, bwf::Adjust_Alignment, bwformat(string_view)', C + 'bw_format.cc')],
  drivers=[D('bwfnum.cc', repo=['src/bw_format.cc'], match='align_', min=17)],
  explain='The expected characters of each combination of widths and alignment are constructed by the contract and compared with the output for every content and fill.')
P('F03', 'Format specifiers and format strings are parsed exactly and in bounds',
  'A specifier [name][:[[fill]align][sign][#][0][min][.precision][,max][type][:ext]] yields exactly its parts, an absent part has its default (a leading 0 fills with 0 and aligns to the sign if no alignment was given; the fill may be written %HH; a numeric name is the argument index). Malformed specifiers are rejected. '
  'print with a format string writes its literals unchanged, {{ and }} as single braces, {} as the next argument, {N} as argument N without advancing, and the bad index text for an argument that does not exist; an unmatched brace is rejected. {name} is what the generator bound to exactly that name (in a set that keeps its own copy of the name) writes for the specifier (and context), in the field, or {~name~} if there is none. No text is read outside its bounds, whatever it contains.',
  ['inputs'], 'for every combination of parts with arbitrary characters and digits; format strings of every three pieces; every text of up to 5 (thorough: 6) characters for the bounds',
  'tests parse a few dozen literal specifiers', BWH, [('bwf::Spec::parse, bwf::Format::TextViewExtractor::parse', C + 'bw_format.cc'), ('BufferWriter::print_nfv', H + 'bwf_base.h')],
  drivers=[D("bwfspec.cc", repo=BWF, match="spec_", min=24, thorough_defs=["THOROUGH"]), D("bwfprint.cc", repo=BWF + ["src/MemArena.cc"], match="print_", min=22)],
  explain='Specifiers are built from parts whose characters are arbitrary; the parsed specifier is compared with the parts. Format strings are built from all triples of eight kinds of pieces.')
P('F04', 'Error numbers are printed as the name of their errno macro',
  'Formatting bwf::Errno with extension "s" and type s writes exactly the name of the <errno.h> macro that has that value (SUCCESS for 0, EWOULDBLOCK for 41 and EDEADLOCK for 58, which no other macro has), "Unknown" for every other number; with a numeric type "[N]"; without a type the name and " [N]". '
  'A std::error_code of the generic or system category is written as that name and " [N]", with a numeric type as the number.',
  ['inputs'], 'for every errno value from 0 to 133 and every other int', 'tests look at one or two names; the table has 134 rows',
  BWH, [('ERRNO_SHORT_NAME, bwformat(Errno), bwformat(error_code)', C + 'bw_format.cc')],
  drivers=[D('bwferr.cc', repo=BWF, match='err_', min=9)],
  explain='The names come from the macros of <errno.h>; each is compared with the text written for its value.')
P('F05', 'Values of other types are formatted as their text',
  'Text is written as is (types s and S map it to lower and upper case); a C string up to its terminator; a null pointer or C string as nothing, "null" (type s) or "NULL" (type S); another pointer as 0x and the hexadecimal digits of its value; a character as itself; bool as true/false (TRUE/FALSE for S) or 1/0. '
  'Text and memory with type x or X are written as two hexadecimal digits per byte, in order, in blocks (precision) separated by spaces with the radix prefix if asked; UnHex writes the bytes that pairs of hexadecimal digits of either case spell, ignoring an odd last digit. '
  'Pattern repeats its text exactly n times, FirstOf is the first non empty text, If and Optional print only under their condition, SubText prints its format. A Date is exactly what strftime makes of its time (UTC, or local time with extension "local") and format, however little room the writer has, or with a numeric type the number.',
  ['inputs'], 'for every content of the (up to 5 character) texts and spans and every value', 'tests use one literal of each kind',
  BWH, [('bwformat of string_view, MemSpan, pointers, bool, bwf::UnHex, bwf::HexDump, bwf::Pattern, bwf::FirstOf, bwf::If, bwf::Optional', C + 'bw_format.cc')],
  drivers=[D('bwftype.cc', repo=BWF, match='dump_|text_|wrap_', min=16)],
  explain='Each kind of value is formatted with arbitrary content and compared with the expected characters.')
P('F06', 'IP text output spells the address, port and family',
  'An IPv4 address is written as its four decimal octets, an IPv6 address as hexadecimal groups without leading zeros with the first longest run of two or more zero groups written "::"; with extension "=" (optionally a fill character before it) each octet or group is padded to full width and nothing is abbreviated. '
  'A service without a port is written as its address, other services and socket addresses as the address (IPv6 in brackets) ":" port; the extension selects address (a), port (p) and family (f) parts. A range is MIN-MAX, as a single address or network with extension "c" when it is one; a network is ADDR/WIDTH. IPAddr, IPEndpoint, IPRange, IPNet, IPSrv are written as the address of their family; invalid ones as such.',
  ['inputs'], 'for every address (every number of digits of each octet, every set of zero groups), port and width', 'tests print a few dozen literal addresses',
  IPH + [C + 'bw_ip_format.cc', H + 'bwf_ip.h'], [('bwformat of IP4Addr, IP6Addr, IPAddr, IPEndpoint, sockaddr, ranges, networks, services', C + 'bw_ip_format.cc')],
  drivers=[D('bwfip.cc', repo=['src/bw_ip_format.cc', 'src/swoc_ip.cc', 'src/bw_format.cc', 'src/TextView.cc'], match='text_', min=17, thorough_defs=['THOROUGH'])],
  explain='Addresses are assembled from the digits of the expected text; the output is compared with that text.')
P('F07', 'Floating point values are written as their digits',
  'A value with a fraction is written as its whole part, a point and exactly as many digits as the precision (2 if none is given): its fraction rounded to the nearest multiple of the last place (in double arithmetic, at most 19 places; zeros after those), a fraction that rounds to one being carried into the whole part. '
  'A value without a fraction, or any value with precision 0, is written as its whole part only, whatever its magnitude. A negative value has a minus sign, a positive one a plus sign if the sign is +. The text is filled to the minimum width as the alignment asks. Zero, infinities (with their sign), NaN and subnormal values are written as 0, Inf, -Inf, NaN and subnormal.',
  ['inputs'], 'for every whole part of up to 16 (with a fraction) or 20 digits and every fraction, every precision class up to 24, every fill, minimum up to 12; larger values for any digits the C library yields', 'tests print some thirty literal values with precision up to 11',
  BWH, [('bwf::Format_Float', C + 'bw_format.cc'), ('bwformat(double)', H + 'bwf_base.h')],
  drivers=[D('bwffloat.cc', repo=['src/bw_format.cc'], match='float_', min=25)],
  explain='A value is abstracted as an exact whole part (an integer term) and a fraction in (0,1); scaling it and rounding it to an integer is a function of the fraction with monotone bounds, so the text is compared digit by digit with the whole part, the rounded fraction and the carry.')

# ---------------------------------------------------------------- not decidable here
P('T05', 'svtod yields the value spelled to within one epsilon',
  'The floating point value that svtod yields for a text differs from the decimal value spelled by the text by at most one epsilon relative to it, for every number of digits and every exponent.',
  ['inputs'], 'for every text', 'accuracy depends on digit count and exponent', [H + 'TextView.h', C + 'TextView.cc'], [('svtod', C + 'TextView.cc')],
  na='The error is the accumulated rounding of a loop over the runtime digits and of repeated squaring over the runtime exponent; bounding it needs an error analysis of floating point per exponent, which interval or affine abstraction does not give within one epsilon. The extent consumed and memory safety of svtod are decided under T03.')
P('X01', 'File helpers report what the file system did',
  'load returns exactly the content of the file or an error, copy leaves an identical file, remove and create_directories succeed exactly when the file system did what was asked, and status predicates agree with the file system.',
  ['inputs', 'fault_sequences'], 'for every file system state and fault', 'tests use a few files without faults', [H + 'swoc_file.h', C + 'swoc_file.cc'], [('file::load, copy, remove, create_directories, status', C + 'swoc_file.cc')],
  na='The statement relates results to the state of an operating system that the source does not determine; a static argument would only restate the system calls made. (The lexical part, path composition, is plain std::string concatenation.)')

# ---------------------------------------------------------------- lexicon
P('L02', 'A Lexicon finds definitions by value and by name',
  'A value that has been defined is found by every name it was given, whatever the case of the letters, and gives back its primary name, which is the first one defined for it; later names for the same value are further names and do not replace the primary. '
  'The Lexicon holds its own copy of the names: the texts passed to define may be changed or released afterwards, and a moved Lexicon keeps all its definitions. A name that is already defined (without case) is rejected by an exception. '
  'A name or value that is not defined gives the default set for it (a value, a text, or the result of a handler called with it), the last one set counting, and an exception if there is none; a defined one never does. '
  'Iteration visits every value once with its primary name, iteration by name every name once with its value, forward and back; count is the number of values. The text form lists the names, values or both, separated by commas.',
  ['inputs', 'histories'], 'for any distinct values (and any hash of them and of the names, all colliding), with up to four names, defined by every form of define and of the constructor; names compared letter by letter in either case',
  'tests define fixed lexicons and look up literal names; no test walks backward',
  [H + 'Lexicon.h'], [('Lexicon: constructors, define, operator[], set_default, count, iterators, localize; bwformat', H + 'Lexicon.h'), ('NameLinkage::hash_of/equal', H + 'Lexicon.h')],
  drivers=[D('lexicon.cc', repo=['src/MemArena.cc', 'src/bw_format.cc', 'src/TextView.cc', 'src/string_view_util.cc'], match='lex_', min=16)],
  explain='Each entry defines names for arbitrary distinct values and compares what every lookup and iteration yields; a separate entry shows the real hash of a name does not depend on the case of its letters.')

# ---------------------------------------------------------------- errata
P('E01', 'An Errata keeps its annotations, severity and code',
  'Annotations are kept in the order they were added, each with its own copy of its text (whatever happens to the original), its severity if given, and its depth; earlier ones are unaffected by later ones. '
  'The severity of an Errata is the largest given by a note or update (assign replaces it), including notes dropped because they are below the filter severity; without one it is the default. '
  'It is a success exactly when it has never been given anything or its severity is below the failure severity. Noting another Errata appends copies of its annotations one level deeper and raises the severity; a moved Errata leaves the source empty. '
  'Discarding (sink or destruction) calls every registered sink once, in order of registration, if there is anything to discard, then clears. The text form is severity, code, and each annotation with severity and indent, joined by the glue texts. An Rv carries its result and such a status unchanged.',
  ['inputs', 'histories'], 'for every text content, severity, filter, failure severity and code; for sequences of up to four notes, merges, moves, assignments and clears; for formatted texts shorter and longer than the space left in the block',
  'tests build a few Errata with literal texts',
  [H + 'Errata.h', C + 'Errata.cc'], [('Errata: note, note_s, note_sv, note_localized, update, assign, sink, clear, move; bwformat; Rv', C + 'Errata.cc')],
  drivers=[D('errata.cc', repo=['src/Errata.cc', 'src/MemArena.cc', 'src/bw_format.cc', 'src/TextView.cc'], match='err_', min=15)],
  explain='Each entry performs a history on an Errata whose texts, severities and codes are arbitrary, next to a list of the expected annotations, and compares all of it.')
