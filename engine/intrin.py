"""Models of the contract vocabulary (vf_*), of the C/C++ runtime functions the
analysed code calls, and of the LLVM intrinsics."""
import lin
import fval
from lin import Lin, add, sub, mul, neg, mk, show


def install(s):
    from absint import Kill, Viol, Fork, Unsupported, UNDEF, FT, tobi, cand, cor, cnot, irparse

    def cstr(e, S, p):
        p = S.st.norm(e.toint(S, p))
        try:
            for x, k in p.t:
                if x in e.addr2obj:
                    o = S.mem[e.addr2obj[x][0]]
                    off = p.c
                    b = bytearray()
                    while True:
                        c = o.cells[off][1]
                        if c == 0:
                            return b.decode(errors='replace')
                        b.append(c)
                        off += 1
        except Exception:
            pass
        return '?'

    I = s.intr
    P = s.intrp = []

    def reg(*names):
        def d(f):
            for n in names:
                I[n] = f
            return f
        return d

    def pre(*names):
        def d(f):
            for n in names:
                P.append((n, f))
            return f
        return d

    # ------------------------------------------------------------ contracts
    @reg('vf_size')
    def _(e, S, ins, a):
        return e.fresh(cstr(e, S, a[0]), 0, 1 << 40)

    @reg('vf_word')
    def _(e, S, ins, a):
        return e.fresh(cstr(e, S, a[0]), 0, (1 << 64) - 1)

    def cint(e, S, v):
        v = S.st.norm(e.toint(S, v))
        if type(v) is not int:
            raise Unsupported('constant expected')
        return v

    @reg('vf_range')
    def _(e, S, ins, a):
        lo, hi = cint(e, S, a[1]) % (1 << 64), cint(e, S, a[2]) % (1 << 64)
        return lo if lo == hi else e.fresh(cstr(e, S, a[0]), lo, hi)

    def sx(v):
        v %= 1 << 64
        return v - (1 << 64) if v >> 63 else v

    @reg('vf_srange')
    def _(e, S, ins, a):
        return e.fresh(cstr(e, S, a[0]), sx(cint(e, S, a[1])), sx(cint(e, S, a[2])))

    @reg('vf_bool')
    def _(e, S, ins, a):
        return ('ne', e.fresh(cstr(e, S, a[0]), 0, 1))

    @reg('vf_buffer')
    def _(e, S, ins, a):
        n = e.canU(S, a[0], 64)
        return e.newobj(S, 'buffer', n, 'buffer', 'unknown', 1)

    @reg('vf_list')
    def _(e, S, ins, a):
        n = e.canU(S, a[0], 64)
        z = cint(e, S, a[1])
        return e.newobj(S, 'list', mul(n, z), 'buffer', ('list', z, cint(e, S, a[2]), cint(e, S, a[3])), 8)

    @reg('vf_assume', 'llvm.assume')
    def _(e, S, ins, a):
        c = e.tobool(S, a[0])
        if not e.need(S, c):
            raise Kill('assume')

    @reg('vf_split')
    def _(e, S, ins, a):
        e.need(S, e.tobool(S, a[0]))
        e.npin = getattr(e, 'npin', 0) + 1  # cases split on request are never joined again
        S.ghost['pin'] = e.npin

    @reg('vf_check')
    def _(e, S, ins, a):
        msg = cstr(e, S, a[1])
        c = e.tobool(S, a[0])
        if e.quiet:
            # obligations are discharged in the reporting pass only
            return
        k = msg
        r = e.ev(S, c)
        if r is True:
            e.oblig[k] = e.oblig.get(k, 0) + 1
            return
        if r is None and not e.need(S, c):
            r = False
        if r is False or c is False:
            raise Viol('check', msg)
        e.oblig[k] = e.oblig.get(k, 0) + 1

    @reg('vf_never')
    def _(e, S, ins, a):
        if e.quiet:
            return
        raise Viol('check', cstr(e, S, a[0]))

    @reg('vf_reach')
    def _(e, S, ins, a):
        if not e.quiet:
            k = cstr(e, S, a[0])
            e.reached[k] = e.reached.get(k, 0) + 1
    s.reached = {}

    def objof(e, S, p):
        p = S.st.norm(e.toint(S, p))
        if type(p) is int:
            return None, 0
        base = [x for x, k in p.t if x in e.addr2obj and k == e.addr2obj[x][1]]
        if len(base) != 1:
            b = e.rangebase(S, p)
            if b is None:
                return None, 0
            return S.mem.get(e.addr2obj[b][0]), sub(p, e.ptr_of(b))
        o = S.mem.get(e.addr2obj[base[0]][0])
        return o, mk(p.c, {x: k for x, k in p.t if x != base[0]})

    s.objof = lambda S, p: objof(s, S, p)

    @reg('vf_alive')
    def _(e, S, ins, a):
        o, _ = objof(e, S, a[0])
        return bool(o is not None and o.alive)

    @reg('vf_within')
    def _(e, S, ins, a):
        o, off = objof(e, S, a[0])
        o2, _ = objof(e, S, a[2])
        n = e.canU(S, a[1], 64)
        if o is None or o2 is None or o.id != o2.id:
            return False
        c1 = ('ge', off) if type(off) is Lin else off >= 0
        d = sub(sub(o.size, off), n)
        c2 = ('ge', d) if type(d) is Lin else d >= 0
        return cand(c1, c2)

    @reg('vf_witness')
    def _(e, S, ins, a):
        S.ghost['wit'] = S.ghost.get('wit', ()) + (e.toint(S, a[0]),)

    @reg('vf_witness_cell')
    def _(e, S, ins, a):
        n = cint(e, S, a[1])
        o, off = e.deref(S, a[0], n, 'witness')
        v = e.read(S, o, off, n, irparse.ity(8 * n))
        o = S.w(o.id)
        o.wit = o.wit + ((off, n, v),)
        S.ghost['wit'] = S.ghost.get('wit', ()) + (e.toint(S, a[0]),)

    @reg('vf_keep')
    def _(e, S, ins, a):
        pass

    @reg('vf_opt')
    def _(e, S, ins, a):
        e.o[cstr(e, S, a[0])] = cint(e, S, a[1])

    @reg('vf_bits')
    def _(e, S, ins, a):
        # an arbitrary value of n bits, each of which is tracked individually
        n = e.canU(S, a[1], 32)
        return e.frombits([(e.fresh('%s.%d' % (cstr(e, S, a[0]), i), 0, 1).t[0][0], False) for i in range(n)])

    @reg('vf_havoc')
    def _(e, S, ins, a):
        o, off = e.deref(S, a[0], e.canU(S, a[1], 64), 'havoc', True)
        n = e.canU(S, a[1], 64)
        rel = e.wit_pre(S, o, off, n) if o.wit else ()
        o = e.clobber(S, o, off, n)
        e.wit_set(S, o, rel, lambda i, w: e.fresh('wit', 0, (1 << (8 * w[1])) - 1))
        if type(off) is not int or type(n) is not int or o.default != 'unknown':
            o.default = 'unknown'
        o.segs = o.segs + ((off, n, 'havoc', 0, 0, None),) if o.segs else ()
        o.maxw += 1

    @reg('vf_heap_live')
    def _(e, S, ins, a):
        return sum(1 for o in S.mem.values() if o.kind == 'heap' and o.alive)

    # ------------------------------------------------------------ memory
    @pre('llvm.memcpy.')
    @reg('memcpy')
    def _(e, S, ins, a):
        e.copy_bytes(S, a[0], a[1], a[2], False, 'memcpy')
        return a[0]

    @pre('llvm.memmove.')
    @reg('memmove')
    def _(e, S, ins, a):
        e.copy_bytes(S, a[0], a[1], a[2], True, 'memmove')
        return a[0]

    @pre('llvm.memset.')
    @reg('memset')
    def _(e, S, ins, a):
        n = e.canU(S, a[2], 64)
        n = S.st.norm(n)
        if n == 0:
            return a[0]
        v = S.st.norm(e.toint(S, a[1]))
        if type(n) is Lin:
            p = S.st.norm(e.toint(S, a[0]))
            if type(p) is int and e.need(S, ('eq', n)):
                return a[0]
        o, off = e.deref(S, a[0], n, 'memset', True)
        rel = e.wit_pre(S, o, off, n) if o.wit else ()
        v8 = v & 255 if type(v) is int else e.canU(S, v, 8)
        o = e.clobber(S, o, off, n)
        e.wit_set(S, o, rel, lambda i, w: v8 if w[1] == 1 else int.from_bytes(bytes([v8] * w[1]), 'little') if type(v8) is int else mul(v8, sum(1 << (8 * j) for j in range(w[1]))))
        if type(v) is int:
            v &= 255
        if type(off) is int and type(n) is int and n <= 512 and type(v) is int:
            if off == 0 and o.size == n and v == 0:
                o.cells = {}
                o.segs = ()
                o.default = 'zero'
            else:
                i = off
                while i < off + n:
                    if v == 0 and i % 8 == 0 and i + 8 <= off + n:
                        o.cells[i] = (8, 0)
                        i += 8
                    else:
                        o.cells[i] = (1, v)
                        i += 1
        else:
            o.segs = o.segs + ((off, n, 'fill', e.canU(S, v, 8) if type(v) is Lin else v, 0, None),)
        o.maxw += 1
        return a[0]

    def byterange(e, S, p, n, what):
        n = S.st.norm(e.canU(S, n, 64))
        if n == 0:
            return None
        if type(n) is Lin:
            q = S.st.norm(e.toint(S, p))
            if type(q) is int and e.need(S, ('eq', n)):
                return None
            if e.ev(S, ('eq', n)) is None and e.o.get('cmp_split', 0):
                if e.need(S, ('eq', n)):
                    return None
        return e.deref(S, p, n, what) + (n,)

    @reg('memcmp', 'bcmp', 'strncasecmp', 'strncmp')
    def _(e, S, ins, a):
        x = byterange(e, S, a[0], a[2], 'memcmp')
        y = byterange(e, S, a[1], a[2], 'memcmp')
        if x is None or y is None:
            return 0
        n = x[2]
        if x[0].id == y[0].id and x[1] == y[1]:
            return 0
        nm = ins.a[0][1] if type(ins.a[0]) is tuple else 'memcmp'
        nm = 'memcmp' if nm not in ('strncasecmp', 'strncmp') else nm
        if e.o.get('memcmp_split') and nm == 'memcmp' and type(n) is int and n <= 32 and type(x[1]) is int and type(y[1]) is int:
            # equal exactly when every word is
            i = 0
            while i < n:
                w = next(w for w in (8, 4, 2, 1) if i + w <= n)
                p, q = (e.canU(S, e.toint(S, e.read(S, z[0], z[1] + i, w, irparse.ity(8 * w))), 8 * w) for z in (x, y))
                d = sub(p, q)
                if not e.need(S, ('eq', d) if type(d) is Lin else d == 0):
                    r = sitevar(S, ins, 'memcmp', -(1 << 31), (1 << 31) - 1)
                    S.st.add_ne(r)
                    return r
                i += w
            return 0
        key = (nm, x[0].id, x[1], e.ver(x[0]), y[0].id, y[1], e.ver(y[0]), n)
        r = e.memo.get(key)
        if r is None:
            r = e.memo[key] = e.fresh('memcmp', -(1 << 31), (1 << 31) - 1)
        return r

    @reg('strlen')
    def _(e, S, ins, a):
        o, off = e.deref(S, a[0], 1, 'strlen')
        if type(off) is int:
            i = off
            while i in o.cells and o.cells[i][0] == 1 and type(o.cells[i][1]) in (int, Lin):
                v = o.cells[i][1]
                if v == 0 or type(v) is Lin and S.st.entails_eq(v):
                    return i - off
                if type(v) is Lin and not S.st.entails_ne(v):
                    break
                i += 1
        key = ('strlen', o.id, off, e.ver(o))
        r = e.memo.get(key)
        if r is None:
            r = e.memo[key] = e.fresh('strlen', 0, 1 << 40)
        S.st.add_ge(sub(sub(sub(o.size, off), r), 1))
        return r

    @reg('memchr', 'rawmemchr')
    def _(e, S, ins, a):
        x = byterange(e, S, a[0], a[2], 'memchr')
        if x is None:
            return 0
        o, off, n = x
        c = S.st.norm(e.toint(S, a[1]))
        if type(off) is int and type(n) is int and n <= 256 and not o.segs and not o.wit and all(k in o.cells and o.cells[k][0] == 1 and type(o.cells[k][1]) in (int, Lin) for k in range(off, off + n)):
            # search of known bytes: decided per distinct byte
            cb = e.canU(S, c, 8) if type(c) is Lin else c % 256
            seen = set()
            for k in range(n):
                v = e.canU(S, o.cells[off + k][1], 8)
                if v in seen:
                    continue
                seen.add(v)
                d = sub(cb, v)
                if e.need(S, ('eq', d) if type(d) is Lin else d == 0):
                    return add(e.toint(S, a[0]), k)
            return 0
        key = ('memchr', o.id, off, e.ver(o), n, c)
        k = e.memo.get(key)
        if k is None:
            k = e.memo[key] = e.fresh('memchr', -1, 1 << 41)
        S.st.add_ge(sub(sub(n, k), 1))
        # facts about individually known bytes
        cb = e.canU(S, c, 8) if type(c) is Lin else c % 256
        if not e.need(S, ('ge', k)):
            pos = None
        else:
            pos = add(off, k)
        for (ro, rn), rv in list(o.rmemo.items()) + [((w[0], w[1]), w[2]) for w in o.wit]:
            if rn != 1:
                continue
            lim = pos if pos is not None else add(off, n)
            inside = cand(('ge', sub(ro, off)) if type(sub(ro, off)) is Lin else sub(ro, off) >= 0,
                          ('ge', sub(sub(lim, ro), 1)) if type(sub(lim, ro)) is Lin else sub(lim, ro) >= 1)
            if e.need(S, inside):
                if not e.assume(S, ('ne', sub(rv, cb)) if type(sub(rv, cb)) is Lin else rv != cb):
                    raise Kill('memchr')
        if pos is None:
            return 0
        bv = e.read(S, S.mem[o.id], S.st.norm(pos), 1, irparse.ity(8))
        if not S.st.add_eq(sub(e.canU(S, bv, 8), cb)) if type(sub(e.canU(S, bv, 8), cb)) is Lin else e.canU(S, bv, 8) != cb:
            raise Kill('memchr')
        return add(e.toint(S, a[0]), k)

    # ------------------------------------------------------------ heap
    def mal(e, S, n, kind, nm):
        n = S.st.norm(e.canU(S, n, 64))
        return e.newobj(S, nm, n, kind, 'uninit', 16)

    @reg('malloc')
    def _(e, S, ins, a):
        if e.o.get('malloc_null'):
            if e.need(S, ('ne', e.sitevar(S, ins, 'malloc_ok', 0, 1))):
                return mal(e, S, a[0], 'heap', 'malloc')
            return 0
        return mal(e, S, a[0], 'heap', 'malloc')

    @reg('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
    def _(e, S, ins, a):
        return mal(e, S, a[0], 'heap', 'new')

    @reg('_ZNSt3pmr15memory_resourceD2Ev', '_ZNSt3pmr15memory_resourceC2Ev')
    def _(e, S, ins, a):
        pass

    @reg('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvm')
    def _(e, S, ins, a):
        p = S.st.norm(e.toint(S, a[0]))
        if type(p) is Lin and not any(x in e.addr2obj for x, _ in p.t):
            if objof(e, S, p)[0] is None and e.need(S, ('eq', p)):
                return
        if p == 0:
            return
        o, off = objof(e, S, p)
        if o is None:
            raise Viol('free', 'release of a pointer that is not the start of an owned block (%s)' % show(p))
        if o.kind != 'heap':
            raise Viol('free', 'release of %s, which is not heap storage' % o.name)
        if not o.alive:
            raise Viol('free', 'block released twice')
        if off != 0:
            raise Viol('free', 'release of a pointer at offset %s into its block' % show(off))
        o = S.w(o.id)
        o.alive = False
        o.cells, o.segs, o.rmemo = {}, (), {}
        S.ghost['freed'] = S.ghost.get('freed', 0) + 1

    # ------------------------------------------------------------ exceptions
    @reg('__cxa_allocate_exception')
    def _(e, S, ins, a):
        return mal(e, S, a[0], 'exc', 'exception')

    @reg('__cxa_throw', '__cxa_rethrow')
    def _(e, S, ins, a):
        if S.ghost.get('nothrow', 1) and not e.quiet:
            raise Viol('throw', 'exception thrown where the contract promises none')
        h = e.o.get('on_throw')
        if h:
            h(e, S)
        raise Kill('throw')

    # the standard unordered containers: some function of the bytes; a table of prime size that is never overfull
    @reg('_ZSt11_Hash_bytesPKvmm')
    def _(e, S, ins, a):
        x = byterange(e, S, a[0], a[1], 'hash')
        h = 14695981039346656037
        if x is not None:
            if type(x[2]) is not int or type(x[1]) is not int:
                raise Unsupported('hash of text of unknown length')
            for i in range(x[2]):
                v = S.st.norm(e.canU(S, e.toint(S, e.read(S, S.mem[x[0].id], x[1] + i, 1, irparse.ity(8))), 8))
                if type(v) is not int:
                    raise Unsupported('hash of unknown text')
                h = ((h ^ v) * 1099511628211) & ((1 << 64) - 1)
        return h

    def prime(n):
        return next(p for p in (2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 1 << 62) if p >= n)

    @reg('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
    def _(e, S, ins, a):
        v = [S.st.norm(e.toint(S, x)) for x in a[1:4]]
        if any(type(x) is not int for x in v):
            raise Unsupported('rehash of a table of unknown size')
        r = v[1] + v[2] > v[0]
        return ('agg', int(r), prime(max(v[1] + v[2], 2 * v[0])) if r else 0)

    @reg('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
    def _(e, S, ins, a):
        v = S.st.norm(e.toint(S, a[1]))
        if type(v) is not int:
            raise Unsupported('rehash of a table of unknown size')
        return prime(v)

    @reg('vf_nothrow')
    def _(e, S, ins, a):
        S.ghost['nothrow'] = 1

    @reg('vf_maythrow')
    def _(e, S, ins, a):
        S.ghost['nothrow'] = 0

    @reg('__cxa_free_exception', '__cxa_end_catch')
    def _(e, S, ins, a):
        return None

    @reg('_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt20__throw_out_of_rangePKc',
         '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv',
         '_ZSt24__throw_invalid_argumentPKc')
    def _(e, S, ins, a):
        if S.ghost.get('nothrow', 1) and not e.quiet:
            raise Viol('throw', 'exception thrown where the contract promises none')
        raise Kill('throw')

    @pre(*['_ZN' + x for x in ('St16invalid_argument', 'St11range_error', 'St12out_of_range', 'St13runtime_error', 'St11logic_error', 'St12length_error',
                               'St12domain_error', 'St14overflow_error', 'St9exception', 'St9bad_alloc', 'St12system_error')])
    def _(e, S, ins, a):
        return None

    @reg('abort', '_ZSt9terminatev', '__assert_fail', '__clang_call_terminate')
    def _(e, S, ins, a):
        if not e.quiet:
            raise Viol('abort', 'abnormal termination is reachable')
        raise Kill('abort')

    # ------------------------------------------------------------ llvm
    @pre('llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant', 'llvm.prefetch')
    def _(e, S, ins, a):
        return None

    @pre('llvm.trap', 'llvm.ubsantrap')
    def _(e, S, ins, a):
        raise Viol('trap', 'trap reachable')

    @pre('llvm.expect.')
    def _(e, S, ins, a):
        return a[0]

    @pre('llvm.stacksave', 'llvm.stackrestore')
    def _(e, S, ins, a):
        return 0

    @pre('llvm.is.constant')
    def _(e, S, ins, a):
        return False

    @pre('llvm.objectsize')
    def _(e, S, ins, a):
        return (1 << 64) - 1

    @pre('llvm.umin.', 'llvm.umax.', 'llvm.smin.', 'llvm.smax.')
    def _(e, S, ins, a):
        nm = ins.a[0][1]
        w = ins.ty.w
        cf = e.canU if nm[5] == 'u' else e.canS
        x, y = cf(S, a[0], w), cf(S, a[1], w)
        d = sub(x, y)
        ge = d >= 0 if type(d) is int else e.need(S, ('ge', d))
        return (x if ge else y) if 'max' in nm else (y if ge else x)

    @pre('llvm.abs.')
    def _(e, S, ins, a):
        w = ins.ty.w
        x = e.canS(S, a[0], w)
        if type(x) is int:
            return abs(x)
        return x if e.need(S, ('ge', x)) else neg(x)

    @pre('llvm.uadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.umul.with.overflow', 'llvm.sadd.with.overflow', 'llvm.ssub.with.overflow',
         'llvm.smul.with.overflow')
    def _(e, S, ins, a):
        nm = ins.a[0][1]
        w = e.m.res(ins.ty).el[0].w
        u = nm[5] == 'u'
        cf = e.canU if u else e.canS
        x, y = cf(S, a[0], w), cf(S, a[1], w)
        op = nm[6:9]
        if op == 'mul':
            if type(x) is Lin and type(y) is Lin:
                r = e.mulsym(S, S.st.norm(x), S.st.norm(y), w)
            else:
                r = mul(x, y) if type(y) is int else mul(y, x)
        else:
            r = add(x, y) if op == 'add' else sub(x, y)
        lo, hi = (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if type(r) is int:
            return ('agg', r % (1 << w), not lo <= r <= hi)
        c = cand(('ge', sub(r, lo)), ('ge', sub(hi, r)))
        ok = e.need(S, c)
        return ('agg', r, not ok)

    @pre('llvm.ctpop.', 'llvm.ctlz.', 'llvm.cttz.')
    def _(e, S, ins, a):
        w = ins.ty.w
        v = S.st.norm(e.canU(S, a[0], w))
        nm = ins.a[0][1]
        if type(v) is int:
            if 'ctpop' in nm:
                return bin(v).count('1')
            if v == 0:
                return w
            return w - v.bit_length() if 'ctlz' in nm else (v & -v).bit_length() - 1
        k = ('bits', nm, v)
        r = e.memo.get(k)
        if r is None:
            r = e.memo[k] = e.fresh('bits', 0, w)
        return r

    @pre('llvm.bswap.')
    def _(e, S, ins, a):
        w = ins.ty.w
        v = S.st.norm(e.canU(S, a[0], w))
        if type(v) is int:
            return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
        inv = e.memo.get(('bswap', w, v))
        if inv is not None:
            return inv
        r = 0
        for i in range(w // 8):
            b = e.divq(S, v, 1 << (8 * i))
            b = e.wrap(S, b, 8)
            r = add(r, mul(b, 1 << (8 * (w // 8 - 1 - i))))
        e.memo[('bswap', w, r)] = v
        return r

    @pre('llvm.copysign', 'llvm.pow')
    def _(e, S, ins, a):
        return FT

    @reg('pow', 'log10', 'ldexp')
    def _(e, S, ins, a):
        return FT

    # a float that is exactly whole (+ a fraction)
    @reg('vf_real')
    def _(e, S, ins, a):
        w, fr = e.toint(S, a[0]), e.need(S, e.tobool(S, a[1]))
        if type(w) is int and not fr:
            return float(w)
        if type(w) is not int:
            w = S.st.norm(w)
            e.memo[('whole', w)] = True
        e.fn = getattr(e, 'fn', 0) + 1
        return fval.FR(False, w, (e.fn, fval.PMIN, fval.PMAX) if fr else None)

    @reg('vf_large')
    def _(e, S, ins, a):
        return fval.FR(False, e.fresh('large', 1 << 64, (1 << 1024) - (1 << 971)))

    @pre('llvm.fmuladd', 'llvm.fma')
    def _(e, S, ins, a):
        return fval.arith(S, 'fadd', fval.arith(S, 'fmul', a[0], a[1]), a[2])

    @pre('llvm.fabs')
    def _(e, S, ins, a):
        return fval.absv(a[0])

    @pre('llvm.is.fpclass')
    def _(e, S, ins, a):
        return fval.classify(e, S, a[0], e.toint(S, a[1]))

    for nm in ('floor', 'ceil', 'trunc', 'round'):
        pre('llvm.' + nm + '.')(lambda e, S, ins, a, nm=nm: fval.round_(e, S, a[0], nm))
        reg(nm)(lambda e, S, ins, a, nm=nm: fval.round_(e, S, a[0], nm))

    @reg('lround', 'llround')
    def _(e, S, ins, a):
        return fval.toint(e, S, fval.round_(e, S, a[0], 'round'), 64, True)

    @pre('llvm.lround', 'llvm.llround')
    def _(e, S, ins, a):
        return fval.toint(e, S, fval.round_(e, S, a[0], 'round'), 64, True)

    @reg('modf')
    def _(e, S, ins, a):
        w = fval.round_(e, S, a[0], 'trunc')
        e.store(S, a[1], w, irparse.DOUBLE)
        return fval.arith(S, 'fsub', a[0], w)

    def sitevar(S, ins, nm, lo, hi):
        # a value chosen once per dynamic occurrence: stable across a re-execution of the same instruction after a fork
        k = ('site', id(ins), len(S.frames), S.ghost.get('sitectr', 0))
        v = s.memo.get(k)
        if v is None:
            v = s.memo[k] = s.fresh(nm, lo, hi)
        return v
    s.sitevar = sitevar

    # ------------------------------------------------------------ ctype
    def ctyp(name, pred):
        def h(e, S, ins, a):
            c = S.st.norm(e.toint(S, a[0]))
            if type(c) is int:
                return 1 if pred(c) else 0
            rs = []
            st = None
            for i in range(0, 257):
                p = i < 256 and pred(i)
                if p and st is None:
                    st = i
                if not p and st is not None:
                    rs.append((st, i - 1))
                    st = None
            cond = False
            for lo, hi in rs:
                cond = cor(cond, cand(('ge', sub(c, lo)), ('ge', sub(hi, c))))
            return tobi(cond)
        I[name] = h
    A = lambda c: 65 <= c <= 90 or 97 <= c <= 122
    D = lambda c: 48 <= c <= 57
    ctyp('isdigit', D)
    ctyp('isalpha', A)
    ctyp('isalnum', lambda c: A(c) or D(c))
    ctyp('isspace', lambda c: c in (32, 9, 10, 11, 12, 13))
    ctyp('isupper', lambda c: 65 <= c <= 90)
    ctyp('islower', lambda c: 97 <= c <= 122)
    ctyp('isxdigit', lambda c: D(c) or 65 <= c <= 70 or 97 <= c <= 102)
    ctyp('isprint', lambda c: 32 <= c < 127)
    ctyp('ispunct', lambda c: 33 <= c < 127 and not A(c) and not D(c))

    @reg('tolower', 'toupper')
    def _(e, S, ins, a):
        c = S.st.norm(e.toint(S, a[0]))
        lo, d = (65, 32) if e.callee == 'tolower' else (97, -32)
        if type(c) is int:
            return c + d if lo <= c <= lo + 25 else c
        if e.need(S, cand(('ge', sub(c, lo)), ('ge', sub(lo + 25, c)))):
            return add(c, d)
        return c

    @reg('_ZNSt3_V216generic_categoryEv', '_ZNSt3_V215system_categoryEv')
    def _(e, S, ins, a):
        # two distinct objects of static storage duration
        k = ('category', e.callee)
        p = S.ghost.get(k)
        if p is None:
            p = S.ghost[k] = e.newobj(S, e.callee, 16, 'global', 'unknown', 16)
        return p

    @reg('__cxa_guard_acquire')
    def _(e, S, ins, a):
        return 1

    @reg('__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort')
    def _(e, S, ins, a):
        return 0

    @reg('memset_pattern')
    def _(e, S, ins, a):
        return 0
