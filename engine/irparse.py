"""Textual LLVM-IR (LLVM 18, opaque pointers) front end.

Parses the module produced by clang from the repository's current sources into
plain Python structures: named types, globals with initialisers, functions as
basic blocks of Instr objects, and the debug-location metadata needed to report
file:line with the inlining scope."""
import re

TOK = re.compile(r'''
  c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # c-string
 |[@%]"(?:[^"])*"                            # quoted ids
 |[@%][-a-zA-Z$._0-9]+                       # ids
 |!"(?:[^"])*"|![-a-zA-Z$._0-9]*             # metadata
 |"(?:[^"])*"
 |\.\.\.
 |0x[KLMHR]?[0-9A-Fa-f]+
 |-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?
 |-?[0-9]+
 |\#[0-9]+
 |[a-zA-Z_$][-a-zA-Z$._0-9]*
 |[(){}\[\]<>,=*:|]
''', re.X)


class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'name', 'packed', '_size', '_align', '_offs')

    def __init__(s, k, w=0, n=0, el=None, name=None, packed=False):
        s.k, s.w, s.n, s.el, s.name, s.packed = k, w, n, el, name, packed
        s._size = s._align = s._offs = None

    def __repr__(s):
        if s.k == 'int':
            return 'i%d' % s.w
        if s.k == 'arr':
            return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct':
            return '{%s}' % ','.join(map(repr, s.el))
        return s.k if s.k != 'named' else s.name


PTR, VOID, LABEL, META, DOUBLE, FLOAT = (Ty('ptr'), Ty('void'), Ty('label'), Ty('meta'), Ty('double', 64), Ty('float', 32))
X86FP = Ty('x86_fp80', 80)
INTS = {}


def ity(w):
    t = INTS.get(w)
    if t is None:
        t = INTS[w] = Ty('int', w)
    return t


class Instr:
    __slots__ = ('op', 'd', 'ty', 'a', 'dbg', 'x', 'fast')

    def __init__(s, op, d=None, ty=None, a=(), dbg=None, x=None):
        s.op, s.d, s.ty, s.a, s.dbg, s.x = op, d, ty, a, dbg, x

    def __repr__(s):
        return '%s = %s %r %r %r' % (s.d, s.op, s.ty, s.a, s.x)


class Func:
    def __init__(s, name, ret, params, body):
        s.name, s.ret, s.params, s.body = name, ret, params, body
        s.blocks = None
        s.order = None
        s.loops = None
        s.dbg = None


class Module:
    def __init__(s):
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.decls = {}
        s.meta = {}
        s.aliases = {}
        s._locc = {}

    # ---- layout
    def res(s, t):
        while t.k == 'named':
            t = s.types[t.name]
        return t

    def size(s, t):
        t = s.res(t)
        if t._size is None:
            s._layout(t)
        return t._size

    def align(s, t):
        t = s.res(t)
        if t._size is None:
            s._layout(t)
        return t._align

    def offs(s, t):
        t = s.res(t)
        if t._size is None:
            s._layout(t)
        return t._offs

    def _layout(s, t):
        if t.k == 'int':
            b = (t.w + 7) // 8
            a = 1
            while a < b:
                a *= 2
            if t.w == 128:
                a = 16
            t._size, t._align = ((b + a - 1) // a) * a, a
        elif t.k == 'ptr':
            t._size, t._align = 8, 8
        elif t.k in ('double',):
            t._size, t._align = 8, 8
        elif t.k == 'float':
            t._size, t._align = 4, 4
        elif t.k == 'x86_fp80':
            t._size, t._align = 16, 16
        elif t.k in ('arr', 'vec'):
            t._size, t._align = t.n * s.size(t.el), s.align(t.el)
        elif t.k == 'struct':
            o, al, offs = 0, 1, []
            for e in t.el:
                a = 1 if t.packed else s.align(e)
                al = max(al, a)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += s.size(e)
            t._size, t._align, t._offs = (o + al - 1) // al * al, al, offs
        elif t.k == 'opaque':
            t._size, t._align = 0, 1
        else:
            raise Exception('layout of %r' % t)

    # ---- debug locations
    def loc(s, mid):
        """[(file,line,func), ...] innermost first."""
        r = s._locc.get(mid)
        if r is not None:
            return r
        r = []
        m = mid
        while m:
            t = s.meta.get(m, '')
            ln = re.search(r'\bline: (\d+)', t)
            sc = re.search(r'\bscope: (![0-9]+)', t)
            f, fn = s.scope(sc.group(1)) if sc else ('?', '?')
            r.append((f, int(ln.group(1)) if ln else 0, fn))
            ia = re.search(r'\binlinedAt: (![0-9]+)', t)
            m = ia.group(1) if ia else None
        s._locc[mid] = r
        return r

    def scope(s, m):
        file = None
        for _ in range(50):
            t = s.meta.get(m, '')
            fm = re.search(r'\bfile: (![0-9]+)', t)
            if fm and file is None:
                ft = s.meta.get(fm.group(1), '')
                q = re.search(r'filename: "([^"]*)"', ft)
                file = q.group(1) if q else '?'
            if 'DISubprogram' in t:
                n = re.search(r'\bname: "([^"]*)"', t)
                return file or '?', n.group(1) if n else '?'
            sm = re.search(r'\bscope: (![0-9]+)', t)
            if not sm:
                return file or '?', '?'
            m = sm.group(1)
        return file or '?', '?'


class P:
    """token-stream parser"""

    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def pk(s, o=0):
        j = s.i + o
        return s.t[j] if j < len(s.t) else ''

    def nx(s):
        v = s.t[s.i]
        s.i += 1
        return v

    def ex(s, v):
        g = s.nx()
        if g != v:
            raise Exception('expected %r got %r near %s' % (v, g, ' '.join(s.t[max(0, s.i - 10):s.i + 10])))

    def acc(s, v):
        if s.pk() == v:
            s.i += 1
            return True
        return False

    def ty(s):
        t = s.nx()
        if t == 'void':
            r = VOID
        elif t == 'ptr':
            r = PTR
            if s.pk() == 'addrspace':
                s.i += 4
        elif t[0] == 'i' and t[1:].isdigit():
            r = ity(int(t[1:]))
        elif t == 'double':
            r = DOUBLE
        elif t == 'float':
            r = FLOAT
        elif t == 'x86_fp80':
            r = X86FP
        elif t == 'label':
            r = LABEL
        elif t == 'metadata':
            r = META
        elif t == 'token':
            r = META
        elif t == 'opaque':
            r = Ty('opaque')
        elif t[0] == '%':
            r = Ty('named', name=t[1:].strip('"'))
        elif t == '[':
            n = int(s.nx())
            s.ex('x')
            e = s.ty()
            s.ex(']')
            r = Ty('arr', n=n, el=e)
        elif t == '<' and s.pk() == '{':
            s.nx()
            r = s.struct(True)
            s.ex('>')
        elif t == '<':
            n = int(s.nx())
            s.ex('x')
            e = s.ty()
            s.ex('>')
            r = Ty('vec', n=n, el=e)
        elif t == '{':
            r = s.struct(False)
        else:
            raise Exception('type? %r near %s' % (t, ' '.join(s.t[max(0, s.i - 8):s.i + 8])))
        if s.pk() == '(':  # function type
            d = 0
            while True:
                x = s.nx()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
            r = Ty('fn', el=r)
        return r

    def struct(s, packed):
        el = []
        if not s.acc('}'):
            while True:
                el.append(s.ty())
                if s.acc('}'):
                    break
                s.ex(',')
        return Ty('struct', el=el, packed=packed)

    PATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned', 'inreg', 'nest',
              'immarg', 'readnone', 'swiftself', 'nofree', 'dead_on_unwind', 'writable', 'noext', 'range', 'allocalign', 'allocptr'}

    def attrs(s):
        while True:
            t = s.pk()
            if t in s.PATTRS:
                s.i += 1
            elif t == 'align':
                s.i += 1
                if s.acc('('):
                    s.i += 2
                else:
                    s.i += 1
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'preallocated', 'inalloca', 'byref',
                       'memory', 'vscale_range', 'nofpclass', 'captures', 'alignstack', 'initializes'):
                s.i += 1
                if s.pk() == '(':
                    d = 0
                    while True:
                        x = s.nx()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
            elif t.startswith('"') or t.startswith('#'):
                s.i += 1
                if s.pk() == '=':
                    s.i += 2
            else:
                return

    def val(s, ty):
        t = s.nx()
        c = t[0]
        if c == '%':
            return ('l', t[1:].strip('"'))
        if c == '@':
            return ('g', t[1:].strip('"'))
        if t == 'null':
            return ('i', 0)
        if t == 'true':
            return ('i', 1)
        if t == 'false':
            return ('i', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if t[:2] == '0x':
            import struct
            if ty.k in ('double', 'float') and t[2] not in 'KLMHR':
                return ('f', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            return ('f', None)
        if ty is not None and ty.k in ('double', 'float') and (c.isdigit() or c == '-'):
            return ('f', float(t))
        if c.isdigit() or c == '-':
            return ('i', int(t))
        if c == 'c' and t[1] == '"':
            b = bytearray()
            q = t[2:-1]
            i = 0
            while i < len(q):
                if q[i] == '\\':
                    if q[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(q[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.extend(q[i].encode())
                    i += 1
            return ('bytes', bytes(b))
        if c in '{[' or (c == '<'):
            packed = False
            if c == '<' and s.pk() == '{':
                s.nx()
                c = '{'
                packed = True
            close = {'{': '}', '[': ']', '<': '>'}[c]
            el = []
            if not s.acc(close):
                while True:
                    et = s.ty()
                    el.append((et, s.val(et)))
                    if s.acc(close):
                        break
                    s.ex(',')
            if packed:
                s.ex('>')
            return ('agg', el)
        if t == 'getelementptr':
            while s.pk() in ('inbounds', 'nuw', 'nusw') or s.pk() == 'inrange':
                s.i += 1
                if s.pk() == '(' and s.t[s.i - 1] == 'inrange':
                    while s.nx() != ')':
                        pass
            s.ex('(')
            bt = s.ty()
            s.ex(',')
            ops = []
            while True:
                if s.pk() == 'inrange':
                    s.i += 1
                et = s.ty()
                ops.append((et, s.val(et)))
                if s.acc(')'):
                    break
                s.ex(',')
            return ('ce', 'gep', bt, ops)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.ex('(')
            et = s.ty()
            v = s.val(et)
            s.ex('to')
            tt = s.ty()
            s.ex(')')
            return ('ce', t, (et, v), tt)
        if t in ('sub', 'add', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'icmp', 'select'):
            while s.pk() != '(':
                s.i += 1
            pred = s.t[s.i - 1]
            s.ex('(')
            ops = []
            while True:
                et = s.ty()
                ops.append((et, s.val(et)))
                if s.acc(')'):
                    break
                s.ex(',')
            return ('ce', t, pred, ops)
        if t == 'dso_local_equivalent' or t == 'no_cfi':
            return s.val(ty)
        if t in ('blockaddress', 'asm'):
            return ('undef',)
        raise Exception('value? %r near %s' % (t, ' '.join(s.t[max(0, s.i - 8):s.i + 8])))


LINK = {'private', 'internal', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'external', 'available_externally', 'common', 'appending',
        'extern_weak', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr',
        'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc', 'tailcc', 'cc'}


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if not l or l[0] == ';':
            i += 1
            continue
        c = l[0]
        if c == '%':
            nm, rest = l.split(' = type ', 1)
            m.types[nm[1:].strip('"')] = P(TOK.findall(rest), m).ty()
        elif c == '@':
            parse_global(m, l)
        elif l.startswith('define'):
            body = []
            j = i + 1
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            parse_header(m, l, body)
            i = j
        elif l.startswith('declare'):
            parse_header(m, l, None)
        elif c == '!':
            k = l.find(' = ')
            if k > 0:
                m.meta[l[:k]] = l[k + 3:]
        i += 1
    return m


def strip_c(l):
    return l


def parse_global(m, l):
    k = l.index(' = ')
    name = l[1:k].strip('"')
    toks = TOK.findall(l[k + 3:])
    p = P(toks, m)
    while True:
        t = p.pk()
        if t in LINK:
            p.i += 1
            if t == 'thread_local' and p.pk() == '(':
                p.i += 3
        elif t == 'comdat':
            break
        else:
            break
    if p.pk() == 'alias':
        p.nx()
        p.ty()
        p.ex(',')
        t = p.ty()
        m.aliases[name] = p.val(t)
        return
    ext = 'external' in toks[:p.i] or 'extern_weak' in toks[:p.i]
    if p.pk() == 'addrspace':
        p.i += 4
    const = p.nx() == 'constant'
    m.globals[name] = [const, ext, p, None, None]


def global_init(m, name):
    g = m.globals[name]
    if g[3] is None:
        p = g[2]
        g[3] = p.ty()
        g[4] = None if g[1] else p.val(g[3])
    return g[0], g[1], g[3], g[4]


def inline_ctors(m):
    g = m.globals.get('llvm.global_ctors')
    t = ' '.join(g[2].t) if g else ''
    return re.findall(r'ptr @(\S+) , ptr @\S+ }', t)


def parse_header(m, l, body):
    # find name
    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
    name = mm.group(1).strip('"')
    pre = TOK.findall(l[:mm.start()])
    p = P(pre, m)
    p.i = 1
    while p.pk() in LINK or p.pk().startswith('!'):
        p.i += 1
    p.attrs()
    ret = p.ty()
    p2 = P(TOK.findall(l[mm.end() - 1:]), m)
    p2.ex('(')
    params = []
    va = False
    if not p2.acc(')'):
        while True:
            if p2.acc('...'):
                va = True
                p2.ex(')')
                break
            t = p2.ty()
            p2.attrs()
            nm = None
            if p2.pk() and p2.pk()[0] == '%':
                nm = p2.nx()[1:].strip('"')
            params.append((t, nm))
            if p2.acc(')'):
                break
            p2.ex(',')
    f = Func(name, ret, params, body)
    d = re.search(r'!dbg (![0-9]+)', l)
    f.dbg = d.group(1) if d else None
    if body is None:
        m.decls[name] = f
    else:
        m.funcs[name] = f


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv',
          'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc',
         'addrspacecast'}


def parse_body(m, f):
    """fills f.blocks: name -> [Instr]"""
    if f.blocks is not None:
        return
    f.blocks = {}
    f.order = []
    cur = None
    # entry label: number of params if unnamed
    k = 0
    body = f.body
    nl = len(body)
    # implicit entry name
    ent = str(sum(1 for _, n in f.params))
    lab = re.compile(r'^([-a-zA-Z$._0-9]+|"[^"]*"):')
    while k < nl:
        l = body[k]
        k += 1
        if not l or l.lstrip().startswith(';'):
            continue
        mm = lab.match(l)
        if mm:
            cur = []
            nm = mm.group(1).strip('"')
            f.blocks[nm] = cur
            f.order.append(nm)
            continue
        if cur is None:
            cur = []
            f.blocks[ent] = cur
            f.order.append(ent)
        s = l.strip()
        if s.startswith('switch') and ']' not in s:
            while ']' not in s:
                s += ' ' + body[k].strip()
                k += 1
        elif ('invoke ' in s) and ' to label' not in s:
            s += ' ' + body[k].strip()
            k += 1
        elif ('landingpad' in s):
            while k < nl and re.match(r'^\s+(cleanup|catch|filter)', body[k]):
                s += ' ' + body[k].strip()
                k += 1
        cur.append(parse_instr(m, s))
    f.entry = f.order[0]
    find_loops(f)


def parse_instr(m, s):
    dbg = None
    q = s.find(', !')
    if q >= 0:
        d = re.search(r'!dbg (![0-9]+)', s[q:])
        if d:
            dbg = d.group(1)
        # strip trailing metadata, unless metadata is an operand (dbg intrinsics - dropped)
        s2 = s[:q]
        if s2.count('(') == s2.count(')'):
            s = s2
    toks = TOK.findall(s)
    p = P(toks, m)
    d = None
    if p.pk(1) == '=' and p.pk()[0] == '%':
        d = p.nx()[1:].strip('"')
        p.nx()
    op = p.nx()
    if op in ('tail', 'musttail', 'notail'):
        op = p.nx()
    if op in BINOPS:
        fl = set()
        while p.pk() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
            fl.add(p.nx())
        t = p.ty()
        a = p.val(t)
        p.ex(',')
        b = p.val(t)
        return Instr(op, d, t, (a, b), dbg, fl)
    if op in CASTS:
        while p.pk() in ('nneg', 'nuw', 'nsw'):
            p.nx()
        t = p.ty()
        a = p.val(t)
        p.ex('to')
        t2 = p.ty()
        return Instr(op, d, t2, (a,), dbg, t)
    if op in ('icmp', 'fcmp'):
        while p.pk() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            p.nx()
        pr = p.nx()
        t = p.ty()
        a = p.val(t)
        p.ex(',')
        b = p.val(t)
        return Instr(op, d, t, (a, b), dbg, pr)
    if op == 'load':
        while p.pk() in ('volatile', 'atomic'):
            p.nx()
        t = p.ty()
        p.ex(',')
        pt = p.ty()
        a = p.val(pt)
        return Instr('load', d, t, (a,), dbg)
    if op == 'store':
        while p.pk() in ('volatile', 'atomic'):
            p.nx()
        t = p.ty()
        v = p.val(t)
        p.ex(',')
        pt = p.ty()
        a = p.val(pt)
        return Instr('store', None, t, (v, a), dbg)
    if op == 'atomicrmw':
        while p.pk() in ('volatile', 'atomic'):
            p.nx()
        k = p.nx()
        pt = p.ty()
        a = p.val(pt)
        p.ex(',')
        t = p.ty()
        v = p.val(t)
        return Instr('atomicrmw', d, t, (a, v), dbg, k)
    if op == 'alloca':
        t = p.ty()
        n = None
        al = 1
        while p.acc(','):
            if p.pk() == 'align':
                p.nx()
                al = int(p.nx())
            else:
                nt = p.ty()
                n = p.val(nt)
        return Instr('alloca', d, t, (n,), dbg, al)
    if op == 'getelementptr':
        while p.pk() in ('inbounds', 'nuw', 'nusw'):
            p.nx()
        bt = p.ty()
        p.ex(',')
        ops = []
        while True:
            t = p.ty()
            ops.append((t, p.val(t)))
            if not p.acc(','):
                break
        return Instr('gep', d, bt, tuple(ops), dbg)
    if op in ('br',):
        if p.pk() == 'label':
            p.nx()
            return Instr('jmp', None, None, (p.nx()[1:].strip('"'),), dbg)
        t = p.ty()
        c = p.val(t)
        p.ex(',')
        p.ex('label')
        x = p.nx()[1:].strip('"')
        p.ex(',')
        p.ex('label')
        y = p.nx()[1:].strip('"')
        return Instr('br', None, None, (c, x, y), dbg)
    if op == 'switch':
        t = p.ty()
        v = p.val(t)
        p.ex(',')
        p.ex('label')
        df = p.nx()[1:].strip('"')
        p.ex('[')
        cs = []
        while not p.acc(']'):
            ct = p.ty()
            cv = p.val(ct)
            p.ex(',')
            p.ex('label')
            cs.append((cv[1], p.nx()[1:].strip('"')))
        return Instr('switch', None, t, (v, df, cs), dbg)
    if op == 'ret':
        t = p.ty()
        if t is VOID:
            return Instr('ret', None, None, (None,), dbg)
        return Instr('ret', None, t, (p.val(t),), dbg)
    if op == 'phi':
        while p.pk() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.nx()
        t = p.ty()
        inc = []
        while True:
            p.ex('[')
            v = p.val(t)
            p.ex(',')
            inc.append((v, p.nx()[1:].strip('"')))
            p.ex(']')
            if not p.acc(','):
                break
        return Instr('phi', d, t, tuple(inc), dbg, {b: v for v, b in inc})
    if op == 'select':
        while p.pk() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.nx()
        ct = p.ty()
        c = p.val(ct)
        p.ex(',')
        t = p.ty()
        a = p.val(t)
        p.ex(',')
        t2 = p.ty()
        b = p.val(t2)
        return Instr('select', d, t, (c, a, b), dbg)
    if op in ('call', 'invoke'):
        while True:
            if p.pk() in ('fastcc', 'ccc', 'coldcc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.nx()
            else:
                break
        p.attrs()
        t = p.ty()
        if t.k == 'fn':
            t = t.el
        if p.pk() == 'asm':
            return Instr('unsupported', d, t, ('asm',), dbg)
        cal = p.val(PTR)
        p.ex('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.ty()
                p.attrs()
                if at is META:
                    # metadata operand: skip to , or )
                    dd = 0
                    while not (dd == 0 and p.pk() in (',', ')')):
                        x = p.nx()
                        if x == '(':
                            dd += 1
                        elif x == ')':
                            dd -= 1
                    args.append((at, ('undef',)))
                else:
                    args.append((at, p.val(at)))
                if p.acc(')'):
                    break
                p.ex(',')
        nd = None
        if op == 'invoke':
            while p.pk() != 'to':
                p.nx()
            p.nx()
            p.ex('label')
            nd = p.nx()[1:].strip('"')
        return Instr('call', d, t, (cal, args), dbg, nd)
    if op == 'extractvalue':
        t = p.ty()
        a = p.val(t)
        ix = []
        while p.acc(','):
            ix.append(int(p.nx()))
        return Instr(op, d, t, (a,), dbg, ix)
    if op == 'insertvalue':
        t = p.ty()
        a = p.val(t)
        p.ex(',')
        t2 = p.ty()
        b = p.val(t2)
        ix = []
        while p.acc(','):
            ix.append(int(p.nx()))
        return Instr(op, d, t, (a, b), dbg, (ix, t2))
    if op in ('unreachable', 'resume', 'landingpad'):
        return Instr(op, d, None, (), dbg)
    if op == 'freeze':
        t = p.ty()
        return Instr('freeze', d, t, (p.val(t),), dbg)
    if op == 'fneg':
        while p.pk() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.nx()
        t = p.ty()
        return Instr('fneg', d, t, (p.val(t),), dbg)
    return Instr('unsupported', d, None, (s,), dbg)


def succs(blk):
    t = blk[-1]
    if t.op == 'jmp':
        return [t.a[0]]
    if t.op == 'br':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == 'call' and t.x:
        return [t.x]
    return []


def find_loops(f):
    """natural loops (merged per header) over normal (non-exceptional) edges"""
    sc = {b: succs(f.blocks[b]) for b in f.order}
    # dominators, iterative
    rpo = []
    seen = set()
    st = [(f.entry, iter(sc[f.entry]))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(sc[x])))
                break
        else:
            rpo.append(b)
            st.pop()
    rpo.reverse()
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for x in sc[b]:
            preds[x].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nw = None
            for q in preds[b]:
                if q in idom:
                    if nw is None:
                        nw = q
                    else:
                        x, y = q, nw
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        nw = x
            if idom.get(b) != nw:
                idom[b] = nw
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for x in sc[b]:
            if dom(x, b):
                body = loops.setdefault(x, {x})
                w = [b]
                while w:
                    y = w.pop()
                    if y in body:
                        continue
                    body.add(y)
                    w.extend(preds[y])
    f.loops = loops
    f.preds = preds
    f.reach = set(rpo)
    # SSA names defined in each loop (header phis excluded)
    f.loopdefs = {}
    for h, body in loops.items():
        ds = set()
        for b in body:
            for ins in f.blocks[b]:
                if ins.d is not None and not (b == h and ins.op == 'phi'):
                    ds.add(ins.d)
        f.loopdefs[h] = ds
