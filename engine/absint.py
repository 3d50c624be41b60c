"""Abstract interpreter over LLVM IR.

Domain: a finite disjunction of abstract states; each state couples
  * a numeric element (lin.Store: linear inequalities over symbolic integers),
  * an abstract heap (objects with symbolic sizes, field cells at constant
    offsets, summarised contents for symbolic offsets, list-segment summaries),
  * the SSA environment of the current call string.
Calls are analysed context-sensitively through their bodies; loops are taken to
a fixpoint (generalisation of changed locations + invariant filtering), except
that a loop whose exit test is decided in the abstract state is followed
exactly.  A contract entry (drivers/*.cc) supplies the abstract precondition
and the obligations (vf_check) to be discharged on every abstract path."""
import sys
from math import gcd
import lin
from lin import Lin, Store, add, sub, mul, neg, mk, show
import irparse
from irparse import parse_body, global_init, ity

import loops

sys.setrecursionlimit(20000)
BIG = 1 << 62


class Fork(Exception):
    def __init__(s, alts):
        s.alts = alts  # list of lists of atoms (or callables on the state)


class Kill(Exception):
    """path ends silently (assumption false / throw / noreturn)"""

    def __init__(s, why=''):
        s.why = why


class Viol(Exception):
    def __init__(s, kind, msg):
        s.kind, s.msg = kind, msg


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class BI:
    """0/1 integer holding an undecided condition"""
    __slots__ = ('c',)

    def __init__(s, c):
        s.c = c

    def __repr__(s):
        return 'BI%r' % (s.c,)


class FTop:
    __slots__ = ()

    def __repr__(s):
        return 'ftop'


FT = FTop()


class Undef:
    __slots__ = ()

    def __repr__(s):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'addr', 'cells', 'default', 'alive', 'const', 'segs', 'rmemo', 'gen', 'maxw', 'tag', 'wit')

    def clone(s, gen):
        o = Obj()
        o.id, o.name, o.size, o.kind, o.addr = s.id, s.name, s.size, s.kind, s.addr
        o.cells = dict(s.cells)
        o.default, o.alive, o.const, o.segs, o.maxw = s.default, s.alive, s.const, s.segs, s.maxw
        o.rmemo = dict(s.rmemo)
        o.gen = gen
        o.tag = s.tag
        o.wit = s.wit
        return o


class Frame:
    __slots__ = ('func', 'blk', 'prev', 'ip', 'env', 'ret', 'nxt', 'allocas', 'ins', 'post')

    def clone(s):
        f = Frame()
        f.func, f.blk, f.prev, f.ip, f.ret, f.nxt, f.ins, f.post = s.func, s.blk, s.prev, s.ip, s.ret, s.nxt, s.ins, s.post
        f.env = dict(s.env)
        f.allocas = list(s.allocas)
        return f


_gen = [0]


def newgen():
    _gen[0] += 1
    return _gen[0]


class State:
    def __init__(s, base):
        s.frames = []
        s.mem = {}
        s.st = Store(base)
        s.trace = None
        s.ghost = {}
        s.gen = newgen()
        s.entered = False
        s.retval = None
        s.mark = None
        s.segs = {}

    def copy(s):
        n = State.__new__(State)
        n.frames = [f.clone() for f in s.frames]
        n.mem = dict(s.mem)
        n.st = s.st.copy()
        n.trace = s.trace
        n.ghost = dict(s.ghost)
        s.gen = newgen()
        n.gen = newgen()
        n.entered = s.entered
        n.retval = s.retval
        n.mark = s.mark
        n.segs = dict(s.segs)
        return n

    def w(s, oid):
        o = s.mem[oid]
        if o.gen != s.gen:
            o = o.clone(s.gen)
            s.mem[oid] = o
        return o


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'ge':
        return ('ge', sub(neg(c[1]), 1))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return cor(cnot(c[1]), cnot(c[2]))
    if k == 'or':
        return cand(cnot(c[1]), cnot(c[2]))
    raise Exception(c)


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ('and', a, b)


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ('or', a, b)


class Engine:
    def __init__(s, mod, opts=None):
        s.m = mod
        s.o = dict(max_steps=3000000, max_states=200000, peel=300, maxback=1, quiet=False, arrays_overflow=True)
        s.o.update(opts or {})
        s.base = []  # var -> (lo,hi)
        s.viol = []
        s.vkeys = set()
        s.steps = 0
        s.nforks = 0
        s.paths = 0
        s.kills = {}
        s.oblig = {}
        s.memops = 0
        s.funcs_seen = {}
        s.quiet = 0
        s.harvest = None
        s.memo = {}
        s.objn = 0
        s.gobj = {}
        s.loopfix = 0
        s.intr = {}
        s.symbr = set()
        s.pow2 = {}
        s.addr2obj = {}
        s.infos = []
        import intrin
        intrin.install(s)

    # ------------------------------------------------------------ variables
    def fresh(s, name, lo=None, hi=None):
        i = len(s.base)
        s.base.append((lo, hi))
        lin.NAMES[i] = '%s#%d' % (name, i)
        return Lin(0, ((i, 1),))

    def freshw(s, name, w):
        return s.fresh(name, 0, (1 << w) - 1)

    # ------------------------------------------------------------ objects
    def newobj(s, S, name, size, kind, default='uninit', align=16):
        s.objn += 1
        o = Obj()
        o.id, o.name, o.size, o.kind = s.objn, name, size, kind
        # address = align * k keeps alignment facts
        k = s.fresh('&%s/%d' % (name, align), 4096 // align + 1, (1 << 61) // align)
        o.addr = k.t[0][0]
        lin._ADDR.add(o.addr)
        s.addr2obj[o.addr] = (o.id, align)
        o.cells, o.default, o.alive, o.const, o.segs, o.rmemo, o.maxw = {}, default, True, False, (), {}, 0
        o.gen = S.gen
        o.tag = None
        o.wit = ()
        S.mem[o.id] = o
        return mul(k, align)

    def ptr_of(s, oid_addr):
        return mul(lin.var(oid_addr), s.addr2obj[oid_addr][1])

    def global_ptr(s, S, name):
        if name in s.m.aliases:
            v = s.m.aliases[name]
            return s.const(S, None, v)
        key = name
        p = s.gobj.get(key)
        if p is None:
            # created once; content materialised per state on demand
            dummy = State.__new__(State)
            dummy.mem = {}
            dummy.gen = newgen()
            if name in s.m.globals:
                c, ext, t, init = global_init(s.m, name)
                size = s.m.size(t) if not ext or t.k != 'opaque' else 64
                pv = s.newobj(dummy, '@' + name, size, 'global', 'unknown', 16)
                o = list(dummy.mem.values())[0]
                o.const = c
                s.gobj[key] = (pv, o, t, init)
            else:
                pv = s.newobj(dummy, '@' + name, 1, 'func', 'unknown', 16)
                o = list(dummy.mem.values())[0]
                o.tag = name
                s.gobj[key] = (pv, o, None, None)
            p = s.gobj[key]
        pv, o, t, init = p
        if o.id not in S.mem:
            o2 = o.clone(S.gen)
            S.mem[o.id] = o2
            if init is not None and o.kind == 'global':
                if o.const or s.o.get('init_globals'):
                    s.init_cells(S, o2, 0, t, init)
            elif o.name in ('@in6addr_any', '@in6addr_loopback'):
                # constants of the C library
                for i in range(16):
                    o2.cells[i] = (1, int(i == 15 and o.name == '@in6addr_loopback'))
        return pv

    def init_cells(s, S, o, off, t, v):
        t = s.m.res(t)
        if v[0] == 'zero':
            if t.k in ('int', 'ptr'):
                o.cells[off] = (s.m.size(t), 0)
            elif t.k == 'arr':
                if t.n * s.m.size(t.el) > 4096:
                    o.default = 'zero'
                    return
                for i in range(t.n):
                    s.init_cells(S, o, off + i * s.m.size(t.el), t.el, v)
            elif t.k == 'struct':
                for e, q in zip(t.el, s.m.offs(t)):
                    s.init_cells(S, o, off + q, e, v)
            return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if v[0] == 'agg':
            if t.k in ('arr', 'vec'):
                for i, (et, ev) in enumerate(v[1]):
                    s.init_cells(S, o, off + i * s.m.size(t.el), et, ev)
            else:
                for (et, ev), q in zip(v[1], s.m.offs(t)):
                    s.init_cells(S, o, off + q, et, ev)
            return
        if v[0] == 'undef':
            return
        x = s.const(S, t, v)
        if t.k == 'int' and type(x) is int:
            x &= (1 << t.w) - 1
        o.cells[off] = (s.m.size(t), x)

    # ------------------------------------------------------------ conditions
    def ev(s, S, c):
        """True/False/None"""
        if c is True or c is False:
            return c
        k = c[0]
        st = S.st
        if k == 'ge':
            v = st.norm(c[1])
            if type(v) is int:
                return v >= 0
            r = s.addrcmp(S, v)
            if r is not None:
                return r
            if st.entails(v):
                return True
            if st.entails(sub(neg(v), 1)):
                return False
            return None
        if k in ('eq', 'ne'):
            v = st.norm(c[1])
            if type(v) is int:
                return (v == 0) == (k == 'eq')
            if s.distinct_objs(S, v):
                return k == 'ne'
            if st.entails_ne(v):
                return k == 'ne'
            if st.entails_eq(v):
                return k == 'eq'
            return None
        a = s.ev(S, c[1])
        if k == 'and':
            if a is False:
                return False
            b = s.ev(S, c[2])
            if b is False:
                return False
            return True if (a and b) else None
        if k == 'or':
            if a is True:
                return True
            b = s.ev(S, c[2])
            if b is True:
                return True
            return False if (a is False and b is False) else None
        raise Exception(c)

    def distinct_objs(s, S, v):
        """v = p - q with p,q based at two distinct live objects (or object vs small integer)"""
        pa = na = None
        other = False
        for x, k in v.t:
            if x in s.addr2obj:
                al = s.addr2obj[x][1]
                if k == al and pa is None:
                    pa = x
                elif k == -al and na is None:
                    na = x
                else:
                    return False
            else:
                other = True
        if pa is not None and na is not None:
            return True
        return False

    def addrcmp(s, S, v):
        """ordering between pointers into two distinct objects: objects are disjoint, so
        fix their relative placement first"""
        pa = na = None
        for x, k in v.t:
            if x in s.addr2obj:
                al = s.addr2obj[x][1]
                if k == al and pa is None:
                    pa = x
                elif k == -al and na is None:
                    na = x
                else:
                    return None
        if pa is None or na is None:
            return None
        oa, ob = S.mem.get(s.addr2obj[pa][0]), S.mem.get(s.addr2obj[na][0])
        if oa is None or ob is None:
            return None
        A, B = s.ptr_of(pa), s.ptr_of(na)
        c1 = sub(A, add(B, ob.size))  # a after b
        c2 = sub(B, add(A, oa.size))  # b after a
        if S.st.entails(c1) or S.st.entails(c2):
            return None
        raise Fork([[('ge', c1)], [('ge', c2)]])

    def need(s, S, c):
        if c is True or c is False:
            return c
        r = s.ev(S, c)
        if r is not None:
            if s.harvest is not None:
                s.harv(c)
            return r
        if s.harvest is not None:
            s.harv(c)
        a = s.atom(S, c)
        raise Fork([[a], [cnot(a)]])

    def harv(s, c):
        if c is True or c is False:
            return
        if c[0] in ('ge', 'eq', 'ne'):
            s.harvest.add(c[1])
        else:
            s.harv(c[1])
            s.harv(c[2])

    def atom(s, S, c):
        """an undecided atom of c"""
        if c[0] in ('and', 'or'):
            a = s.ev(S, c[1])
            if a is None:
                return s.atom(S, c[1])
            return s.atom(S, c[2])
        return c

    def assume(s, S, c):
        if c is True:
            return True
        if c is False:
            return False
        if callable(c):
            return c(S)
        k = c[0]
        if k == 'ge':
            return S.st.add_ge(c[1])
        if k == 'eq':
            return S.st.add_eq(c[1])
        if k == 'ne':
            return S.st.add_ne(c[1])
        if k == 'and':
            return s.assume(S, c[1]) and s.assume(S, c[2])
        if k == 'or':
            a, b = s.ev(S, c[1]), s.ev(S, c[2])
            if a or b:
                return True
            if a is False:
                return s.assume(S, c[2])
            if b is False:
                return s.assume(S, c[1])
            raise Fork([[c[1]], [cnot(c[1]), c[2]]])
        raise Exception(c)

    # ------------------------------------------------------------ integers
    def toint(s, S, v):
        """concretise BI / undef to a Lin/int"""
        if type(v) is int or type(v) is Lin:
            return v
        if v is True:
            return 1
        if v is False:
            return 0
        if type(v) is BI:
            return 1 if s.need(S, v.c) else 0
        if v is UNDEF:
            return s.site(S, 'undef', 0xff)
        if type(v) is tuple and v and v[0] in ('ge', 'eq', 'ne', 'and', 'or'):
            return 1 if s.need(S, v) else 0
        if isinstance(v, FTop):
            return s.site(S, 'fbits', (1 << 64) - 1)
        raise Unsupported('toint %r' % (v,))

    def site(s, S, nm, hi):
        f = S.frames[-1]
        k = ('site', nm, id(f.ins), len(S.frames))
        v = s.memo.get(k)
        if v is None:
            v = s.memo[k] = s.fresh(nm, 0, hi)
        return v

    def canU(s, S, v, w):
        v = s.toint(S, v)
        M = 1 << w
        if type(v) is int:
            return v % M
        v = S.st.norm(v)
        if type(v) is int:
            return v % M
        lo, hi = S.st.rng(v)
        if lo is not None and lo >= 0 and hi is not None and hi < M:
            return v
        if not s.need(S, ('ge', v)):
            v2 = add(v, M)
            if not s.need(S, ('ge', v2)):
                return s.wrap(S, v, w)
            return v2
        if not s.need(S, ('ge', sub(M - 1, v))):
            v2 = sub(v, M)
            if s.need(S, ('ge', sub(M - 1, v2))):
                return v2
            return s.wrap(S, v, w)
        return v

    def canS(s, S, v, w):
        v = s.toint(S, v)
        M, H = 1 << w, 1 << (w - 1)
        if type(v) is int:
            v %= M
            return v - M if v >= H else v
        v = S.st.norm(v)
        if type(v) is int:
            v %= M
            return v - M if v >= H else v
        lo, hi = S.st.rng(v)
        if lo is not None and lo >= -H and hi is not None and hi < H:
            return v
        if not s.need(S, ('ge', add(v, H))):
            v2 = add(v, M)
            if not s.need(S, ('ge', add(v2, H))):
                return s.canS(S, s.wrap(S, v, w), w)
            return v2
        if not s.need(S, ('ge', sub(H - 1, v))):
            v2 = sub(v, M)
            if s.need(S, ('ge', sub(H - 1, v2))):
                return v2
            return s.canS(S, s.wrap(S, v, w), w)
        return v

    def wrap(s, S, v, w):
        """v mod 2^w as a Lin"""
        M = 1 << w
        if type(v) is int:
            return v % M
        v = S.st.norm(v)
        if type(v) is int:
            return v % M
        # drop multiples of M
        v = mk(v.c, {x: (k if abs(k) < M else (k + M // 2) % M - M // 2) for x, k in v.t if k % M})
        if type(v) is int:
            return v % M
        q = s.divq(S, v, M)
        return sub(v, mul(q, M))

    def tobits(s, S, v, w):
        """the w low bits of a value composed of named bits: list of 0, 1, (atom, negated); None if it is not such a value"""
        if type(v) is Lin:
            v = S.st.norm(v)
        if type(v) is int:
            return [(v >> i) & 1 for i in range(w)]
        c, r = v.c, {}
        for x, k in v.t:
            if (k & -k) != abs(k) or S.st.bounds(x) != (0, 1) or abs(k) in r:
                return None
            r[abs(k)] = (x, k < 0)
            if k < 0:
                c += k
        if c < 0 or any(c & k for k in r):
            return None
        m = max(r)
        return [r.get(1 << i) or (c >> i) & 1 for i in range(w)]

    def frombits(s, bs):
        c, t = 0, {}
        for i, b in enumerate(bs):
            if type(b) is int:
                c += b << i
            else:
                t[b[0]] = t.get(b[0], 0) + (-(1 << i) if b[1] else 1 << i)
                if b[1]:
                    c += 1 << i
        return mk(c, t)

    def bitop(s, op, a, b):
        if type(a) is int and type(b) is int:
            return a & b if op == 'and' else a | b if op == 'or' else a ^ b
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if op == 'xor':
                return (a[0], not a[1]) if b else a
            return (a if b else 0) if op == 'and' else (1 if b else a)
        if a[0] == b[0]:
            if a[1] == b[1]:
                return a if op != 'xor' else 0
            return 0 if op == 'and' else 1
        key = ('bit', op, a, b) if a < b else ('bit', op, b, a)
        q = s.memo.get(key)
        if q is None:
            q = s.memo[key] = s.fresh('bit', 0, 1)
        return (q.t[0][0], False)

    def divq(s, S, v, c):
        """floor(v/c) for constant c>0"""
        if type(v) is int:
            return v // c
        v = S.st.norm(v)
        if type(v) is int:
            return v // c
        if len(v.t) > 1 and (c & (c - 1)) == 0 and v.c >= 0:
            bs = s.tobits(S, v, 128)
            if bs is not None:
                return s.frombits(bs[c.bit_length() - 1:])
        # exact part
        if all(k % c == 0 for _, k in v.t):
            return mk(v.c // c, {x: k // c for x, k in v.t})
        lo, hi = S.st.rng(v)
        if lo is not None and hi is not None and lo // c == hi // c:
            return lo // c
        # peel off divisible terms
        dv, rm = {}, {}
        for x, k in v.t:
            if k % c == 0:
                dv[x] = k // c
            elif abs(k) < c:
                rm[x] = k
            else:
                kr = (k + c // 2) % c - c // 2
                rm[x] = kr
                dv[x] = (k - kr) // c
        cq, cr = v.c // c, v.c % c
        r = mk(cr, rm)
        if dv:
            lo, hi = S.st.rng(r)
            if lo is not None and hi is not None and lo // c == hi // c:
                return add(mk(cq + lo // c, dv), 0)
        key = ('div', r, c)
        q = s.memo.get(key)
        if q is None:
            q = s.memo[key] = s.fresh('q')
        lo, hi = S.st.rng(r)
        if lo is not None:
            S.st.add_ge(sub(q, lo // c))
        if hi is not None:
            S.st.add_ge(sub(hi // c, q))
        S.st.add_ge(sub(r, mul(q, c)))
        S.st.add_ge(sub(add(mul(q, c), c - 1), r))
        return add(q, mk(cq, dv))

    def binop(s, S, op, w, a, b, fl):
        # boolean i1
        if w == 1:
            a, b = s.tobool(S, a), s.tobool(S, b)
            if op == 'and':
                return cand(a, b)
            if op == 'or':
                return cor(a, b)
            if op == 'xor' or op == 'add' or op == 'sub':
                if b is True:
                    return cnot(a)
                if a is True:
                    return cnot(b)
                if a is False:
                    return b
                if b is False:
                    return a
                if s.need(S, a):
                    return cnot(b)
                return b
            raise Unsupported('i1 ' + op)
        if type(a) is BI or type(b) is BI:
            if op in ('and', 'or', 'xor') and (type(a) is BI or a in (0, 1)) and (type(b) is BI or b in (0, 1)):
                x = a.c if type(a) is BI else bool(a)
                y = b.c if type(b) is BI else bool(b)
                return BI2(s.binop(S, op, 1, x, y, fl))
            if op == 'and' and type(b) is int and b & 1:
                return a
        a, b = s.toint(S, a), s.toint(S, b)
        M = 1 << w
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            if type(a) is int:
                a, b = b, a
            if type(b) is not int:
                na, nb = S.st.norm(a), S.st.norm(b)
                if type(na) is int:
                    na, nb = nb, na
                if type(nb) is not int:
                    return s.mulsym(S, na, nb, w)
                a, b = na, nb
            b %= M
            if b >= M >> 1 and type(a) is Lin:
                b -= M
            return mul(a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            sg = op[0] == 's'
            cf = s.canS if sg else s.canU
            a, b = cf(S, a, w), cf(S, b, w)
            if type(a) is int and type(b) is int:
                if b == 0:
                    raise Viol('div0', 'division by zero')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op[1:] == 'div' else a - q * b
            if type(b) is int and b != 0:
                if sg and not s.need(S, ('ge', a)):
                    q = neg(s.divq(S, neg(a), abs(b)))
                    if b < 0:
                        q = neg(q)
                else:
                    q = s.divq(S, a, abs(b))
                    if b < 0:
                        q = neg(q)
                return q if op[1:] == 'div' else sub(a, mul(q, b))
            if s.need(S, ('eq', b)):
                raise Viol('div0', 'division by zero')
            q = s.sym2(S, 'q', op[1:], a, b)
            if op[1:] == 'rem':
                S.st.add_ge(q)
                S.st.add_ge(sub(sub(b, 1), q))
                S.st.add_ge(sub(a, q))
            else:
                S.st.add_ge(q)
                S.st.add_ge(sub(a, q))
            return q
        if op in ('shl', 'lshr', 'ashr'):
            b = s.canU(S, b, w)
            if type(b) is Lin:
                lo, hi = S.st.rng(b)
                if not s.need(S, ('ge', sub(w - 1, b))):
                    if s.o.get('shift_ub', True):
                        raise Viol('shift', 'shift amount can reach or exceed the operand width (%s >= %d)' % (show(b), w))
                    return s.freshw('shub', w)
                b2 = S.st.norm(b)
                if type(b2) is Lin:
                    if s.o.get('split_shift'):
                        lo, hi = S.st.rng(b2)
                        for k in range(max(lo or 0, 0), w):
                            if s.need(S, ('eq', sub(b2, k))):
                                b2 = k
                                break
                    else:
                        r = s.sym2(S, 'sh', op, a, b2)
                        if op == 'shl' and S.st.norm(a) == 1 and type(r) is Lin:
                            s.pow2[r.t[0][0]] = b2
                            S.st.add_ge(sub(r, 1))
                        if op == 'lshr':
                            a = s.canU(S, a, w)
                            S.st.add_ge(r)
                            S.st.add_ge(sub(a, r))
                        else:
                            S.st.add_ge(r)
                            S.st.add_ge(sub(M - 1, r))
                        return r
                b = b2
            if b >= w:
                if s.o.get('shift_ub', True):
                    raise Viol('shift', 'shift amount %d reaches or exceeds the operand width %d' % (b, w))
                return s.freshw('shub', w)
            if op == 'shl':
                if type(a) is int:
                    return (a << b) % M
                a = s.canU(S, a, w)
                r = mul(a, 1 << b)
                lo, hi = S.st.rng(r) if type(r) is Lin else (r, r)
                if hi is not None and hi < M:
                    return r
                return s.wrap(S, r, w)
            if op == 'lshr':
                return s.divq(S, s.canU(S, a, w), 1 << b)
            return s.divq(S, s.canS(S, a, w), 1 << b)
        if op in ('and', 'or', 'xor'):
            if type(a) is int and type(b) is int:
                a, b = a % M, b % M
                return a & b if op == 'and' else a | b if op == 'or' else a ^ b
            if type(a) is int:
                a, b = b, a
            b = S.st.norm(b)
            a = S.st.norm(a)
            if type(a) is int and type(b) is not int:
                a, b = b, a
            if type(b) is int:
                if type(a) is int:
                    return s.binop(S, op, w, a, b, fl)
                b %= M
                if len(a.t) > 1:
                    x = s.tobits(S, s.canU(S, a, w), w)
                    if x:
                        return s.frombits([s.bitop(op, p, (b >> i) & 1) for i, p in enumerate(x)])
                if op == 'xor' and b == M - 1:
                    return sub(M - 1, s.canU(S, a, w))
                if op == 'xor' and b == 0 or op == 'or' and b == 0:
                    return a
                if op == 'and':
                    if b == 0:
                        return 0
                    if b == M - 1:
                        return a
                    if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0] in s.pow2:
                        # bit test of a constant word: the set bits as ranges of the index
                        ix = s.pow2[a.t[0][0]]
                        cond, st = False, None
                        for k in range(w + 1):
                            bit = k < w and b >> k & 1
                            if bit and st is None:
                                st = k
                            if not bit and st is not None:
                                cond = cor(cond, cand(s.ge0(sub(ix, st)), s.ge0(sub(k - 1, ix))))
                                st = None
                        return a if s.need(S, cond) else 0
                    # contiguous low mask
                    if (b & (b + 1)) == 0:
                        a = s.canU(S, a, w) if not s.isptrish(S, a) else a
                        return sub(a, mul(s.divq(S, a, b + 1), b + 1))
                    nb = M - b
                    if (nb & (nb - 1)) == 0:  # high mask ~(2^k-1)
                        a = s.canU(S, a, w) if not s.isptrish(S, a) else a
                        return mul(s.divq(S, a, nb), nb)
                    # generic contiguous run 2^i..2^j : ((a>>i) mod 2^(j-i)) << i
                    low = b & -b
                    if ((b // low) & (b // low + 1)) == 0:
                        a = s.canU(S, a, w)
                        q = s.divq(S, a, low)
                        r = sub(q, mul(s.divq(S, q, b // low + 1), b // low + 1))
                        return mul(r, low)
                    a = s.canU(S, a, w)
                    r = s.sym2(S, 'and', 'and', a, b)
                    S.st.add_ge(r)
                    S.st.add_ge(sub(b, r))
                    S.st.add_ge(sub(a, r))
                    return r
                if op == 'or':
                    # disjoint or: b's low zero bits cover a
                    a = s.canU(S, a, w)
                    if b & -b:
                        lo, hi = S.st.rng(a) if type(a) is Lin else (a, a)
                        if hi is not None and hi < (b & -b):
                            return add(a, b)
                    if (b & (b + 1)) == 0:  # or with low mask: clear then add
                        return add(mul(s.divq(S, a, b + 1), b + 1), b)
            a, b = s.canU(S, a, w), s.canU(S, b, w)
            if a == b:
                return a if op != 'xor' else 0
            x = s.tobits(S, a, w)
            y = x and s.tobits(S, b, w)
            if y:
                return s.frombits([s.bitop(op, p, q) for p, q in zip(x, y)])
            for x, y in ((a, b), (b, a)):
                # operands without a common bit
                if type(x) is Lin:
                    g = x.c
                    for _, k in x.t:
                        g = gcd(g, k)
                    g &= -g
                    if g > 1 and (y < g if type(y) is int else S.st.entails(sub(g - 1, y))):
                        return 0 if op == 'and' else add(x, y)
            r = s.sym2(S, op, op, a, b) if (type(a) is int or type(b) is int or a.t <= b.t) else s.sym2(S, op, op, b, a)
            S.st.add_ge(r)
            if op == 'and':
                S.st.add_ge(sub(a, r))
                S.st.add_ge(sub(b, r))
            else:
                S.st.add_ge(sub(M - 1, r))
                S.st.add_ge(sub(add(a, b), r))
                if op == 'or':
                    S.st.add_ge(sub(r, a))
                    S.st.add_ge(sub(r, b))
            return r
        raise Unsupported(op)

    def isptrish(s, S, a):
        return type(a) is Lin and any(x in s.addr2obj for x, _ in a.t)

    def sym2(s, S, nm, op, a, b):
        a, b = S.st.norm(a), S.st.norm(b)
        key = (op, a, b)
        q = s.memo.get(key)
        if q is None:
            q = s.memo[key] = s.fresh(nm)
        return q

    def mulsym(s, S, a, b, w):
        if a.t > b.t:
            a, b = b, a
        r = s.sym2(S, 'mul', 'mul', a, b)
        if S.st.entails(a) and S.st.entails(b):
            S.st.add_ge(r)
            if S.st.entails(sub(b, 1)):
                S.st.add_ge(sub(r, a))
            if S.st.entails(sub(a, 1)):
                S.st.add_ge(sub(r, b))
        return r

    def tobool(s, S, v):
        if v is True or v is False:
            return v
        if type(v) is int:
            return bool(v & 1)
        if type(v) is BI:
            return v.c
        if type(v) is Lin:
            v = S.st.norm(v)
            if type(v) is int:
                return bool(v & 1)
            lo, hi = S.st.rng(v)
            if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                return ('ne', v)
            r = sub(v, mul(s.divq(S, v, 2), 2))
            return ('ne', r) if type(r) is Lin else bool(r)
        if v is UNDEF or isinstance(v, FTop):
            return ('ne', s.site(S, 'ub', 1))
        return v

    def icmp(s, S, pr, ty, a, b):
        w = 64 if ty.k == 'ptr' else ty.w
        if w == 1:
            a, b = s.tobool(S, a), s.tobool(S, b)
            x = s.binop(S, 'xor', 1, a, b, None)
            if pr == 'eq':
                return cnot(x)
            if pr == 'ne':
                return x
            raise Unsupported('icmp i1 ' + pr)
        if type(a) is BI and type(b) is int and pr in ('eq', 'ne'):
            if b == 0:
                return a.c if pr == 'ne' else cnot(a.c)
            if b == 1:
                return a.c if pr == 'eq' else cnot(a.c)
            return pr == 'ne'
        if type(a) is BI and type(b) is BI and pr in ('eq', 'ne'):
            x = s.binop(S, 'xor', 1, a.c, b.c, None)
            return x if pr == 'ne' else cnot(x)
        a, b = S.st.norm(s.toint(S, a)), S.st.norm(s.toint(S, b))
        if pr in ('eq', 'ne'):
            if ty.k == 'ptr' or s.isptrish(S, a) or s.isptrish(S, b):
                a, b = s.segresolve(S, a), s.segresolve(S, b)
            else:
                M = 1 << w

                def win(v):
                    if type(v) is int:
                        return v, v
                    return S.st.rng(v)
                la, ha = win(a)
                lb, hb = win(b)
                okS = all(x is not None for x in (la, ha, lb, hb)) and min(la, lb) >= -(M >> 1) and max(ha, hb) < (M >> 1)
                okU = all(x is not None for x in (la, ha, lb, hb)) and min(la, lb) >= 0 and max(ha, hb) < M
                if not (okS or okU):
                    a, b = s.canU(S, a, w), s.canU(S, b, w)
            d = sub(a, b)
            if type(d) is int:
                return (d == 0) == (pr == 'eq')
            return (pr, d)
        if ty.k == 'ptr':
            pr = 'u' + pr[1:]
            a, b = s.segresolve(S, a), s.segresolve(S, b)
        elif s.isptrish(S, a) and s.isptrish(S, b):
            pass
        elif pr[0] == 'u':
            a, b = s.canU(S, a, w), s.canU(S, b, w)
        else:
            a, b = s.canS(S, a, w), s.canS(S, b, w)
        k = pr[1:]
        if k == 'lt':
            d = sub(sub(b, a), 1)
        elif k == 'le':
            d = sub(b, a)
        elif k == 'gt':
            d = sub(sub(a, b), 1)
        else:
            d = sub(a, b)
        if type(d) is int:
            return d >= 0
        return ('ge', d)

    # ------------------------------------------------------------ memory
    def segresolve(s, S, p):
        return p

    def deref(s, S, p, n, what, write=False):
        """resolve pointer p for an n-byte access; returns (Obj, offset)"""
        p = S.st.norm(s.toint(S, p)) if type(p) is not Lin else S.st.norm(p)
        if type(p) is int:
            raise Viol('null', '%s through %s pointer' % (what, 'null' if p == 0 else 'constant'))
        base = None
        for x, k in p.t:
            if x in s.addr2obj and k == s.addr2obj[x][1]:
                if base is not None:
                    base = None
                    break
                base = x
        if base is None:
            base = s.rangebase(S, p)
        if base is None:
            raise Viol('wild', '%s through pointer with unresolved target %s' % (what, show(p)))
        oid, al = s.addr2obj[base]
        o = S.mem.get(oid)
        if o is None:
            raise Viol('wild', '%s through pointer to unknown object' % what)
        off = sub(p, s.ptr_of(base))
        s.memops += 1
        if not o.alive:
            raise Viol('dead', '%s of %s after its lifetime ended' % (what, o.name))
        if write and o.const:
            raise Viol('const', '%s to constant %s' % (what, o.name))
        if type(off) is int and type(o.size) is int and type(n) is int:
            if off < 0 or off + n > o.size:
                raise Viol('bounds', '%s of %d bytes at offset %d of %s (size %d)' % (what, n, off, o.name, o.size))
        else:
            if not S.st.entails(off) if type(off) is Lin else off < 0:
                if s.quiet == 0:
                    raise Viol('bounds', '%s may start before %s (offset %s)' % (what, o.name, show(off)))
                S.st.add_ge(off)
            e = sub(sub(o.size, off), n)
            if not (S.st.entails(e) if type(e) is Lin else e >= 0):
                if s.quiet == 0:
                    raise Viol('bounds', '%s of %s bytes at offset %s may pass the end of %s (size %s)' %
                               (what, show(n), show(off), o.name, show(S.st.norm(o.size))))
                S.st.add_ge(e)
        return o, off

    def rangebase(s, S, p):
        """the object whose extent provably contains p (the base was rewritten by an equality)"""
        if type(p) is not Lin or not any(k not in (1, -1) for _, k in p.t):
            return None
        for oid, o in S.mem.items():
            if not o.alive or o.kind == 'global':
                continue
            d = sub(p, s.ptr_of(o.addr))
            e = sub(o.size, d)
            if (S.st.entails(d) if type(d) is Lin else d >= 0) and (S.st.entails(e) if type(e) is Lin else e >= 0):
                return o.addr
        return None

    def clobber(s, S, o, off, n):
        """remove knowledge overlapping [off,off+n)"""
        o = S.w(o.id)
        if o.rmemo:
            st = S.st
            for k in list(o.rmemo):
                if not (s.le(S, add(k[0], k[1]), off) or s.le(S, add(off, n), k[0])):
                    del o.rmemo[k]
        if type(off) is int and type(n) is int:
            cells = o.cells
            for k in ([k for k in range(off - 15, off) if k in cells] + [k for k in range(max(off, off + n - 15), off + n) if k in cells]):
                w, v = cells.get(k) or (0, 0)
                if k + w <= off or (k >= off and k + w <= off + n):
                    continue
                # partial overwrite: keep the bytes on either side
                for x, y in ((k, off), (off + n, k + w)):
                    if x < y:
                        if type(v) is BI or v is True or v is False:
                            v = s.toint(S, v)
                        if type(v) is int:
                            cells[x] = (y - x, (v >> (8 * (x - k))) & ((1 << (8 * (y - x))) - 1))
                        elif type(v) is Lin and not s.isptrish(S, v):
                            q = s.canU(S, v, 8 * w)
                            if x != k:
                                q = s.divq(S, q, 1 << (8 * (x - k)))
                            cells[x] = (y - x, q if y == k + w else s.wrap(S, q, 8 * (y - x)))
                        else:
                            for z in range(x, y):
                                cells[z] = (1, s.fresh('part', 0, 255))
            if n <= 64:
                for k in range(off - 15, off + n):
                    c = cells.get(k)
                    if c is not None and k + c[0] > off:
                        del cells[k]
            else:
                for k in [k for k, c in cells.items() if k + c[0] > off and k < off + n]:
                    del cells[k]
        else:
            st = S.st
            for k, c in list(o.cells.items()):
                # keep cell if provably disjoint
                if st.entails(sub(off, k + c[0])) or st.entails(sub(k, add(off, n))):
                    continue
                del o.cells[k]
            if o.default == 'zero':
                o.default = 'unknown'
        return o

    def le(s, S, a, b):
        d = sub(b, a)
        return d >= 0 if type(d) is int else S.st.entails(d)

    def ge0(s, d):
        return d >= 0 if type(d) is int else ('ge', d)

    def wit_pre(s, S, o, off, n):
        """relation of an access [off,off+n) to each witness cell of o: list of 'in','eq','out','part' (forks when undecided)"""
        r = []
        for wo, wn, wv in o.wit:
            d = sub(wo, off)
            if s.harvest is not None and type(d) is Lin:
                s.harvest.add(('wit', S.st.norm(d)))
            inside = cand(s.ge0(d), s.ge0(sub(sub(n, d), wn)))
            if s.need(S, inside):
                r.append('in')
            else:
                out = cor(s.ge0(sub(sub(off, wo), wn)), s.ge0(sub(sub(wo, off), n)))
                r.append('out' if s.need(S, out) else 'part')
        return r

    def wit_read(s, S, o, off, n):
        for wo, wn, wv in o.wit:
            if wn == n:
                d = sub(wo, off)
                if s.harvest is not None and type(d) is Lin:
                    s.harvest.add(('wit', S.st.norm(d)))
                if s.need(S, d == 0 if type(d) is int else ('eq', d)):
                    return wv
        return None

    def wit_set(s, S, o, rel, fn):
        """o already writable; fn(i, (wo,wn,wv)) gives the new value of a witness inside the written range"""
        if not o.wit:
            return
        l = []
        for i, (w, r) in enumerate(zip(o.wit, rel)):
            if r == 'out':
                l.append(w)
            elif r == 'part':
                l.append((w[0], w[1], s.fresh('wit', 0, (1 << (8 * w[1])) - 1)))
            else:
                l.append((w[0], w[1], fn(i, w)))
        o.wit = tuple(l)

    def load(s, S, p, ty):
        ty = s.m.res(ty)
        if ty.k in ('struct', 'arr', 'vec'):
            return s.load_agg(S, p, ty)
        n = s.m.size(ty)
        o, off = s.deref(S, p, n, 'read')
        return s.read(S, o, off, n, ty)

    def load_agg(s, S, p, ty):
        if ty.k == 'struct':
            return tuple(['agg'] + [s.load(S, add(p, q), e) for e, q in zip(ty.el, s.m.offs(ty))])
        z = s.m.size(ty.el)
        return tuple(['agg'] + [s.load(S, add(p, i * z), ty.el) for i in range(ty.n)])

    def unk(s, S, o, off, n, ty, nm='m'):
        if ty.k in ('double', 'float', 'x86_fp80'):
            return FT
        if ty.k == 'ptr':
            return s.fresh('%s[%s]p' % (o.name, show(off)), 0, 1 << 62)
        if ty.w == 1:
            return ('ne', s.fresh('%s[%s]' % (o.name, show(off)), 0, 1))
        return s.fresh('%s[%s]' % (o.name, show(off)), 0, (1 << ty.w) - 1)

    def list_res(s, S, o, off):
        """offset within a node of a linked-list object, or None"""
        z = o.default[1]
        off = S.st.norm(off)
        if type(off) is int:
            return off % z
        if any(k % z for _, k in off.t):
            return None
        return off.c % z

    def read_list(s, S, o, off, n, ty):
        """a list of symbolic length laid out in order: links follow the layout unless overwritten"""
        r = s.list_res(S, o, off)
        z, no, po = o.default[1:]
        for g in reversed(o.segs):
            if g[2] != 'val' or r is None:
                return None
            r2 = s.list_res(S, o, g[0])
            if r2 is None:
                return None
            if r2 != r:
                continue
            if s.need(S, eq0(sub(g[0], off))):
                return g[3]
        if r is None or n != 8:
            return None
        base = s.addr2ptr(o)
        if r == no:
            nx = add(off, z - no)
            return add(base, nx) if s.need(S, s.ge0(sub(sub(o.size, nx), z))) else 0
        if r == po:
            pv = sub(off, po)
            return add(base, sub(pv, z)) if s.need(S, s.ge0(sub(pv, z))) else 0
        return None

    def addr2ptr(s, o):
        return s.ptr_of(o.addr)

    def read(s, S, o, off, n, ty):
        if o.wit:
            v = s.wit_read(S, o, off, n)
            if v is not None:
                return v
        if type(o.default) is tuple:
            v = s.read_list(S, o, off, n, ty)
            if v is not None:
                return v
            m = o.rmemo.get((off, n))
            if m is None:
                m = s.unk(S, o, off, n, ty)
                S.w(o.id).rmemo[(off, n)] = m
            return m
        if type(off) is int:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if ty.k == 'int' and v is UNDEF:
                    return s.unk(S, o, off, n, ty)
                if ty.k in ('double', 'float', 'x86_fp80') and not (isinstance(v, FTop) or type(v) is float):
                    return FT
                if ty.k in ('int', 'ptr') and (isinstance(v, FTop) or type(v) is float):
                    v = s.unk(S, o, off, n, ty)
                    S.w(o.id).cells[off] = (n, v)
                return v
            if c is not None or o.cells:
                v = s.read_mixed(S, o, off, n, ty)
                if v is not None:
                    return v
            if o.default == 'zero' and not o.segs:
                return 0 if ty.k in ('int', 'ptr') else 0.0
            v = s.read_seg(S, o, off, n, ty)
            if v is not None:
                return v
            for k, m in o.rmemo.items():
                if k[1] == n:
                    d = sub(k[0], off)
                    if d == 0 if type(d) is int else S.st.entails_eq(d):
                        return m
            v = s.unk(S, o, off, n, ty)
            # remember the value so that rereads agree
            o2 = S.w(o.id)
            if not any(k in o2.cells for k in range(off, off + n)) and not s.partial(o2, off, n):
                o2.cells[off] = (n, v)
            return v
        # symbolic offset
        m = o.rmemo.get((off, n))
        if m is not None:
            return m
        for k, m in o.rmemo.items():
            if k[1] == n:
                d = sub(k[0], off)
                if d == 0 if type(d) is int else S.st.entails_eq(d):
                    return m
        v = s.read_seg(S, o, off, n, ty)
        if v is not None:
            return v
        if o.cells and (o.const or s.is_table(o, n)):
            v = s.read_table(S, o, off, n, ty)
            if v is not None:
                S.w(o.id).rmemo[(off, n)] = v
                return v
        elif o.cells:
            # the offset may hit a known cell: split on the known cells of this width when few
            cs = [k for k, c in o.cells.items() if c[0] == n]
            if len(cs) <= s.o.get('cell_split', 8):
                for k in cs:
                    if s.need(S, ('eq', sub(off, k))):
                        return o.cells[k][1]
        v = s.unk(S, o, off, n, ty)
        S.w(o.id).rmemo[(off, n)] = v
        return v

    def partial(s, o, off, n):
        for k in range(off - 15, off + n):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                return True
        return False

    def read_seg(s, S, o, off, n, ty):
        """content known through a symbolic copy"""
        if not o.segs or ty.k not in ('int', 'ptr'):
            return None
        st = S.st
        for g in reversed(o.segs):
            so, ln = g[0], g[1]
            inside = st.entails(sub(off, so)) and st.entails(sub(add(so, ln), add(off, n)))
            if inside:
                if g[2] == 'copy':
                    src = S.mem.get(g[3])
                    if src is None or src.gen_ver() != g[5] if False else False:
                        return None
                    if src is None or g[5] != s.ver(src):
                        return None
                    return s.read(S, src, add(g[4], sub(off, so)), n, ty)
                if g[2] == 'fill' and (n == 1 or type(g[3]) is int):
                    return g[3] if n == 1 else int.from_bytes(bytes([g[3] & 255]) * n, 'little')
                return None
            dis = st.entails(sub(so, add(off, n))) or st.entails(sub(off, add(so, ln)))
            if not dis:
                return None
        return None

    def ver(s, o):
        return (len(o.segs), o.maxw)

    def read_mixed(s, S, o, off, n, ty):
        """reassemble from differently sized constant cells"""
        if ty.k not in ('int', 'ptr'):
            return None
        # sub-part of a wider cell
        for k in range(off - 15, off + 1):
            c = o.cells.get(k)
            if c is not None and k + c[0] >= off + n and (k != off or c[0] != n):
                v = c[1]
                if type(v) in (BI,) or v is True or v is False:
                    v = s.toint(S, v)
                if type(v) is int:
                    return (v >> (8 * (off - k))) & ((1 << (8 * n)) - 1)
                if type(v) is Lin:
                    v = s.canU(S, v, c[0] * 8) if not s.isptrish(S, v) else v
                    q = s.divq(S, v, 1 << (8 * (off - k))) if off != k else v
                    return q if off + n == k + c[0] and not s.isptrish(S, v) else s.wrap(S, q, 8 * n)
                return None
        # concatenation of (parts of) cells; the bytes between them are read on their own (unknown ones get a name)
        if type(off) is not int or o.segs or type(o.default) is tuple:
            return None
        r = 0
        p = off
        while p < off + n:
            k = next((k for k in range(p, p - 16, -1) if k in o.cells and k + o.cells[k][0] > p), None)
            if k is None:
                e = next((e for e in range(p + 1, off + n) if e in o.cells), off + n) - p
                while e & (e - 1):
                    e &= e - 1
                while (p - off) % e and e > 1:
                    e >>= 1
                if e == n:
                    return None
                v = 0 if o.default == 'zero' else s.unk(S, o, p, e, ity(8 * e))
                if type(v) is Lin and v.t and o.default != 'zero':
                    S.w(o.id).cells[p] = (e, v)
                    o = S.mem[o.id]
            else:
                cw, v = o.cells[k]
                if v is UNDEF:
                    v = s.unk(S, o, k, cw, ity(8 * cw))
                    S.w(o.id).cells[k] = (cw, v)
                    o = S.mem[o.id]
                if type(v) is BI or v is True or v is False:
                    v = s.toint(S, v)
                if type(v) is not int and type(v) is not Lin:
                    return None
                if s.isptrish(S, v) and cw != n:
                    return None
                e = min(k + cw, off + n) - p
                v = s.canU(S, v, cw * 8)
                if p > k:
                    v = s.divq(S, v, 1 << (8 * (p - k)))
                if p + e < k + cw:
                    v = s.wrap(S, v, 8 * e)
            r = add(r, mul(v, 1 << (8 * (p - off))))
            p += e
        return r

    def is_table(s, o, n):
        """an object whose content is known completely, as elements of this size"""
        if o.kind != 'global' or o.segs or type(o.size) is not int or o.size > 4096 or not all(c[0] == n for c in o.cells.values()):
            return False
        return len(o.cells) * n == o.size or o.default == 'zero' and all(k % n == 0 for k in o.cells)

    def read_table(s, S, o, off, n, ty):
        """constant table at a symbolic index: join of the entries in range"""
        lo, hi = S.st.rng(off)
        inside = lambda k: (lo is None or k >= lo) and (hi is None or k <= hi)
        if not o.const and o.default == 'zero':
            es = [(k, o.cells[k][1] if k in o.cells else 0) for k in range(0, o.size, n) if inside(k)]
        else:
            es = [(k, c[1]) for k, c in o.cells.items() if c[0] == n and inside(k)]
        gone = {k for k, _ in es if S.st.known_ne(sub(off, k))} if len(es) <= 256 else ()
        es = [e for e in es if e[0] not in gone]
        if not es:
            return None
        if all(type(v) is int for _, v in es):
            vs = set(v for _, v in es)
            if len(vs) == 1:
                return es[0][1]
            es.sort()
            runs = []
            for k, v in es:
                if runs:
                    r = runs[-1]
                    if r[1] + n == k and (r[3] is None or v - r[2] == r[3]):
                        r[3] = v - r[2] if r[3] is None else r[3]
                        r[1], r[2] = k, v
                        r[5] += 1
                        continue
                    if r[5] == 2 and r[3] not in (0, 1) and r[1] + n == k:
                        # do not let an accidental pair break the following run
                        runs[-1] = [r[0], r[0], r[4], None, r[4], 1]
                        runs.append([r[1], k, v, v - r[2], r[2], 2])
                        continue
                runs.append([k, k, v, None, v, 1])
            if len(runs) <= s.o.get('table_runs', 24) and all(k in gone for i in range(len(runs) - 1) for k in range(runs[i][1] + n, runs[i + 1][0], n)):
                for i, (k0, k1, _, sl, v0, _) in enumerate(runs):
                    c = True
                    if i + 1 < len(runs):
                        c = ('ge', sub(k1, off))
                    elif lo is None or lo < es[0][0] or hi is None or hi > k1:
                        c = True
                    if s.need(S, c):
                        off2 = S.st.norm(off)
                        if not sl:
                            return v0
                        d = sub(off2, k0)
                        return add(v0, mul(s.divq(S, d, n) if n > 1 else d, sl))
            key = ('tbl', o.id, off, n)
            v = s.memo.get(key)
            if v is None:
                v = s.memo[key] = s.fresh('%s[]' % o.name, min(vs), max(vs))
            return v
        if len(es) <= 64:
            for k, v in es:
                if s.need(S, ('eq', sub(off, k))):
                    return v
        return None

    def store(s, S, p, v, ty):
        ty = s.m.res(ty)
        if ty.k in ('struct', 'arr', 'vec'):
            if v is UNDEF:
                return
            if ty.k == 'struct':
                for i, (e, q) in enumerate(zip(ty.el, s.m.offs(ty))):
                    s.store(S, add(p, q), v[1 + i], e)
            else:
                z = s.m.size(ty.el)
                for i in range(ty.n):
                    s.store(S, add(p, i * z), v[1 + i], ty.el)
            return
        n = s.m.size(ty)
        o, off = s.deref(S, p, n, 'write', True)
        if ty.k == 'int':
            if ty.w == 1 or type(v) is tuple:
                v = tobi(v)
            elif type(v) is int:
                v %= 1 << ty.w
            elif type(v) is Lin:
                lo, hi = S.st.rng(S.st.norm(v)) if type(S.st.norm(v)) is Lin else (0, 0)
                if lo is None or hi is None or lo < -(1 << (ty.w - 1)) or hi >= (1 << ty.w):
                    v = s.canU(S, v, ty.w)
        rel = s.wit_pre(S, o, off, n) if o.wit else ()
        o = s.clobber(S, o, off, n)
        if rel:
            def sub1(i, w):
                if w[1] == n:
                    return v
                if type(v) is int:
                    d = S.st.norm(sub(w[0], off))
                    if type(d) is int:
                        return (v >> (8 * d)) & ((1 << (8 * w[1])) - 1)
                return s.fresh('wit', 0, (1 << (8 * w[1])) - 1)
            s.wit_set(S, o, rel, sub1)
        if type(off) is int and type(o.default) is not tuple:
            o.cells[off] = (n, v)
            if o.segs:
                o.segs = o.segs + ((off, n, 'val', v, 0, None),)
        else:
            o.segs = o.segs + ((off, n, 'val', v, 0, None),)
            if type(v) in (int, Lin) and type(o.default) is not tuple:
                o.rmemo[(off, n)] = v
        o.maxw += 1

    def fill_gaps(s, S, o, off, n):
        """name the unknown content of [off,off+n) so that a copy of it stays equal to the source"""
        if n > 1 << 22:
            raise Unsupported('copy of %d bytes' % n)
        if n > 1 << 22:
            raise Unsupported('copy of %d bytes' % n)
        used = bytearray(n)
        for k, c in o.cells.items():
            for x in range(max(k, off), min(k + c[0], off + n)):
                used[x - off] = 1
        i = 0
        while i < n:
            if used[i]:
                i += 1
                continue
            for w in (8, 4, 2, 1):
                if (off + i) % w == 0 and i + w <= n and not any(used[i:i + w]):
                    break
            v = s.read(S, o, off + i, w, ity(8 * w))
            if o.default == 'zero' and not o.segs and type(v) is int and v == 0:
                S.w(o.id).cells[off + i] = (w, 0)
                o = S.mem[o.id]
            i += w
        return S.mem[o.id]

    def copy_bytes(s, S, dst, src, n, move=False, what='memcpy'):
        n = S.st.norm(s.toint(S, n))
        if type(n) is Lin:
            n = s.canU(S, n, 64)
        if type(n) is int and n == 0:
            return
        if type(n) is Lin:
            # null pointers are fine for n==0
            for q in (dst, src):
                q = S.st.norm(s.toint(S, q))
                if type(q) is int and s.need(S, ('eq', n)):
                    return
        so, soff = s.deref(S, src, n, what + ' source')
        do, doff = s.deref(S, dst, n, what + ' destination', True)
        wv = None
        if do.wit:
            rel = s.wit_pre(S, do, doff, n)
            wv = []
            for w, r in zip(do.wit, rel):
                wv.append(s.read(S, so, S.st.norm(add(soff, sub(w[0], doff))), w[1], ity(8 * w[1])) if r == 'in' else None)
        if type(n) is int and type(soff) is int and type(doff) is int and (n <= 256 or not so.segs):
            if n <= 64 and not so.segs and type(so.default) is not tuple:
                so = s.fill_gaps(S, so, soff, n)
            cs = [(k, c) for k, c in so.cells.items() if k >= soff and k + c[0] <= soff + n]
            if type(so.default) is not tuple:
                for k, c in list(so.cells.items()):
                    x, y = max(k, soff), min(k + c[0], soff + n)
                    if x < y and (k < soff or k + c[0] > soff + n) and y - x <= 8:
                        v = s.read(S, so, x, y - x, ity(8 * (y - x)))
                        if type(v) is int or type(v) is Lin:
                            cs.append((x, (y - x, v)))
            d = s.clobber(S, do, doff, n)
            if wv:
                s.wit_set(S, d, rel, lambda i, w: wv[i])
            for k, c in cs:
                d.cells[doff + k - soff] = c
            if so.segs or d.segs:
                d.segs = d.segs + ((doff, n, 'copy', so.id, soff, s.ver(so)),)
            d.maxw += 1
            return
        d = s.clobber(S, do, doff, n)
        if wv:
            s.wit_set(S, d, rel, lambda i, w: wv[i])
        d.segs = d.segs + ((doff, n, 'copy', so.id, soff, s.ver(so)),)
        d.maxw += 1

    # ------------------------------------------------------------ operands
    def const(s, S, ty, v):
        k = v[0]
        if k == 'i':
            if ty is not None and ty.k == 'int' and ty.w == 1:
                return bool(v[1] & 1)
            return v[1]
        if k == 'g':
            return s.global_ptr(S, v[1])
        if k == 'undef':
            if ty is not None:
                t = s.m.res(ty)
                if t.k in ('struct', 'arr'):
                    els = t.el if t.k == 'struct' else [t.el] * t.n
                    return tuple(['agg'] + [s.const(S, e, v) for e in els])
            return UNDEF
        if k == 'zero':
            t = s.m.res(ty)
            if t.k in ('struct',):
                return tuple(['agg'] + [s.const(S, e, v) for e in t.el])
            if t.k == 'arr':
                return tuple(['agg'] + [s.const(S, t.el, v)] * t.n)
            if t.k in ('double', 'float'):
                return 0.0
            return 0
        if k == 'f':
            return v[1] if v[1] is not None else FT
        if k == 'agg':
            return tuple(['agg'] + [s.const(S, t, x) for t, x in v[1]])
        if k == 'ce':
            if v[1] == 'gep':
                ops = [(t, s.val(S, t, x)) for t, x in v[3]]
                return s.gep(S, v[2], ops)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return s.const(S, v[2][0], v[2][1])
            if v[1] == 'sub':
                return sub(s.const(S, *v[3][0]), s.const(S, *v[3][1]))
            if v[1] == 'trunc':
                return s.const(S, v[2][0], v[2][1])
        raise Unsupported('const %r' % (v,))

    def val(s, S, ty, v):
        if v[0] == 'l':
            try:
                return S.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported('undefined value %%%s in %s' % (v[1], S.frames[-1].func.name))
        if v[0] == 'i':
            if ty.k == 'int' and ty.w == 1:
                return bool(v[1] & 1)
            return v[1]
        return s.const(S, ty, v)

    def gep(s, S, bt, ops):
        p = s.toint(S, ops[0][1])
        t = bt
        for i, (it, iv) in enumerate(ops[1:]):
            if i == 0:
                sz = s.m.size(t)
            else:
                t = s.m.res(t)
                if t.k == 'struct':
                    p = add(p, s.m.offs(t)[iv])
                    t = t.el[iv]
                    continue
                t = t.el
                sz = s.m.size(t)
            iv = s.toint(S, iv)
            if type(iv) is int:
                if iv >= 1 << (it.w - 1):
                    iv -= 1 << it.w
            elif it.w < 64:
                iv = s.canS(S, iv, it.w)
            p = add(p, mul(iv, sz))
        return p

    # ------------------------------------------------------------ stepping
    def loc(s, S):
        r = []
        for f in reversed(S.frames):
            ins = f.ins
            fr = s.m.loc(ins.dbg) if ins is not None and ins.dbg else []
            if not fr and f.func.dbg:
                fl, fn = s.m.scope(f.func.dbg)
                import re
                ln = re.search(r'\bline: (\d+)', s.m.meta.get(f.func.dbg, ''))
                fr = [(fl, int(ln.group(1)) if ln else 0, fn)]
            r.extend(fr)
        return r

    def report(s, S, kind, msg):
        if s.quiet:
            return
        loc = s.loc(S)
        key = (kind, msg if kind == 'check' else '', tuple(loc[:1]), loc[-1] if loc else None)
        if key in s.vkeys:
            return
        s.vkeys.add(key)
        s.viol.append(dict(kind=kind, msg=msg, loc=loc, path=s.path(S)))

    def path(s, S):
        r = []
        t = S.trace
        while t and len(r) < 40:
            r.append(t[0])
            t = t[1]
        return list(reversed(r))

    def goto(s, S, T):
        f = S.frames[-1]
        pb = f.blk
        blk = f.func.blocks[T]
        # phis (simultaneous)
        n = 0
        upd = None
        for ins in blk:
            if ins.op != 'phi':
                break
            n += 1
            v = ins.x[pb]
            if upd is None:
                upd = []
            upd.append((ins.d, s.val(S, ins.ty, v)))
        if upd:
            for d, v in upd:
                f.env[d] = v
        f.prev = pb
        f.blk = T
        f.ip = n
        S.entered = True

    def push(s, S, fn, args, ret=None, nxt=None, post=None):
        parse_body(s.m, fn)
        if len(S.frames) > 120:
            raise Unsupported('call depth (recursion?) in ' + fn.name)
        f = Frame()
        f.func, f.blk, f.prev, f.ip, f.ret, f.nxt, f.ins, f.post = fn, fn.entry, None, 0, ret, nxt, None, post
        f.env = {}
        unn = 0
        for (t, nm), a in zip(fn.params, args):
            f.env[nm if nm is not None else str(unn)] = a
            unn += 1
        f.allocas = []
        S.frames.append(f)
        s.funcs_seen[fn.name] = s.funcs_seen.get(fn.name, 0) + 1
        S.entered = fn.entry in fn.loops
        if s.o.get('join') and '4swoc' in fn.name:
            S.mark = 'call'

    def doret(s, S, v):
        f = S.frames.pop()
        for oid in f.allocas:
            o = S.mem.get(oid)
            if o is not None:
                if s.o.get('keep_dead'):
                    S.w(oid).alive = False
                else:
                    o = S.w(oid)
                    o.alive = False
                    o.cells, o.segs, o.rmemo = {}, (), {}
        if not S.frames:
            S.retval = v
            return False
        if f.post is not None:
            v = f.post(s, S, v)
        c = S.frames[-1]
        if f.ret is not None:
            c.env[f.ret] = v
        if f.nxt is not None:
            s.goto(S, f.nxt)
        if s.o.get('join'):
            S.mark = 'ret'
        return True

    def run(s, S, work):
        """execute S until it ends, forks or enters a block"""
        while True:
            f = S.frames[-1]
            blk = f.func.blocks[f.blk]
            ins = blk[f.ip]
            f.ins = ins
            s.steps += 1
            if s.steps > s.o['max_steps']:
                raise Budget('step budget exhausted')
            try:
                r = s.exec(S, f, ins)
            except Fork as fk:
                s.nforks += 1
                if s.nforks > s.o['max_states']:
                    raise Budget('state budget exhausted')
                line = s.m.loc(ins.dbg)[:1] if ins.dbg else []
                ln = '%s:%d' % (line[0][0].split('/')[-1], line[0][1]) if line else '?'
                alts = fk.alts
                for i, a in enumerate(alts):
                    n = S.copy() if i < len(alts) - 1 else S
                    s.push_alt(n, a, ln, work)
                return
            except Kill as k:
                s.kills[k.why] = s.kills.get(k.why, 0) + 1
                return
            except Viol as v:
                if s.quiet == 0 and loops.infeasible(S.st):
                    s.kills['infeasible'] = s.kills.get('infeasible', 0) + 1
                    return
                s.report(S, v.kind, v.msg)
                s.kills['viol'] = s.kills.get('viol', 0) + 1
                return
            if r == 0:
                f.ip += 1
                continue
            if r == 1:  # control transferred
                if S.entered or S.mark:
                    work.append(S)
                    return
                continue
            if r == 2:  # finished
                s.paths += 1
                if s.onfinish:
                    s.onfinish(S)
                return

    onfinish = None

    def push_alt(s, n, atoms, ln, work):
        try:
            ok = True
            for c in atoms:
                if not s.assume(n, c):
                    ok = False
                    break
            if ok:
                n.trace = ('%s: %s' % (ln, ' & '.join(cshow(c, n) for c in atoms)), n.trace)
                work.append(n)
        except Fork as fk:
            for i, a in enumerate(fk.alts):
                m = n.copy()
                s.push_alt(m, list(a) + list(atoms), ln, work)

    def exec(s, S, f, ins):
        op = ins.op
        env = f.env
        if op == 'load':
            env[ins.d] = s.load(S, s.val(S, irparse.PTR, ins.a[0]), ins.ty)
            return 0
        if op == 'store':
            s.store(S, s.val(S, irparse.PTR, ins.a[1]), s.val(S, ins.ty, ins.a[0]), ins.ty)
            return 0
        if op == 'atomicrmw':
            # one thread: read, combine, write
            p, t = s.val(S, irparse.PTR, ins.a[0]), ins.ty
            old = s.load(S, p, t)
            v = s.val(S, t, ins.a[1])
            s.store(S, p, v if ins.x == 'xchg' else s.binop(S, ins.x, t.w, old, v, ()), t)
            env[ins.d] = old
            return 0
        if op == 'gep':
            env[ins.d] = s.gep(S, ins.ty, [(t, s.val(S, t, v)) for t, v in ins.a])
            return 0
        if op == 'call':
            return s.call(S, f, ins)
        if op == 'icmp':
            env[ins.d] = s.icmp(S, ins.x, ins.ty, s.val(S, ins.ty, ins.a[0]), s.val(S, ins.ty, ins.a[1]))
            return 0
        if op == 'br':
            c = s.tobool(S, s.val(S, ity(1), ins.a[0]))
            if c is not True and c is not False:
                s.symbr.add((f.func.name, f.blk))
            s.goto(S, ins.a[1] if s.need(S, c) else ins.a[2])
            return 1
        if op == 'jmp':
            s.goto(S, ins.a[0])
            return 1
        if op == 'ret':
            v = None
            if ins.a[0] is not None:
                v = s.val(S, ins.ty, ins.a[0])
            if not s.doret(S, v):
                return 2
            if not S.entered:
                # plain call: caller ip already advanced
                return 1
            return 1
        if op in irparse.BINOPS:
            a, b = s.val(S, ins.ty, ins.a[0]), s.val(S, ins.ty, ins.a[1])
            if op[0] == 'f':
                env[ins.d] = fval.narrow(fval.arith(S, op, a, b), ins.ty)
                return 0
            env[ins.d] = s.binop(S, op, ins.ty.w, a, b, ins.x)
            return 0
        if op in irparse.CASTS:
            env[ins.d] = s.cast(S, op, s.val(S, ins.x, ins.a[0]), ins.x, ins.ty)
            return 0
        if op == 'alloca':
            n = 1
            if ins.a[0] is not None:
                n = s.toint(S, s.val(S, ity(64), ins.a[0]))
            sz = mul(n, s.m.size(ins.ty)) if type(n) is Lin else n * s.m.size(ins.ty)
            p = s.newobj(S, (ins.d or '') + '@' + short(f.func.name), sz, 'stack', 'uninit', max(ins.x, 8))
            f.allocas.append(s.objn)
            env[ins.d] = p
            return 0
        if op == 'select':
            c = s.tobool(S, s.val(S, ity(1), ins.a[0]))
            r = s.ev(S, c)
            if r is None:
                a, b = s.val(S, ins.ty, ins.a[1]), s.val(S, ins.ty, ins.a[2])
                if ins.ty.k == 'int' and ins.ty.w == 1:
                    a, b = s.tobool(S, a), s.tobool(S, b)
                    env[ins.d] = cor(cand(c, a), cand(cnot(c), b))
                    return 0
            env[ins.d] = s.val(S, ins.ty, ins.a[1] if s.need(S, c) else ins.a[2])
            return 0
        if op == 'switch':
            v = S.st.norm(s.toint(S, s.val(S, ins.ty, ins.a[0])))
            if type(v) is int:
                M = 1 << ins.ty.w
                for cv, t in ins.a[2]:
                    if (cv - v) % M == 0:
                        s.goto(S, t)
                        return 1
                s.goto(S, ins.a[1])
                return 1
            v = s.canU(S, v, ins.ty.w)
            M = 1 << ins.ty.w
            alts = []
            dflt = []
            for cv, t in ins.a[2]:
                d = sub(v, cv % M)
                r = s.ev(S, ('eq', d))
                if r is True:
                    s.goto(S, t)
                    return 1
                if r is None:
                    alts.append([('eq', d)])
                    dflt.append(('ne', d))
            if not alts:
                s.goto(S, ins.a[1])
                return 1
            raise Fork(alts + [dflt])
        if op == 'extractvalue':
            v = s.val(S, ins.ty, ins.a[0])
            for i in ins.x:
                v = v[1 + i]
            env[ins.d] = v
            return 0
        if op == 'insertvalue':
            v = s.val(S, ins.ty, ins.a[0])
            x = s.val(S, ins.x[1], ins.a[1])
            env[ins.d] = insv(v, ins.x[0], x)
            return 0
        if op == 'unreachable':
            raise Kill('unreachable')
        if op == 'freeze':
            env[ins.d] = s.val(S, ins.ty, ins.a[0])
            return 0
        if op == 'fcmp':
            a, b = s.val(S, ins.ty, ins.a[0]), s.val(S, ins.ty, ins.a[1])
            env[ins.d] = fval.cmp(s, S, ins.x, a, b)
            return 0
        if op == 'fneg':
            a = s.val(S, ins.ty, ins.a[0])
            env[ins.d] = fval.neg(a)
            return 0
        if op == 'resume':
            raise Kill('unwind')
        raise Unsupported('%s in %s: %r' % (op, f.func.name, ins.a))

    def cast(s, S, op, v, ft, tt):
        if op == 'zext':
            if ft.w == 1:
                return tobi(s.tobool(S, v))
            if type(v) is BI:
                return v
            return s.canU(S, v, ft.w)
        if op == 'sext':
            if ft.w == 1:
                c = s.tobool(S, v)
                return -1 if s.need(S, c) else 0
            return s.canS(S, v, ft.w)
        if op == 'trunc':
            if tt.w == 1:
                return s.tobool(S, v)
            if type(v) is BI:
                return v
            v = s.toint(S, v)
            if type(v) is int:
                return v % (1 << tt.w)
            v = S.st.norm(v)
            if type(v) is int:
                return v % (1 << tt.w)
            lo, hi = S.st.rng(v)
            if lo is not None and hi is not None and lo >= -(1 << (tt.w - 1)) and hi < (1 << tt.w):
                return v
            if S.st.entails(v) and S.st.entails(sub((1 << tt.w) - 1, v)):
                return v
            if s.o.get('trunc_hook'):
                s.o['trunc_hook'](s, S, v, ft, tt)
            v = s.canU(S, v, ft.w)
            return s.wrap(S, v, tt.w)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if (ft.k in ('double', 'float')) != (tt.k in ('double', 'float')):
                if tt.k in ('double', 'float'):
                    return FT
                return s.freshw('fbits', tt.w)
            return v
        if op in ('fptoui', 'fptosi'):
            return fval.toint(s, S, v, tt.w, op == 'fptosi')
        if op in ('uitofp', 'sitofp'):
            return fval.fromint(s, S, s.canS(S, v, ft.w) if op == 'sitofp' else s.canU(S, v, ft.w), 24 if tt.k == 'float' else 53)
        if op == 'fptrunc':
            return fval.narrow(v, tt)
        if op == 'fpext':
            return v
        raise Unsupported(op)

    def call(s, S, f, ins):
        cal, args = ins.a
        if cal[0] == 'g':
            name = cal[1]
        else:
            p = S.st.norm(s.toint(S, s.val(S, irparse.PTR, cal)))
            name = None
            if type(p) is Lin and len(p.t) == 1 and p.c == 0 and p.t[0][0] in s.addr2obj:
                o = S.mem.get(s.addr2obj[p.t[0][0]][0])
                if o is not None and o.kind == 'func':
                    name = o.tag
            if name is None:
                h = s.o.get('indirect')
                if h:
                    r = h(s, S, f, ins, p)
                    if r is not None:
                        return r
                raise Viol('wildcall', 'indirect call through unresolved pointer %s' % show(p))
        while name in s.m.aliases:
            name = s.m.aliases[name][1]
        h = s.intr.get(name) if name != 'strncasecmp' or name not in s.m.funcs else None  # a driver may define this one
        if h is None:
            fn = s.m.funcs.get(name)
            if fn is None and name.startswith('vf_init_'):
                # the dynamic initialisation of a source file's statics; nothing if they are all constant initialised
                fn = next((g for n, g in s.m.funcs.items() if n.startswith('_GLOBAL__sub_I_%s.cc' % name[8:])), None)
                if fn is None:
                    h = lambda e, S, ins, a: None
                if name == 'vf_init_inline':
                    # the inline variables: initialisers tied to their variable
                    f.ip += 1
                    for g in reversed(irparse.inline_ctors(s.m)):
                        s.push(S, s.m.funcs[g], [], None, None)
                    return 1
            if fn is None and h is None:
                h = s.intrinsic_by_prefix(name)
                if h is None:
                    raise Unsupported('unmodelled external function %s (called from %s)' % (name, f.func.name))
        if h is not None:
            av = [s.val(S, t, v) if t is not irparse.META else None for t, v in args]
            s.callee = name
            r = h(s, S, ins, av)
            if r == 'pushed':
                return 1
            if ins.d is not None:
                f.env[ins.d] = r
            if ins.x:
                s.goto(S, ins.x)
                return 1
            return 0
        av = [s.val(S, t, v) for t, v in args]
        if ins.x is None:
            f.ip += 1
        s.push(S, fn, av, ins.d, ins.x)
        return 1

    def intrinsic_by_prefix(s, name):
        for p, h in s.intrp:
            if name.startswith(p):
                return h
        return None

    # ------------------------------------------------------------ exploration
    def explore(s, init, ctx=None):
        """ctx = (depth, header, body) of the loop being analysed"""
        work = list(init)
        back, exits = [], []
        while work:
            S = work.pop()
            if ctx is not None and len(S.frames) < ctx[0]:
                exits.append(S)
                continue
            if S.mark:
                mk_, S.mark = S.mark, None
                if mk_ == 'call':
                    import join
                    _, ex = s.explore([S], (len(S.frames), None, ()))
                    work.extend(join.join(s, ex))
                    continue
            if S.entered:
                f = S.frames[-1]
                if ctx is not None and ctx[1] is not None and len(S.frames) == ctx[0]:
                    if f.blk == ctx[1]:
                        back.append(S)
                        continue
                    if f.blk not in ctx[2]:
                        exits.append(S)
                        continue
                S.entered = False
                lp = f.func.loops.get(f.blk)
                if lp is not None and (f.prev not in lp):
                    work.extend(s.handle_loop(S, f.blk, lp))
                    continue
            s.run(S, work)
        return back, exits

    def handle_loop(s, S, hdr, body):
        import loops
        return loops.handle(s, S, hdr, body)

    def analyze(s, entry, setup=None):
        S = State(s.base)
        fn = s.m.funcs[entry]
        s.push(S, fn, [])
        if setup:
            setup(s, S)
        s.explore([S])
        return s


def eq0(d):
    return d == 0 if type(d) is int else ('eq', d)


def BI2(c):
    return tobi(c)


def tobi(c):
    if c is True:
        return 1
    if c is False:
        return 0
    if type(c) is tuple and c and c[0] in ('ge', 'eq', 'ne', 'and', 'or'):
        return BI(c)
    return c


def insv(v, ix, x):
    i = ix[0]
    l = list(v)
    l[1 + i] = x if len(ix) == 1 else insv(v[1 + i], ix[1:], x)
    return tuple(l)


def short(n):
    return n if len(n) < 40 else n[:37] + '...'


def cshow(c, S=None):
    if c is True or c is False:
        return str(c)
    if callable(c):
        return getattr(c, 'desc', 'unfold')
    if c[0] == 'ge':
        return show(c[1]) + '>=0'
    if c[0] == 'eq':
        return show(c[1]) + '==0'
    if c[0] == 'ne':
        return show(c[1]) + '!=0'
    return '(%s %s %s)' % (cshow(c[1]), c[0], cshow(c[2]))


import fval  # noqa: E402 (needs the classes above)
