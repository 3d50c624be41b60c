"""Numeric abstract domain: conjunctions of integer linear inequalities
(polyhedra restricted to what the analysed code needs, with integer tightening).
Entailment is decided by shortest paths when every relevant constraint is a
difference constraint (zone domain) and by Fourier-Motzkin projection otherwise."""
from math import gcd


class Lin:
    """c + sum(coef*var); immutable"""
    __slots__ = ('c', 't', 'h')

    def __init__(s, c, t):
        s.c, s.t = c, t
        s.h = hash((c, t))

    def __hash__(s):
        return s.h

    def __eq__(s, o):
        return isinstance(o, Lin) and s.c == o.c and s.t == o.t

    def __repr__(s):
        return show(s)


NAMES = {}


def show(v):
    if not isinstance(v, Lin):
        return repr(v)
    r = []
    for x, k in v.t:
        n = NAMES.get(x, 'v%d' % x)
        r.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else str(abs(k)) + '*') + n)
    if v.c or not r:
        r.append('%+d' % v.c)
    return ''.join(r).lstrip('+')


def var(i):
    return Lin(0, ((i, 1),))


def mk(c, d):
    t = tuple(sorted((x, k) for x, k in d.items() if k))
    return Lin(c, t) if t else c


def add(a, b):
    if type(a) is int:
        if type(b) is int:
            return a + b
        return Lin(b.c + a, b.t) if a else b
    if type(b) is int:
        return Lin(a.c + b, a.t) if b else a
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return mk(a.c + b.c, d)


def mul(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(a.c * k, tuple((x, q * k) for x, q in a.t))


def neg(a):
    return mul(a, -1)


def sub(a, b):
    if type(b) is int:
        if type(a) is int:
            return a - b
        return Lin(a.c - b, a.t) if b else a
    return add(a, mul(b, -1))


class Infeasible(Exception):
    pass


STAT = {'ent': 0, 'bf': 0, 'fm': 0}


class Store:
    """constraint store; mutable, cloned on fork"""
    __slots__ = ('subst', 'ine', 'bnd', 'ne', 'memo', 'base', 'idx')

    def __init__(s, base):
        s.subst, s.ine, s.bnd, s.ne = {}, {}, {}, set()
        s.memo = {}
        s.base = base  # shared list: var -> (lo,hi)
        s.idx = None

    def copy(s):
        n = Store(s.base)
        n.subst, n.ine, n.bnd, n.ne = dict(s.subst), dict(s.ine), dict(s.bnd), set(s.ne)
        n.memo = dict(s.memo)
        n.idx = s.idx
        return n

    def dirty(s):
        s.memo = {}
        s.idx = None

    # -- normalise by substitution
    def norm(s, v):
        if type(v) is int or not s.subst:
            return v
        su = s.subst
        for x, _ in v.t:
            if x in su:
                break
        else:
            return v
        c = v.c
        d = {}
        for x, k in v.t:
            r = su.get(x)
            if r is None:
                d[x] = d.get(x, 0) + k
            elif type(r) is int:
                c += k * r
            else:
                c += k * r.c
                for y, q in r.t:
                    d[y] = d.get(y, 0) + k * q
        return mk(c, d)

    def bounds(s, x):
        b = s.bnd.get(x)
        return b if b is not None else s.base[x]

    def rng(s, v):
        """interval of a normalised Lin"""
        if type(v) is int:
            return v, v
        lo = hi = v.c
        for x, k in v.t:
            l, h = s.bounds(x)
            if k < 0:
                l, h = h, l
            if lo is not None:
                lo = None if l is None else lo + k * l
            if hi is not None:
                hi = None if h is None else hi + k * h
        return lo, hi

    # -- adding facts
    def add_ge(s, v):
        """v >= 0; False if contradiction is noticed"""
        v = s.norm(v)
        if type(v) is int:
            return v >= 0
        g = 0
        for _, k in v.t:
            g = gcd(g, k)
        c, t = v.c, v.t
        if g > 1:
            c //= g
            t = tuple((x, k // g) for x, k in t)
        if len(t) == 1:
            x, k = t[0]
            lo, hi = s.bounds(x)
            if k > 0:  # x >= -c
                if lo is not None and lo >= -c:
                    return True
                lo = -c
            else:
                if hi is not None and hi <= c:
                    return True
                hi = c
            if lo is not None and hi is not None and lo > hi:
                return False
            if lo is not None and lo == hi:
                return s._set(x, lo)
            s.bnd[x] = (lo, hi)
            s.dirty()
            return s._rene()
        o = s.ine.get(t)
        if o is not None and o <= c:
            return True
        nt = tuple((x, -k) for x, k in t)
        oo = s.ine.get(nt)
        if oo is not None:
            if oo + c < 0:
                return False
            if oo + c == 0:
                for x, k in t:
                    if abs(k) == 1:
                        del s.ine[nt]
                        s.ine.pop(t, None)
                        return s.add_eq(Lin(c, t))
        s.ine[t] = c
        s.dirty()
        return s._rene()

    def _rene(s):
        if s.ne:
            for l in list(s.ne):
                if l not in s.ne:
                    continue
                lo, hi = s.rng(l)
                if lo == 0:
                    s.ne.discard(l)
                    if not s.add_ge(sub(l, 1)):
                        return False
                elif hi == 0:
                    s.ne.discard(l)
                    if not s.add_ge(sub(neg(l), 1)):
                        return False
                elif len(l.t) == 2:
                    nt = tuple((x, -k) for x, k in l.t)
                    if s.ine.get(l.t) == l.c:
                        s.ne.discard(l)
                        if not s.add_ge(sub(l, 1)):
                            return False
                    elif s.ine.get(nt) == -l.c:
                        s.ne.discard(l)
                        if not s.add_ge(sub(neg(l), 1)):
                            return False
        return True

    def add_eq(s, v):
        v = s.norm(v)
        if type(v) is int:
            return v == 0
        if len(v.t) > 1 and all((k & -k) == abs(k) and s.bounds(x) == (0, 1) for x, k in v.t):
            r = s._bits_eq(v)
            if r is not None:
                return r
            v = s.norm(v)
            if type(v) is int:
                return v == 0
        # choose highest-numbered unit-coefficient non-address variable
        best = None
        for x, k in v.t:
            if abs(k) == 1:
                if best is None or (ISADDR(best[0]) and not ISADDR(x)) or (ISADDR(best[0]) == ISADDR(x) and x > best[0]):
                    best = (x, k)
        if best is None:
            g = 0
            for _, k in v.t:
                g = gcd(g, k)
            if v.c % g:
                return False
            if len(v.t) == 1:
                return s._set(v.t[0][0], -v.c // v.t[0][1])
            s.ine[v.t] = min(s.ine.get(v.t, v.c), v.c)
            n = neg(v)
            s.ine[n.t] = min(s.ine.get(n.t, n.c), n.c)
            s.dirty()
            return True
        x, k = best
        rest = Lin(v.c, tuple((y, q) for y, q in v.t if y != x)) if len(v.t) > 1 else v.c
        return s._set(x, mul(rest, -k))

    def _bits_eq(s, v):
        """v == 0 for a combination of bits with power of two weights: settle it bit by bit from the lowest weight (None if that is not enough)"""
        while True:
            v = s.norm(v)
            if type(v) is int:
                return v == 0
            g = min(abs(k) for _, k in v.t)
            if v.c % g:
                return False
            grp = [x for x, k in v.t if abs(k) == g]
            par = (v.c // g) & 1
            if len(grp) == 1:
                ok = s._set(grp[0], par)
            elif len(grp) == 2:
                x, y = max(grp), min(grp)
                ok = s._set(x, sub(par, var(y)) if par else var(y))
            else:
                return None
            if not ok:
                return False

    def _set(s, x, r):
        lo, hi = s.bounds(x)
        s.bnd.pop(x, None)
        one = {x: r}
        for y, e in list(s.subst.items()):
            if type(e) is Lin and any(z == x for z, _ in e.t):
                q = dict(e.t)
                k = q.pop(x)
                s.subst[y] = add(mk(e.c, q), mul(r, k))
        s.subst[x] = r
        old = [(t, c) for t, c in s.ine.items() if any(z == x for z, _ in t)]
        for t, c in old:
            del s.ine[t]
        s.dirty()
        if lo is not None and not s.add_ge(sub(r, lo)):
            return False
        if hi is not None and not s.add_ge(sub(hi, r)):
            return False
        for t, c in old:
            if not s.add_ge(Lin(c, t)):
                return False
        for l in list(s.ne):
            if any(z == x for z, _ in l.t):
                s.ne.discard(l)
                if not s.add_ne(l):
                    return False
        return True

    def add_ne(s, v):
        v = s.norm(v)
        if type(v) is int:
            return v != 0
        if v.t[0][1] < 0:
            v = neg(v)
        g = 0
        for _, k in v.t:
            g = gcd(g, k)
        if g > 1:
            if v.c % g:
                return True
            v = Lin(v.c // g, tuple((x, k // g) for x, k in v.t))
        if s.entails(v):
            return s.add_ge(sub(v, 1))
        if s.entails(neg(v)):
            return s.add_ge(sub(neg(v), 1))
        s.ne.add(v)
        s.dirty()
        return True

    # -- queries
    def entails(s, v):
        """v >= 0 in every model?"""
        v = s.norm(v)
        if type(v) is int:
            return v >= 0
        lo, hi = s.rng(v)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        g = 0
        for _, k in v.t:
            g = gcd(g, k)
        if g > 1:
            v = Lin(v.c // g, tuple((x, k // g) for x, k in v.t))
        c = s.ine.get(v.t)
        if c is not None and c <= v.c:
            return True
        m = s.memo.get(v)
        if m is None:
            m = s.memo[v] = s._ent(v)
        return m

    def entails_ne(s, v):
        v = s.norm(v)
        if type(v) is int:
            return v != 0
        w = neg(v) if v.t[0][1] < 0 else v
        g = 0
        for _, k in w.t:
            g = gcd(g, k)
        if g > 1:
            if w.c % g:
                return True
            w = Lin(w.c // g, tuple((x, k // g) for x, k in w.t))
        if w in s.ne:
            return True
        return s.entails(sub(v, 1)) or s.entails(sub(neg(v), 1))

    def known_ne(s, v):
        """v != 0 by a recorded disequality (no inference)"""
        v = s.norm(v)
        if type(v) is int:
            return v != 0
        w = neg(v) if v.t[0][1] < 0 else v
        g = 0
        for _, k in w.t:
            g = gcd(g, k)
        if g > 1:
            if w.c % g:
                return True
            w = Lin(w.c // g, tuple((x, k // g) for x, k in w.t))
        return w in s.ne

    def entails_eq(s, v):
        v = s.norm(v)
        if type(v) is int:
            return v == 0
        return s.entails(v) and s.entails(neg(v))

    def _index(s):
        if s.idx is None:
            ix = {}
            for t in s.ine:
                for x, _ in t:
                    ix.setdefault(x, []).append(t)
            s.idx = ix
        return s.idx

    def _gather(s, v):
        ix = s._index()
        vs = set(x for x, _ in v.t)
        work = list(vs)
        ts = set()
        while work:
            x = work.pop()
            for t in ix.get(x, ()):
                if t not in ts:
                    ts.add(t)
                    for y, _ in t:
                        if y not in vs:
                            vs.add(y)
                            work.append(y)
        return vs, ts

    def _ent(s, v):
        STAT['ent'] += 1
        vs, ts = s._gather(v)
        diff = len(v.t) == 1 or (len(v.t) == 2 and v.t[0][1] + v.t[1][1] == 0 and abs(v.t[0][1]) == 1)
        if diff and len(v.t) == 1 and abs(v.t[0][1]) != 1:
            diff = False
        if diff:
            for t in ts:
                if len(t) != 2 or t[0][1] + t[1][1] != 0 or abs(t[0][1]) != 1:
                    diff = False
                    break
        if diff:
            return s._bf(v, vs, ts)
        # try the difference part first (cheap), then general
        return s._fm(v, vs, ts)

    def _bf(s, v, vs, ts):
        STAT['bf'] += 1
        # edges u->w with weight c meaning w <= u + c ; zero node = -1
        adj = {}
        for t in ts:
            c = s.ine[t]
            (x, k), (y, _) = t
            if k < 0:
                x, y = y, x
            # x - y + c >= 0  => y <= x + c
            adj.setdefault(x, []).append((y, c))
        for x in vs:
            lo, hi = s.bounds(x)
            if lo is not None:  # 0 <= x - lo  => zero <= x + (-lo)
                adj.setdefault(x, []).append((-1, -lo))
            if hi is not None:  # x <= 0 + hi
                adj.setdefault(-1, []).append((x, hi))
        # v = x - y + k >= 0  <=> y <= x + k
        src = dst = -1
        for x, k in v.t:
            if k > 0:
                src = x
            else:
                dst = x
        dist = {src: 0}
        q = [src]
        inq = {src}
        cnt = 0
        lim = (len(vs) + 2) * (len(ts) + 2 * len(vs) + 2) + 10
        i = 0
        while i < len(q):
            u = q[i]
            i += 1
            inq.discard(u)
            du = dist[u]
            for w, c in adj.get(u, ()):
                nd = du + c
                if w not in dist or nd < dist[w]:
                    dist[w] = nd
                    if w not in inq:
                        inq.add(w)
                        q.append(w)
            cnt += 1
            if cnt > lim:
                return True  # negative cycle: store itself infeasible
        return dst in dist and dist[dst] <= v.c

    def _cons(s, vs, ts):
        r = [(dict(t), s.ine[t]) for t in ts]
        for x in vs:
            lo, hi = s.bounds(x)
            if lo is not None:
                r.append(({x: 1}, -lo))
            if hi is not None:
                r.append(({x: -1}, hi))
        return r

    def _fm(s, v, vs, ts):
        STAT['fm'] += 1
        cons = s._cons(vs, ts)
        n = sub(neg(v), 1)
        cons.append((dict(n.t), n.c))
        return fm_infeasible(cons)


def fm_infeasible(cons, cap=1500):
    # dedupe: key coef tuple -> min const
    cur = {}

    def put(d, c, dst):
        t = tuple(sorted((x, k) for x, k in d.items() if k))
        if not t:
            return c < 0
        g = 0
        for _, k in t:
            g = gcd(g, k)
        if g > 1:
            c //= g
            t = tuple((x, k // g) for x, k in t)
        o = dst.get(t)
        if o is None or c < o:
            dst[t] = c
            q = dst.get(tuple((x, -k) for x, k in t))
            if q is not None and q + c < 0:
                return True
        return False
    for d, c in cons:
        if put(d, c, cur):
            return True
    nv, neq = -2, 0
    while cur:
        # exact elimination of integer equalities (unimodular changes of variable)
        eq = None
        for t, c in cur.items():
            if t[0][1] > 0 and cur.get(tuple((x, -k) for x, k in t)) == -c:
                eq = (t, c)
                break
        if eq is not None and neq < 60:
            neq += 1
            t, c = eq
            x, a = min(t, key=lambda p: abs(p[1]))
            if abs(a) == 1:
                # x = -(rest)/a
                rep, rc = {y: -k * a for y, k in t if y != x}, -c * a
            else:
                # x = z - sum k_i y_i with a_i = a*k_i + r_i
                rep, rc = {nv: 1}, 0
                for y, k in t:
                    if y != x:
                        q = (2 * k + abs(a)) // (2 * abs(a)) * (1 if a > 0 else -1)
                        if q:
                            rep[y] = -q
                q = (2 * c + abs(a)) // (2 * abs(a)) * (1 if a > 0 else -1)
                rc = -q
                nv -= 1
            new = {}
            for u, e in cur.items():
                co = 0
                for y, k in u:
                    if y == x:
                        co = k
                        break
                d = {y: k for y, k in u if y != x}
                if co:
                    e += co * rc
                    for y, k in rep.items():
                        d[y] = d.get(y, 0) + co * k
                if not any(d.values()):
                    if e < 0:
                        return True
                    continue
                g = 0
                for k in d.values():
                    g = gcd(g, k)
                if co and u in (t, tuple((y, -k) for y, k in t)) and e % g:
                    return True  # the equality has no integer solution
                if put(d, e, new):
                    return True
            cur = new
            continue
        pos, ngt = {}, {}
        for t in cur:
            for x, k in t:
                if k > 0:
                    pos[x] = pos.get(x, 0) + 1
                else:
                    ngt[x] = ngt.get(x, 0) + 1
        best, bc = None, None
        for x in set(pos) | set(ngt):
            cst = pos.get(x, 0) * ngt.get(x, 0) - pos.get(x, 0) - ngt.get(x, 0)
            if bc is None or cst < bc:
                best, bc = x, cst
        x = best
        P, N, nxt = [], [], {}
        for t, c in cur.items():
            k = 0
            for y, q in t:
                if y == x:
                    k = q
                    break
            if k > 0:
                P.append((t, c, k))
            elif k < 0:
                N.append((t, c, -k))
            else:
                o = nxt.get(t)
                if o is None or c < o:
                    nxt[t] = c
        if len(P) * len(N) + len(nxt) > cap:
            return False
        for t, c, k in P:
            for u, e, q in N:
                g = gcd(k, q)
                a, b = q // g, k // g
                d = {}
                for y, w in t:
                    if y != x:
                        d[y] = w * a
                for y, w in u:
                    if y != x:
                        d[y] = d.get(y, 0) + w * b
                if put(d, c * a + e * b, nxt):
                    return True
        cur = nxt
    return False


_ADDR = set()


def ISADDR(x):
    return x in _ADDR
