"""Joining abstract states at a common control point (option "join").

States that reached the same place with the same set of live objects are merged into one: locations whose values differ
are generalised to fresh symbols; the result keeps the constraints every member implies, plus linear relations between
generalised locations that hold in every member."""
import os
import irparse
import lin
from lin import Lin, add, sub, mul, neg, mk
from loops import same, norm1, infeasible, boolnum


DEBUG = os.environ.get('VF_JOIN')


def locals_in(x, out):
    if type(x) is tuple or type(x) is list:
        if len(x) == 2 and x[0] == 'l' and type(x[1]) is str:
            out.add(x[1])
            return
        for y in x:
            locals_in(y, out)
    elif type(x) is dict:
        for k, y in x.items():
            locals_in(y, out)


def liveness(f):
    """block -> names live on entry"""
    L = getattr(f, 'live', None)
    if L is not None:
        return L
    use, dfn, phiuse = {}, {}, {}
    for b, ins in f.blocks.items():
        u, d = set(), set()
        for i in ins:
            if i.op == 'phi':
                for p, v in i.x.items():
                    s = set()
                    locals_in(v, s)
                    phiuse.setdefault(p, set()).update(s)
            else:
                s = set()
                locals_in(i.a, s)
                locals_in(i.x, s)
                u |= s - d
            if i.d is not None:
                d.add(i.d)
        use[b], dfn[b] = u, d
    L = {b: set(use[b]) for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            out = set(phiuse.get(b, ()))
            for t in irparse.succs(f.blocks[b]):
                out |= L[t]
            n = use[b] | (out - dfn[b])
            if n != L[b]:
                L[b] = n
                ch = True
    f.live = L
    return L


def prune(S):
    """drop dead SSA values of every frame"""
    for f in S.frames:
        blk = f.func.blocks[f.blk]
        lv = set()
        L = liveness(f.func)
        for i in blk[f.ip:]:
            if i.op != 'phi':
                locals_in(i.a, lv)
                locals_in(i.x, lv)
        t = blk[-1]
        for x in irparse.succs(blk):
            lv |= L[x]
            for i in f.func.blocks[x]:
                if i.op != 'phi':
                    break
                if f.blk in i.x:
                    locals_in(i.x[f.blk], lv)
        if f.ret is not None:
            pass
        for k in list(f.env):
            if k not in lv:
                del f.env[k]


def key(E, S):
    ks = []
    for f in S.frames:
        ks.append((f.func.name, f.blk, f.ip, f.prev if any(i.op == 'phi' for i in f.func.blocks[f.blk][f.ip:f.ip + 1]) else None))
    alive = []
    for oid, o in S.mem.items():
        if o.alive and not o.const:
            alive.append((oid, tuple((a, b) for a, b, c in o.wit), o.default, tuple(sorted((k, v[0]) for k, v in o.cells.items()))))
    return (tuple(ks), tuple(sorted(alive, key=repr)), tuple(sorted((k, repr(v)) for k, v in S.ghost.items())), repr(S.retval))


def shape(S):
    return tuple(tuple(sorted(f.env)) for f in S.frames)


def join(E, states):
    if len(states) < 2:
        return states
    groups = {}
    for s in states:
        prune(s)
        groups.setdefault((key(E, s), shape(s)), []).append(s)
    out = []
    for g in groups.values():
        if len(g) == 1:
            out += g
            continue
        g = [s for s in g if not infeasible(s.st)]
        while g:
            A = g[0]
            rest, left = [], []
            for B in g[1:]:
                (rest if compatible(E, A, B) else left).append(B)
            out.append(merge(E, A, rest) if rest else A)
            g = left
    return out


def slots(S):
    for i, f in enumerate(S.frames):
        for k, v in f.env.items():
            yield ('env', i, k), v
    for oid, o in S.mem.items():
        if o.alive and not o.const:
            for off, (w, v) in o.cells.items():
                yield ('mem', oid, off), v


def get(S, k):
    if k[0] == 'env':
        return S.frames[k[1]].env[k[2]]
    return S.mem[k[1]].cells[k[2]][1]


def put(S, k, v):
    if k[0] == 'env':
        S.frames[k[1]].env[k[2]] = v
    else:
        o = S.w(k[1])
        o.cells[k[2]] = (o.cells[k[2]][0], v)


def compatible(E, A, B):
    for oid, o in A.mem.items():
        if o.alive and not o.const:
            b = B.mem[oid]
            if o is b:
                continue
            if o.segs != b.segs:
                return False
            if any(not same(B.st, x[2], y[2]) for x, y in zip(o.wit, b.wit)):
                return False
    for k, v in slots(A):
        w = get(B, k)
        if isptrto(E, A, v) != isptrto(E, B, w):
            return False
        if type(v) is tuple and v and v[0] == 'agg' and not same(B.st, v, w):
            return False
    return True


def isptrto(E, S, v):
    if type(v) is not Lin:
        return None
    v = S.st.norm(v)
    if type(v) is not Lin:
        return None
    b = [x for x, k in v.t if x in E.addr2obj]
    return tuple(b) or None


def merge(E, A, rest):
    from absint import BI, FT, FTop, UNDEF
    W = A.copy()
    for oid in list(W.mem):
        o = W.mem[oid]
        if o.alive and not o.const and any(B.mem[oid] is not A.mem[oid] for B in rest):
            o = W.w(oid)
            o.rmemo = {}
            o.maxw = max(B.mem[oid].maxw for B in [A] + rest) + 1
    gen = []  # (loc, var, valueA, [values in rest])
    for k, v in list(slots(A)):
        vs = [get(B, k) for B in rest]
        if all(v is w or same(B.st, v, w) for B, w in zip(rest, vs)):
            continue
        if any(isinstance(x, FTop) or type(x) is float for x in [v] + vs):
            put(W, k, FT)
            continue
        if any(x is UNDEF for x in [v] + vs):
            put(W, k, UNDEF)
            continue
        if any(type(x) in (BI, tuple, bool) for x in [v] + vs):
            t = E.fresh('j', 0, 1)
            isbi = any(type(x) is BI for x in [v] + vs) or any(type(x) in (int, Lin) for x in [v] + vs) or k[0] == 'mem'
            put(W, k, BI(('ne', t)) if isbi else ('ne', t))
            continue
        t = E.fresh('j')
        pb = isptrto(E, A, v)
        base = 0
        if pb and len(pb) == 1:
            al = E.addr2obj[pb[0]][1]
            base = mul(lin.var(pb[0]), al)
            if any(dict(S.st.norm(x).t).get(pb[0]) != al for S, x in zip([A] + rest, [v] + vs)):
                base = 0
        put(W, k, add(base, t))
        gen.append((k, t, A.st.norm(sub(v, base)), [B.st.norm(sub(x, base)) for B, x in zip(rest, vs)]))
    # constraints of A that every member implies
    st = W.st
    old = A.st
    st.subst, st.ine, st.bnd, st.ne = {}, {}, {}, set()
    st.dirty()
    forms = {}
    allst = [old] + [B.st for B in rest]

    def form(v):
        if type(v) is Lin:
            v = norm1(v)
            z = Lin(0, v.t)
            forms.setdefault(z, set()).add(v.c)
    for S in allst:
        for x, r in S.subst.items():
            d = sub(lin.var(x), r)
            form(d)
            form(neg(d))
        for x, (lo, hi) in S.bnd.items():
            if lo is not None:
                form(sub(lin.var(x), lo))
            if hi is not None:
                form(sub(hi, lin.var(x)))
        for tt, c in S.ine.items():
            form(Lin(c, tt))
    for x, r in old.subst.items():
        d = sub(lin.var(x), r)
        if all(B.st.entails_eq(d) for B in rest):
            st.add_eq(d)
    for z, ks in forms.items():
        w = None
        for S in allst:
            c = None
            for k in sorted(ks):
                if S.entails(add(z, k)):
                    c = k
                    break
            n = S.norm(z)
            lo = n if type(n) is int else S.rng(n)[0]
            if lo is not None and (c is None or -lo < c):
                c = -lo
            if c is None:
                w = None
                break
            w = c if w is None else max(w, c)
        if w is not None:
            st.add_ge(add(z, w))
    for l in old.ne:
        if all(B.st.entails_ne(l) for B in rest):
            st.add_ne(l)
    # intervals and relations of the generalised locations
    mA = {t.t[0][0]: a for _, t, a, _ in gen}
    mB = [{t.t[0][0]: bs[i] for _, t, _, bs in gen} for i in range(len(rest))]
    cs = set()

    def cand(v):
        if type(v) is Lin:
            v = norm1(v)
            cs.add(v)
    from loops import substv
    mem = [(A, mA)] + list(zip(rest, mB))
    for k, t, a, bs in gen:
        x = t.t[0][0]
        lo = hi = None
        rs = [S.st.rng(m[x]) for S, m in mem]
        if all(r[0] is not None for r in rs):
            cand(sub(t, min(r[0] for r in rs)))
        if all(r[1] is not None for r in rs):
            cand(sub(max(r[1] for r in rs), t))
        for S, m in mem:
            v = m[x]
            cand(sub(t, v))
            cand(sub(v, t))
            # bounds through the member's own inequalities
            if type(v) is Lin:
                for y, q in v.t:
                    if abs(q) != 1 or y in E.addr2obj:
                        continue
                    for tt in S.st._index().get(y, ()):
                        c = S.st.ine[tt]
                        co = dict(tt).get(y)
                        # replace y by q*(t - (v - q*y))
                        rest_v = sub(v, mk(0, {y: q}))
                        e = sub(Lin(c, tt), mk(0, {y: co}))
                        cand(add(e, mul(sub(t, rest_v), co * q)))
                    lo, hi = S.st.bounds(y)
                    rest_v = sub(v, mk(0, {y: q}))
                    if lo is not None and lo > -(1 << 62):
                        cand(sub(mul(sub(t, rest_v), q), lo))
                    if hi is not None and hi < 1 << 62:
                        cand(sub(hi, mul(sub(t, rest_v), q)))
    for i, (k, t, a, bs) in enumerate(gen):
        for k2, t2, a2, bs2 in gen[i + 1:]:
            for sg in (1, -1):
                v = sub(add(t, mul(t2, sg)), add(a, mul(a2, sg)))
                cand(v)
                cand(neg(v))
    cs = sorted(cs, key=lambda v: (len(v.t), repr(v.t), v.c))
    for c in cs:
        if st.entails(c):
            continue
        if all(S.st.entails(substv(c, m)) for S, m in mem):
            st.add_ge(c)
    if DEBUG and not E.quiet:
        import sys
        print('JOIN', A.frames[-1].func.name[:50], A.frames[-1].blk, [(k, lin.show(t), lin.show(a), [lin.show(b) for b in bs]) for k, t, a, bs in gen], 'INV', [lin.show(c) for c in cs if st.entails(c)], 'NOT', [lin.show(c) for c in cs if not st.entails(c)][:40], file=sys.stderr)
    W.trace = ('%d paths joined' % (1 + len(rest)), A.trace)
    E.joins = getattr(E, 'joins', 0) + 1
    return W
