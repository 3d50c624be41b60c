"""Loop analysis.

A loop whose exit test stays decided in the abstract state is followed exactly.
Otherwise every location changed by the body is generalised (fresh symbol per
header phi / memory cell, keeping its pointer base and stride), and the
strongest conjunction of candidate invariants that the body preserves is found
by filtering (greatest fixpoint over a finite candidate set drawn from entry
values, linear relations between the changed locations and the conditions the
body itself tests).  With a witness address the header is partitioned into
"not yet passed" / "passed" so that per-element facts survive."""
import os
import sys
import lin
import irparse
from lin import Lin, add, sub, mul, neg, mk
from math import gcd

DEBUG = os.environ.get('VF_DEBUG')


class Restart(Exception):
    pass


def isptr(E, v):
    if type(v) is not Lin:
        return None
    b = [x for x, k in v.t if x in E.addr2obj and k == E.addr2obj[x][1]]
    return b[0] if len(b) == 1 else None


def handle(E, S, hdr, body):
    depth = len(S.frames)
    ctx = (depth, hdr, body)
    S.entered = False
    pend = [S]
    exits_all = []
    n = 0
    first = None
    maxun = E.o.get('unroll', 0)
    depth_now = 0
    while pend:
        nxt = []
        depth_now += 1
        for c in pend:
            q = c.copy()
            q.entered = False
            back, exits = E.explore([q], ctx)
            n += 1
            if not back:
                exits_all += exits
                continue
            if not exits and len(back) == 1 and n < E.o['peel']:
                nxt += back
                continue
            if depth_now <= maxun and n < 4000:
                exits_all += exits
                nxt += back
                continue
            if not exits and len(back) > 1 and n < E.o.get('peel_branch', 60) and (E.o.get('peel_all') or decided_header(E, c, hdr, body)):
                nxt += back
                continue
            reg = [b for b in back if not odd_shape(E, c, b, hdr)]
            if not reg:
                exits_all += exits
                nxt += back
                if depth_now > 40:
                    from absint import Unsupported
                    raise Unsupported('loop in %s alternates between null and non-null' % S.frames[-1].func.name)
                continue
            ex, odd = widen(E, c, hdr, body, ctx, reg)
            exits_all += ex
            if odd and depth_now > 40:
                from absint import Unsupported
                raise Unsupported('loop in %s alternates between null and non-null' % S.frames[-1].func.name)
            nxt += odd
        for b in nxt:
            b.entered = False
        pend = nxt
    if E.o.get('join'):
        import join
        exits_all = join.join(E, exits_all)
    return exits_all


def decided_header(E, S, hdr, body):
    """every exit test of the loop is decided by constants (a counted loop): follow it exactly"""
    f = S.frames[-1].func
    for b in body:
        t = f.blocks[b][-1]
        if t.op in ('br', 'switch') and (f.name, b) in E.symbr:
            if any(x not in body for x in irparse.succs(f.blocks[b])):
                return False
    return True


# --------------------------------------------------------------------- diff
def same(st, a, b):
    if a is b:
        return True
    if type(a) in (int, Lin) and type(b) in (int, Lin):
        return st.norm(a) == st.norm(b) or st.entails_eq(sub(a, b))
    if type(a) is tuple and type(b) is tuple and a and b and a[0] == 'agg' and b[0] == 'agg' and len(a) == len(b):
        return all(same(st, x, y) for x, y in zip(a[1:], b[1:]))
    try:
        if hasattr(a, 'c') and hasattr(b, 'c') and not isinstance(a, Lin):
            return a.c == b.c
        return type(a) == type(b) and a == b
    except Exception:
        return False


def odd_shape(E, S, B, hdr):
    """a changed location is a pointer in one state and the null constant in the other: such states are kept apart"""
    def odd(a, b):
        if type(a) not in (int, Lin) or type(b) not in (int, Lin):
            return False
        a, b = S.st.norm(a), B.st.norm(b)
        if type(a) is int and a == 0:
            return isptr(E, b) is not None
        if type(b) is int and b == 0:
            return isptr(E, a) is not None
        return False
    fs, fb = S.frames[-1], B.frames[-1]
    for ins in phis(E, S, hdr):
        if odd(fs.env[ins.d], fb.env[ins.d]):
            return True
    for oid, so in S.mem.items():
        bo = B.mem.get(oid)
        if bo is so or bo is None or not so.alive:
            continue
        for off, (w, v) in so.cells.items():
            c = bo.cells.get(off)
            if c is not None and c[0] == w == 8 and odd(v, c[1]):
                return True
    return False


def phis(E, S, hdr):
    f = S.frames[-1]
    return [ins for ins in f.func.blocks[hdr] if ins.op == 'phi']


def diff(E, S, B, hdr, locs, drops, objs):
    """add to locs / drops the locations whose value differs between S and B; True if something new"""
    new = False
    fs, fb = S.frames[-1], B.frames[-1]
    for ins in phis(E, S, hdr):
        k = ('phi', ins.d)
        if k in locs:
            continue
        if not same(B.st, fs.env[ins.d], fb.env[ins.d]):
            locs[k] = ins.ty
            new = True
    for oid, so in S.mem.items():
        bo = B.mem.get(oid)
        if bo is so or bo is None:
            continue
        if not so.alive:
            continue
        if so.alive != bo.alive:
            raise Restart('lifetime of %s ends inside the loop' % so.name)
        if oid not in objs and (so.segs != bo.segs or so.default != bo.default or so.maxw != bo.maxw):
            objs.add(oid)
            new = True
        for off, (w, v) in so.cells.items():
            k = ('mem', oid, off)
            if k in locs or k in drops:
                continue
            c = bo.cells.get(off)
            if c is None or c[0] != w:
                drops.add(k)
                new = True
            elif not same(B.st, v, c[1]):
                locs[k] = w
                new = True
        for i, (a, b) in enumerate(zip(so.wit, bo.wit)):
            k = ('wit', oid, i)
            if k not in locs and not same(B.st, a[2], b[2]):
                locs[k] = a[1]
                new = True
    for k, v in B.ghost.items():
        if k not in S.ghost or not (S.ghost[k] is v or S.ghost[k] == v):
            if ('ghost', k) not in drops:
                drops.add(('ghost', k))
                new = True
    return new


def getv(S, k):
    if k[0] == 'phi':
        return S.frames[-1].env[k[1]]
    o = S.mem[k[1]]
    if k[0] == 'wit':
        return o.wit[k[2]][2]
    c = o.cells.get(k[2])
    return None if c is None else c[1]


def setv(S, k, v):
    if k[0] == 'phi':
        S.frames[-1].env[k[1]] = v
    else:
        o = S.w(k[1])
        if k[0] == 'wit':
            l = list(o.wit)
            l[k[2]] = (l[k[2]][0], l[k[2]][1], v)
            o.wit = tuple(l)
            return
        o.cells[k[2]] = (o.cells[k[2]][0], v)


def substv(v, m):
    """apply var->Lin map"""
    if type(v) is int:
        return v
    r = v.c
    d = {}
    for x, k in v.t:
        e = m.get(x)
        if e is None:
            d[x] = d.get(x, 0) + k
        elif type(e) is int:
            r += k * e
        else:
            r += k * e.c
            for y, q in e.t:
                d[y] = d.get(y, 0) + k * q
    return mk(r, d)


class Part:
    def __init__(s):
        s.cands = []
        s.init = []  # initial substitutions (state, map)


def widen(E, S, hdr, body, ctx, back0):
    from absint import BI, FT, FTop, UNDEF, Unsupported, Budget, tobi
    E.loopfix += 1
    locs, drops, objs = {}, set(), set()
    S0 = S
    free0 = len(E.base)
    try:
        for b in back0:
            diff(E, S0, b, hdr, locs, drops, objs)
    except Restart as r:
        raise Unsupported('loop in %s: %s' % (S.frames[-1].func.name, r))
    delta = {}
    for rnd in range(12):
        # ---------------- generalised state
        W, gen, free = generalise(E, S0, hdr, locs, drops, objs, back0, delta)
        # harvest conditions in an unconstrained quiet run; discover further changed locations
        E.quiet += 1
        oldh = E.harvest
        E.harvest = set()
        try:
            q = W.copy()
            q.entered = False
            bk, ex = E.explore([q], ctx)
            bk = [b for b in bk if not odd_shape(E, S0, b, hdr)]
        finally:
            E.quiet -= 1
            hv, E.harvest = E.harvest, oldh
            if oldh is not None:
                oldh |= hv
        new = False
        try:
            for b in bk:
                new |= diff(E, W, b, hdr, locs, drops, objs)
        except Restart as r:
            raise Unsupported('loop in %s: %s' % (S.frames[-1].func.name, r))
        # stride consistency
        for k, (t, v0, stride) in gen.items():
            if stride is None:
                continue
            for b in bk:
                x = getv(b, k)
                r = strided(E, b, x, v0, stride)
                if r is None:
                    delta[k] = 'free' if stride == 1 else 1
                    new = True
                    break
        if not new:
            break
    else:
        raise Unsupported('loop in %s: changed locations do not stabilise' % S.frames[-1].func.name)

    # ---------------- candidates
    def vmap(B):
        m = {}
        for k, (t, v0, stride) in gen.items():
            if t is None:
                continue
            x = getv(B, k)
            if x is None:
                return None
            if stride is not None:
                x = strided(E, B, x, v0, stride)
                if x is None:
                    return None
            elif type(x) is BI or type(x) is tuple or type(x) is bool:
                x = boolnum(E, B, x)
            elif type(x) not in (int, Lin):
                return None
            m[t.t[0][0]] = x
        return m
    try:
        m0 = vmap(S0)
    except Exception:
        m0 = None
    if m0 is None:
        raise Unsupported('loop in %s: entry values cannot be generalised' % S.frames[-1].func.name)
    T = set(m0)
    nv0 = len(E.base)
    cs = set()

    def cand(v):
        if type(v) is Lin:
            v = norm1(v)
            if v is not None and abs(v.c) < 1 << 63 and any(x in T for x, _ in v.t):
                cs.add(v)
    gl = list(gen.items())
    for k, (t, v0, stride) in gl:
        if t is None:
            continue
        x0 = m0[t.t[0][0]]
        cand(sub(t, x0))
        cand(sub(x0, t))
        cand(t)
        cand(neg(t))
        if type(x0) is int:
            for c in (1, -1):
                cand(sub(t, x0 + c))
        for b in back0:
            # values the first iteration leaves there
            try:
                mb = vmap(b)
            except Exception:
                mb = None
            if mb is None:
                continue
            y = b.st.norm(mb[t.t[0][0]])
            if type(y) is int or all(z < free0 for z, _ in y.t):
                cand(sub(t, y))
                cand(sub(y, t))
        # contents of tracked cells that the loop does not change
        if k[0] == 'wit' or k[0] == 'phi':
            for oid, o in W.mem.items():
                for i, (wo, wn, wv) in enumerate(o.wit):
                    if ('wit', oid, i) not in locs and type(wv) in (int, Lin):
                        cand(sub(t, wv))
                        cand(sub(wv, t))
    # linear relations from first-iteration deltas
    dl = {}
    for k, (t, v0, stride) in gl:
        if t is None:
            continue
        ds = set()
        for b in back0:
            try:
                mb = vmap(b)
            except Exception:
                mb = None
            if mb is None:
                ds.add(None)
                continue
            d = b.st.norm(sub(mb[t.t[0][0]], m0[t.t[0][0]]))
            ds.add(d if type(d) is int else None)
        dl[k] = list(ds)[0] if len(ds) == 1 else None
    for i, (k, (t, v0, _)) in enumerate(gl):
        for k2, (t2, v2, _) in gl[i + 1:]:
            if t is None or t2 is None:
                continue
            a, b = m0[t.t[0][0]], m0[t2.t[0][0]]
            d1, d2 = dl[k], dl[k2]
            if d1 is not None and d2 is not None and d1 and d2:
                v = sub(mul(sub(t, a), d2), mul(sub(t2, b), d1))
                cand(v)
                cand(neg(v))
            else:
                for sg in (1, -1):
                    v = add(sub(t, a), mul(sub(t2, b), sg))
                    cand(v)
                    cand(neg(v))
    # conditions tested by the body
    first_var = gen['__first__'] if '__first__' in gen else None
    whv = [W.st.norm(h[1]) for h in hv if type(h) is tuple]
    for h in hv:
        if type(h) is tuple:
            continue
        h = W.st.norm(h)
        if type(h) is not Lin:
            continue
        if any(x >= free for x, _ in h.t):
            continue
        for v in (h, neg(h)):
            cand(v)
            cand(add(v, 1))
            cand(sub(v, 1))
            v1 = norm1(v)
            if v1 != v:
                cand(add(v1, 1))
                cand(sub(v1, 1))
    # ---------------- partitions
    parts = partition(E, S0, W, gl, m0, whv, free)
    cs = sorted(cs, key=lambda v: (len(v.t), repr(v.t), v.c))
    live = []
    for pi, pc in enumerate(parts):
        # which candidates hold on entry into this partition
        st = S0.st.copy()
        ok = True
        for c in pc:
            if not st.add_ge(substv(c, m0)):
                ok = False
                break
        feasible = ok and not infeasible(st)
        keep = []
        for c in cs:
            if not feasible or st.entails(substv(c, m0)):
                keep.append(c)
        live.append([feasible, keep])
    # a partition never entered initially starts at bottom
    active = [f for f, _ in live]
    acc = [k for _, k in live]
    rounds = 0
    final = False
    while True:
        rounds += 1
        if rounds > 60:
            raise Unsupported('loop fixpoint in %s does not stabilise' % S.frames[-1].func.name)
        changed = False
        for pi, pc in enumerate(parts):
            if not active[pi]:
                continue
            q = mkstate(E, W, pc, acc[pi])
            if q is None:
                continue
            E.quiet += 1
            try:
                bk, ex = E.explore([q], ctx)
            finally:
                E.quiet -= 1
            for b in bk:
                if odd_shape(E, S0, b, hdr):
                    continue
                mb = vmap(b)
                if mb is None:
                    raise Unsupported('loop in %s: value shape changes' % S.frames[-1].func.name)
                for qi, qc in enumerate(parts):
                    st = b.st
                    if qc:
                        st = b.st.copy()
                        if not all(st.add_ge(substv(c, mb)) for c in qc) or infeasible(st):
                            continue
                    elif infeasible(st):
                        continue
                    if not active[qi]:
                        active[qi] = True
                        changed = True
                    nk = [c for c in acc[qi] if st.entails(substv(c, mb))]
                    if len(nk) != len(acc[qi]):
                        acc[qi] = nk
                        changed = True
        if not changed:
            break
    res, odd = [], []
    for pi, pc in enumerate(parts):
        if not active[pi]:
            continue
        q = mkstate(E, W, pc, acc[pi])
        if q is None:
            continue
        if DEBUG and not E.quiet:
            f = S.frames[-1]
            print('LOOP %s %s part %d: inv %s' % (f.func.name[:60], hdr, pi, ' ; '.join(lin.show(c) + '>=0' for c in acc[pi])), file=sys.stderr)
            print('   locs', {k: (lin.show(g[0]) if g[0] is not None else None, g[2]) for k, g in gl}, 'drops', drops, 'objs', objs, file=sys.stderr)
        q.trace = ('loop %s generalised%s' % (hdr, ' (part %d)' % pi if len(parts) > 1 else ''), q.trace)
        bk, ex = E.explore([q], ctx)
        res += ex
        odd += [b for b in bk if odd_shape(E, S0, b, hdr)]
    return res, odd


def infeasible(st):
    """contradiction anywhere in the numeric element"""
    if not st.ine:
        return False
    seen = set()
    ix = st._index()
    for x in list(ix):
        if x in seen:
            continue
        vs, ts = st._gather(lin.var(x))
        seen |= vs
        if lin.fm_infeasible(st._cons(vs, ts)):
            return True
    return False


def mkstate(E, W, pc, cands):
    q = W.copy()
    q.entered = False
    for c in list(pc) + list(cands):
        if not q.st.add_ge(c):
            return None
    return q


def norm1(v):
    g = 0
    for _, k in v.t:
        g = gcd(g, k)
    if g > 1:
        v = Lin(v.c // g, tuple((x, k // g) for x, k in v.t))
    return v


def boolnum(E, B, x):
    if x is True:
        return 1
    if x is False:
        return 0
    from absint import BI
    c = x.c if type(x) is BI else x
    r = E.ev(B, c)
    if r is None:
        if c[0] == 'ne' and type(c[1]) is Lin:
            lo, hi = B.st.rng(B.st.norm(c[1]))
            if lo == 0 and hi == 1:
                return B.st.norm(c[1])
        return E.fresh('b', 0, 1)
    return 1 if r else 0


def strided(E, B, x, v0, stride):
    """(x - v0)/stride as a Lin, or None"""
    if type(x) not in (int, Lin) or v0 is None:
        return None
    d = B.st.norm(sub(x, v0))
    if type(d) is int:
        return d // stride if d % stride == 0 else None
    if stride == 1:
        return d
    if d.c % stride or any(k % stride for _, k in d.t):
        return None
    return mk(d.c // stride, {y: k // stride for y, k in d.t})


def generalise(E, S0, hdr, locs, drops, objs, back0, delta):
    from absint import BI, FT, FTop, UNDEF
    W = S0.copy()
    gen = {}
    for k in drops:
        if k[0] == 'ghost':
            W.ghost.pop(k[1], None)
            continue
        o = W.w(k[1])
        o.cells.pop(k[2], None)
        if o.default == 'zero':
            o.default = 'unknown'
    for oid in objs:
        o = W.w(oid)
        o.segs = ()
        o.rmemo = {}
        if o.default == 'zero' or type(o.default) is tuple:
            o.default = 'unknown'
        o.maxw += 1000000
    for oid in list(W.mem):
        o = W.mem[oid]
        if o.rmemo and any(b.mem.get(oid) is not None and b.mem[oid].maxw != S0.mem[oid].maxw for b in back0):
            W.w(oid).rmemo = {}
    for k, ty in locs.items():
        x = getv(W, k)
        if x is None:
            continue
        nm = (k[1] if k[0] == 'phi' else '%s+%d' % (W.mem[k[1]].name, k[2])) + "'"
        w = (ty * 8 if type(ty) is int else (64 if ty.k == 'ptr' else ty.w if ty.k == 'int' else 64))
        if isinstance(x, FTop) or type(x) is float:
            setv(W, k, FT)
            gen[k] = (None, None, None)
            continue
        bs = [getv(b, k) for b in back0]
        if x is UNDEF or any(isinstance(b, FTop) for b in bs):
            t = E.fresh(nm, 0, (1 << w) - 1)
            if k[0] == 'mem':
                o = W.w(k[1])
                o.cells.pop(k[2], None)
                gen[k] = (None, None, None)
            else:
                setv(W, k, UNDEF if x is UNDEF else FT)
                gen[k] = (None, None, None)
            continue
        if type(x) in (BI, tuple, bool):
            t = E.fresh(nm, 0, 1)
            setv(W, k, BI(('ne', t)) if type(x) is BI or k[0] == 'mem' else ('ne', t))
            gen[k] = (t, None, None)
            continue
        if any(type(b) is BI or type(b) is tuple or type(b) is bool for b in bs):
            if x in (0, 1):
                t = E.fresh(nm, 0, 1)
                setv(W, k, t)
                gen[k] = (t, None, None)
                continue
        x = W.st.norm(x)
        stride = 'free' if k[0] == 'wit' else delta.get(k)
        if stride is None:
            g = 0
            for b, B in zip(bs, back0):
                if type(b) not in (int, Lin):
                    g = None
                    break
                d = B.st.norm(sub(b, x))
                if type(d) is int:
                    g = gcd(g, d)
                else:
                    if isptr(E, x) is not None:
                        bb = isptr(E, B.st.norm(b))
                        if bb is None or bb != isptr(E, B.st.norm(x)):
                            g = None
                            break
                    g = gcd(g, d.c)
                    for _, q in d.t:
                        g = gcd(g, q)
            stride = g if g is None or g > 0 else 1
            if isptr(E, x) is None and stride is not None and w < 64 and False:
                stride = None
        if stride == 'free' or stride is None:
            t = E.fresh(nm, 0, (1 << w) - 1)
            setv(W, k, t)
            gen[k] = (t, None, None)
        else:
            t = E.fresh(nm)
            v = add(x, mul(t, stride))
            setv(W, k, v)
            gen[k] = (t, x, stride)
    free = len(E.base)
    return W, gen, free


def partition(E, S0, W, gl, m0, whv, free):
    wit = S0.ghost.get('wit')
    if not wit:
        return [[]]
    out = []
    for w in wit:
        w = W.st.norm(w)
        wb = isptr(E, w)
        for k, (t, v0, stride) in gl:
            if t is None or stride is None:
                continue
            cur = add(v0, mul(t, stride))
            if wb is not None and isptr(E, W.st.norm(cur)) != wb:
                continue
            if wb is None and isptr(E, W.st.norm(cur)) is not None:
                continue
            d = sub(cur, w)
            if type(d) is not Lin:
                continue
            out.append(d)
            break
    if not out:
        # accesses by index: compare the accessed offset with the tracked one
        T = {t.t[0][0] for k, (t, v0, st) in gl if t is not None and st is not None}
        lin0 = []
        for d in sorted((d for d in whv if type(d) is Lin), key=repr):
            if any(x >= free for x, _ in d.t) or not any(x in T for x, _ in d.t):
                continue
            if d.t in lin0:
                continue
            lin0.append(d.t)
            out.append(neg(d))
    if not out:
        return [[]]
    parts = [[]]
    for d in out[:2]:
        parts = [p + q for p in parts for q in ([neg(d)], [sub(d, 1)])]
    return parts
