"""Monitors for the LP layer: set constructors and operations (S09), LP histories (S10), trimming (S11).
Oracles: explicit reference sets and HiGHS; nothing is shared with the code under test."""
import collections
import numpy as np
import swiglpk as g
from scipy.sparse import csr_matrix, csc_matrix
from . import gen, ref, hyl
from .ctx import Skip
from .lp import Oracle, LpiView, read_lpi, INF
from .ref import RSet
from hylaa import lputil
from hylaa.lpinstance import LpInstance, UnsatError
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.stateset import StateSet


# ------------------------------------------------------------------------------------------ S09
def rand_mode(rng, n):
    """a real Mode of dimension n, with or without inputs; (mode, spec)"""
    ha = HybridAutomaton()
    mode = ha.new_mode('m')
    A = gen.rand_A(rng, n)[0]
    mode.set_dynamics(np.array(A, dtype=float))
    sp = {'A': gen.r6(A)}
    if rng.random() < .35:
        B, C, r = gen.rand_inputs(rng, n)
        mode.set_inputs(hyl.farr(B), hyl.farr(C), hyl.farr(r), allow_constants=True)
        sp.update(B=B, Uc=C, Ur=r)
    return mode, sp


def conv(s1, s2):
    """convex hull of two bounded, nonempty reference sets"""
    m1, n1 = s1.H.shape
    m2, n2 = s2.H.shape
    H = np.zeros((m1 + m2 + 2, n1 + n2 + 1))
    H[:m1, :n1] = s1.H
    H[:m1, -1] = -s1.h
    H[m1:m1 + m2, n1:n1 + n2] = s2.H
    H[m1:m1 + m2, -1] = s2.h
    H[-2, -1] = -1
    H[-1, -1] = 1
    h = np.concatenate([np.zeros(m1), s2.h, [0, 1]])
    X = np.hstack([s1.X, s2.X, (s1.off - s2.off)[:, None]])
    return RSet(X, s2.off.copy(), H, h, np.zeros(len(h), dtype=bool))


def msum(sets):
    n = sum(s.nvars for s in sets)
    m = sum(len(s.h) for s in sets)
    H = np.zeros((m, n))
    r = c = 0
    for s in sets:
        H[r:r + len(s.h), c:c + s.nvars] = s.H
        r += len(s.h)
        c += s.nvars
    return RSet(np.hstack([s.X for s in sets]), sum(s.off for s in sets), H,
                np.concatenate([s.h for s in sets]), np.zeros(m, dtype=bool))


def bloatset(s, a):
    n = s.dims
    return msum([s, RSet.box([(-a, a)] * n)])


class Pair:
    """a real lpi and the set it should denote.  lin: later linear maps of the current set are defined
    (no constraint on the current variables is pending)"""

    def __init__(self, lpi, rset, n):
        self.lpi, self.rset, self.n = lpi, rset, n
        self.bm = np.eye(n)
        self.base = rset    # set of the variables the basis matrix is applied to
        self.extra = []     # further summands: (matrix, RSet)
        self.frozen = False
        self.has_inputs = lpi.input_effects_offsets is not None
        self.log = []

    def refresh(self):
        s = self.base.linmap(self.bm)
        if self.extra:
            s = msum([s] + [q.linmap(m) for m, q in self.extra])
        self.rset = s


def make_set(rng, mode, n, ctx):
    kind = str(rng.choice(['box', 'cons', 'zono', 'types', 'lift']))
    c = np.round(rng.uniform(-2, 2, size=n), 2)
    w = np.round(rng.uniform(.02, .6, size=n), 3) * (rng.random(size=n) > .2)
    if kind == 'box':
        box = np.round(np.stack([c - w, c + w], axis=1), 4).tolist()
        lpi = lputil.from_box([tuple(b) for b in box], mode)
        s = RSet.box(box)
    elif kind == 'zono':
        k = int(rng.integers(0, n + 3))
        gens = [np.round(rng.normal(size=n) * .3 * (rng.random(size=n) < .7), 3).tolist() for _ in range(k)]
        lpi = lputil.from_zonotope(c.tolist(), [list(q) for q in gens], mode)
        s = RSet.zono(c, gens)
    elif kind == 'cons':
        C = np.vstack([np.eye(n), -np.eye(n)])
        r = np.concatenate([c + w, w - c])
        for _ in range(int(rng.integers(0, 4))):
            d = np.round(rng.normal(size=n), 2)
            C = np.vstack([C, d])
            r = np.append(r, np.round(d @ c + rng.uniform(0.01, 1) * np.abs(d) @ (w + .01), 4))
        p = rng.permutation(len(r))
        C, r = C[p], r[p]
        arg = C.copy() if rng.random() < .5 else (csr_matrix(C) if rng.random() < .5 else C.tolist())
        lpi = lputil.from_constraints(arg, r.copy() if rng.random() < .5 else r.tolist(), mode)
        s = RSet.polyhedron(C, r)
    elif kind == 'types':
        # explicit row types and names; equalities through an auxiliary column
        C = np.vstack([np.eye(n), -np.eye(n)])
        r = np.concatenate([c + w, w - c])
        C = np.hstack([C, np.zeros((2 * n, 1))])
        d = np.append(np.round(rng.normal(size=n), 2), -1.)
        C = np.vstack([C, d])
        r = np.append(r, 0.)
        types = [g.GLP_UP] * (2 * n) + [g.GLP_FX]
        mid = float(np.round(d[:n] @ c, 4))
        row = np.zeros(n + 1)
        row[n] = 1.
        C = np.vstack([C, row])
        r = np.append(r, mid)
        types.append(g.GLP_UP)
        # some rows as >=
        for i in range(2 * n):
            if rng.random() < .4:
                C[i] = -C[i]
                r[i] = -r[i]
                types[i] = g.GLP_LO
        names = ['n%d' % i for i in range(n + 1)]
        lpi = lputil.from_constraints(csr_matrix(C), r.copy(), mode, types=types, names=names, dims=n)
        P = np.vstack([np.eye(n), -np.eye(n), d[:n]])
        s = RSet.polyhedron(P, np.concatenate([c + w, w - c, [mid]]))
    else:
        # lifted description: left-most columns are the state
        k = int(rng.integers(1, 3))
        M = np.round(rng.normal(size=(n, k)) * .5, 3)
        C = np.zeros((2 * n + 2 * k, n + k))
        C[:n, :n], C[:n, n:] = np.eye(n), -M
        C[n:2 * n, :n], C[n:2 * n, n:] = -np.eye(n), M
        r = np.zeros(2 * n + 2 * k)
        r[:n], r[n:2 * n] = c + w, w - c
        for i in range(k):
            C[2 * n + 2 * i, n + i] = 1
            C[2 * n + 2 * i + 1, n + i] = -1
            lo = rng.uniform(-.5, .4)
            r[2 * n + 2 * i], r[2 * n + 2 * i + 1] = round(lo + .3, 3), round(-lo, 3)
        lpi = lputil.from_constraints(C, r, mode, dims=n)
        X = np.hstack([np.eye(n), np.zeros((n, k))])
        s = RSet(X, np.zeros(n), C, r, np.zeros(len(r), dtype=bool))
    ctx.event('constructed_' + kind)
    return Pair(lpi, s, n), kind


def snapshot(lpi):
    d = read_lpi(lpi)
    return d, list(lpi.get_names()), (lpi.dims, lpi.basis_mat_pos, lpi.cur_vars_offset, lpi.input_effects_offsets)


def same_snapshot(a, b):
    return all(np.array_equal(a[0][k], b[0][k]) for k in a[0]) and a[1] == b[1] and a[2] == b[2]


def compare_set(ctx, lpi, rset, rng, what, tol=1e-6):
    n = rset.dims
    if lpi.dims != n:
        ctx.violation('%s: result has dimension %s, expected %d' % (what, lpi.dims, n))
        return False
    dirs = gen.check_dirs(rng, n, 4)
    want = [rset.sup(d) for d in dirs]
    view = LpiView(lpi)
    got = hyl.lp_sup(lpi, dirs)
    for d, w, q in zip(dirs, want, got):
        enc = view.support(d)
        e = enc[1] if enc[0] == 'opt' else (INF if enc[0] == 'unb' else -INF)
        ctx.event('support_values')
        t = tol * (1 + abs(w))
        if not abs(e - w) <= t:
            ctx.violation('%s: extent along %s is %.9g, expected %.9g' % (what, np.round(d, 4).tolist(), e, w))
            return False
        if not abs(q - w) <= 10 * t:
            ctx.violation('%s: optimum along %s reported as %.9g, expected %.9g' % (what, np.round(d, 4).tolist(), q, w))
            return False
    return True


def s09_case(rng, ctx):
    n = int(rng.choice([1, 2, 3, 4, 7, 11], p=[.22, .22, .24, .24, .04, .04]))
    steps = []
    with hyl.quiet():
        pool = []
        for _ in range(int(rng.integers(1, 4))):
            mode, sp = rand_mode(rng, n)
            p, kind = make_set(rng, mode, n, ctx)
            steps.append(kind)
            pool.append((p, mode, sp))
            if not compare_set(ctx, p.lpi, p.rset, rng, 'constructor ' + kind):
                ctx.spec = {'steps': steps}
                return
        for _ in range(int(rng.integers(2, 7))):
            if p.rset.nvars > 150:
                break
            i = int(rng.integers(len(pool)))
            p, mode, sp = pool[i]
            op = str(rng.choice(['basis', 'scale', 'bloat', 'reset', 'cur', 'inputs', 'msum', 'chull', 'agg', 'query', 'clone'],
                                p=[.1, .08, .1, .14, .1, .08, .1, .1, .1, .07, .03]))
            before = [(q[0], snapshot(q[0].lpi)) for q in pool]
            changed = None
            if op == 'basis':
                if p.frozen or p.extra:
                    continue
                p.bm = np.round(rng.normal(size=(n, n)) * .8 * (rng.random(size=(n, n)) < .8), 3)
                lputil.set_basis_matrix(p.lpi, p.bm.copy())
                p.refresh()
                changed = p
            elif op == 'scale':
                if p.frozen:
                    continue
                a = float(np.round(rng.uniform(.1, 2.5), 2))
                lputil.scale_with_bm(p.lpi, a)
                p.bm = p.bm * a
                p.extra = [(m * a, q) for m, q in p.extra]
                p.refresh()
                changed = p
            elif op == 'bloat':
                if p.frozen:
                    continue
                a = float(np.round(rng.uniform(0, .7), 3)) if rng.random() < .9 else 0.
                lputil.bloat(p.lpi, a, var_name_prefix='bl%d_' % len(steps))
                p.extra.append((np.eye(n), RSet.box([(-a, a)] * n)))
                p.refresh()
                changed = p
            elif op == 'inputs':
                if not p.has_inputs or p.frozen or sp.get('B') is None:
                    continue
                m = len(sp['B'][0])
                IM = np.round(rng.normal(size=(n, m)), 3)
                lputil.add_input_effects_matrix(p.lpi, IM.copy(), mode)
                p.extra.append((IM, RSet.polyhedron(sp['Uc'], sp['Ur'])))
                p.refresh()
                changed = p
            elif op == 'cur':
                d = gen.rand_dir(rng, n)
                k = int(rng.integers(1, 3))
                D = np.vstack([d] + [gen.rand_dir(rng, n) for _ in range(k - 1)])
                rr = []
                for d in D:
                    hi, lo = p.rset.sup(d), -p.rset.sup(-d)
                    rr.append(round(lo + rng.uniform(.3, 1.2) * (hi - lo) + .01, 4))
                ns = p.rset.meet(D, rr)
                if ns.slack() < 1e-3:
                    continue
                lputil.add_curtime_constraints(p.lpi, csr_matrix(D), list(rr) if rng.random() < .5 else np.array(rr))
                p.rset = ns
                p.frozen = True
                changed = p
            elif op == 'reset':
                nd = n  # the pool stays in one dimension, so go there and back through another one sometimes
                via = int(rng.integers(1, 5)) if rng.random() < .3 else None
                for dim in ([via] if via else []) + [nd]:
                    cur = p.rset.dims
                    kw = {}
                    R = None
                    if dim != cur or rng.random() < .7:
                        R = np.round(rng.normal(size=(dim, cur)) * (rng.random(size=(dim, cur)) < .6), 3)
                        kw['reset_csr'] = csr_matrix(R)
                    if rng.random() < .5:
                        k = int(rng.choice([1, 1, 2, 2, 3]))
                        M = np.round(rng.normal(size=(dim, k)) * (rng.random(size=(dim, k)) < .7), 3)
                        lo = rng.uniform(-.5, .4, size=k).round(3)
                        Mc = np.vstack([np.eye(k), -np.eye(k)])
                        Mr = np.concatenate([lo + .25 * (rng.random(size=k) < .8), -lo])
                        if k > 1 and rng.random() < .5:
                            order = [q for i in range(k) for q in (i, k + i)]
                            Mc, Mr = [np.array(q) for q in gen.coupled(rng, Mc[order].tolist(), Mr[order].tolist(), k)]
                        kw.update(minkowski_csr=csr_matrix(M), minkowski_constraints_csr=csr_matrix(Mc),
                                  minkowski_constraints_rhs=Mr.copy())
                    si = bool(rng.random() < .3)
                    lputil.add_reset_variables(p.lpi, mode.mode_id, 0, successor_has_inputs=si, **kw)
                    Rm = np.eye(cur) if R is None else R
                    if 'minkowski_csr' in kw:
                        p.rset = p.rset.linmap_plus(Rm, M, Mc, Mr)
                    else:
                        p.rset = p.rset.linmap(Rm)
                    p.has_inputs = si
                p.base, p.bm, p.extra, p.frozen = p.rset, np.eye(nd), [], False
                if p.has_inputs and sp.get('B') is None:
                    p.has_inputs = False
                changed = p
            elif op == 'clone':
                c = Pair(p.lpi.clone(), p.rset, n)
                c.bm, c.base, c.extra, c.frozen, c.has_inputs = p.bm, p.base, list(p.extra), p.frozen, p.has_inputs
                pool.append((c, mode, sp))
                changed = c
            elif op in ('msum', 'chull', 'agg'):
                k = int(rng.integers(1 if op == 'chull' else 2, 5))
                js = rng.integers(len(pool), size=k)
                ops = [pool[j][0] for j in js]
                tm, tsp = rand_mode(rng, n)
                if op == 'msum':
                    lpi = lputil.minkowski_sum([q.lpi for q in ops], tm)
                    s = msum([q.rset for q in ops])
                elif op == 'chull':
                    lpi = lputil.aggregate_chull([q.lpi for q in ops], tm)
                    s = ops[0].rset
                    for q in ops[1:]:
                        s = conv(s, q.rset)
                else:
                    D = np.linalg.qr(rng.normal(size=(n, n)))[0] if rng.random() < .7 else np.eye(n)
                    for _ in range(int(rng.integers(0, 3))):
                        D = np.vstack([D, rng.normal(size=n)])
                    if rng.random() < .3:
                        D = np.vstack([D, np.zeros(n)])
                    lpi = lputil.aggregate([q.lpi for q in ops], D.copy(), tm)
                    rows, rhs = [], []
                    for d in D:
                        if np.linalg.norm(d) < 1e-6:
                            continue
                        rows += [d, -d]
                        rhs += [max(q.rset.sup(d) for q in ops), max(q.rset.sup(-d) for q in ops)]
                    s = RSet.polyhedron(rows, rhs)
                if op == 'chull' and k == 1:
                    c = Pair(lpi, s, n)
                    c.frozen = True
                    changed = c
                    pool.append((c, pool[js[0]][1], pool[js[0]][2]))
                    c.has_inputs = False
                else:
                    c = Pair(lpi, s, n)
                    changed = c
                    pool.append((c, tm, tsp))
                if s.nvars > 250:
                    break
            else:
                s = p.rset
                c = lputil.get_box_center(p.lpi)
                for j in range(n):
                    e = np.eye(n)[j]
                    w = (s.sup(e) - s.sup(-e)) / 2.
                    if c is None or abs(c[j] - w) > 1e-6 * (1 + abs(w)):
                        ctx.violation('box center %s, expected coordinate %d = %.9g' % (c, j, w))
                r = lputil.compute_radius_inf(p.lpi)
                w = max(max(abs(s.sup(e)), abs(s.sup(-e))) for e in np.eye(n))
                if abs(r - w) > 1e-6 * (1 + w):
                    ctx.violation('radius %.9g, expected %.9g' % (r, w))
                d = gen.rand_dir(rng, n)
                lo, hi = -s.sup(-d), s.sup(d)
                from hylaa.hybrid_automaton import LinearConstraint
                b = float(rng.uniform(lo - .5 * (hi - lo) - .1, hi))
                if abs(b - lo) > 1e-5:
                    got = lputil.check_intersection(p.lpi, LinearConstraint(csr_matrix(d), b))
                    if bool(got) != (b > lo):
                        ctx.violation('check_intersection says %s for minimum %.9g and bound %.9g' % (got, lo, b))
                # membership: a point inside, one just outside
                sup = s.support(d)
                x = sup[2]
                k = int(rng.integers(1, n + 1))
                for sc, want in ((0., True), (.01, False)):
                    y = x + sc * d / np.linalg.norm(d)
                    if want:
                        ok = lputil.is_point_in_lpi((y[:k] + (s.support(-d)[2] - y)[:k] * .5), p.lpi)
                    elif k == n:
                        ok = lputil.is_point_in_lpi(y, p.lpi)
                    else:
                        continue
                    if bool(ok) != want and want and s.nvars and min(s.sup(e) + s.sup(-e) for e in np.eye(n)) < 1e-3:
                        continue  # flat set: rounding of the point decides
                    if bool(ok) != want:
                        ctx.violation('membership of a point %s the set: %s' % ('inside' if want else 'outside', ok))
                ctx.event('queries')
            steps.append(op)
            ctx.event('op_' + op)
            ctx.event('operations')
            for q, snap in before:
                if q is not changed:
                    if not same_snapshot(snap, snapshot(q.lpi)):
                        ctx.violation('%s changed an operand or an unrelated set' % op)
            if changed is not None:
                ok = compare_set(ctx, changed.lpi, changed.rset, rng, 'after ' + '->'.join(steps))
                if not ok:
                    ctx.spec = {'steps': steps}
                    break
    ctx.nontrivial(n, steps)
    ctx.sample({'dims': n, 'steps': steps})


def s09_inputs(rng, ctx):
    """from_input_constraints: the set B U"""
    n = int(rng.choice([1, 2, 3, 4, 7, 11], p=[.22, .22, .24, .24, .04, .04]))
    m = int(rng.integers(1, 4))
    mode, sp = rand_mode(rng, n)
    B = np.round(rng.normal(size=(n, m)) * (rng.random(size=(n, m)) < .7), 3)
    c, w = rng.uniform(-1, 1, size=m).round(3), rng.uniform(.01, .5, size=m).round(3)
    C = np.vstack([np.eye(m), -np.eye(m)])
    r = np.concatenate([c + w, w - c])
    for _ in range(int(rng.integers(0, 3))):
        d = np.round(rng.normal(size=m), 2)
        C = np.vstack([C, d])
        r = np.append(r, d @ c + .4 * np.abs(d) @ w)
    p = rng.permutation(len(r))
    C, r = C[p], r[p]
    kind = int(rng.integers(3))
    b_arg = [B.copy(), csr_matrix(B), B.tolist()][kind]
    c_arg = [csc_matrix(C), csr_matrix(C), C.tolist()][int(rng.integers(3))]
    r_arg = r.copy() if rng.random() < .5 else r.tolist()
    with hyl.quiet():
        lpi = lputil.from_input_constraints(b_arg, c_arg, r_arg, mode)
        s = RSet(B, np.zeros(n), C, r, np.zeros(len(r), dtype=bool))
        compare_set(ctx, lpi, s, rng, 'from_input_constraints')
        t = float(rng.uniform(.05, 1.5))
        lputil.scale_with_bm(lpi, t)
        compare_set(ctx, lpi, s.linmap(np.eye(n) * t), rng, 'scaled input set')
    ctx.event('input_sets')
    ctx.nontrivial('inp', n, m, kind, len(r))
    ctx.sample({'B': B.tolist(), 'C': C.tolist(), 'r': r.tolist()})


# ------------------------------------------------------------------------------------------ S10
class Model:
    """what the LP should be"""

    def __init__(self):
        self.rows = []  # [type, rhs, {col: val}]
        self.names = []
        self.obj = {}
        self.reach = None  # (dims, pos, off)

    def copy(self):
        m = Model()
        m.rows = [[t, r, dict(d)] for t, r, d in self.rows]
        m.names = list(self.names)
        m.obj = dict(self.obj)
        m.reach = self.reach
        return m

    def dense(self):
        A = np.zeros((len(self.rows), len(self.names)))
        for i, (_, _, d) in enumerate(self.rows):
            for c, v in d.items():
                A[i, c] = v
        return A

    def bounds(self):
        lo = np.array([r if t in (g.GLP_LO, g.GLP_FX) else -INF for t, r, _ in self.rows], dtype=float)
        hi = np.array([r if t in (g.GLP_UP, g.GLP_FX) else INF for t, r, _ in self.rows], dtype=float)
        return lo, hi

    def verdict(self):
        """('opt', value) | 'inf' | 'unb' | None when closer than the margin"""
        A = self.dense()
        lo, hi = self.bounds()
        m, n = A.shape
        if m == 0 or n == 0:
            return None
        # least violation
        A2 = np.zeros((2 * m, n + 1))
        A2[:m, :n], A2[m:, :n] = A, A
        A2[:m, n], A2[m:, n] = -1., 1.
        rlo = np.concatenate([np.full(m, -INF), lo])
        rhi = np.concatenate([hi, np.full(m, INF)])
        clo = np.full(n + 1, -INF)
        clo[n] = 0
        c = np.zeros(n + 1)
        c[n] = 1
        r = Oracle(A2, rlo, rhi, clo).minimize(c)
        if r[0] != 'opt':
            return None
        if r[1] > 1e-3:
            # could the objective fall without bound if the right-hand sides allowed it?
            c = np.zeros(n)
            for k, v in self.obj.items():
                c[k] = v
            q = Oracle(A, np.where(np.isfinite(lo), 0., -INF), np.where(np.isfinite(hi), 0., INF)).minimize(c)
            return 'inf' if q[0] == 'opt' else 'infray'
        if r[1] > 1e-9:
            return None
        c = np.zeros(n)
        for k, v in self.obj.items():
            c[k] = v
        o = Oracle(A, lo, hi)
        r = o.minimize(c)
        if r[0] == 'opt':
            if np.max(np.abs(r[2]), initial=0) > 1e5:
                return None
            return ('opt', r[1])
        return 'unb' if r[0] == 'unb' else None


def nice(rng, *size):
    """short decimals, well scaled, sometimes zero"""
    v = np.round(rng.normal(size=size) * 2, 1)
    return v * (rng.random(size=size) < .6)


def read_back(ctx, lpi, m, rng, what):
    A = m.dense()
    if lpi.get_num_rows() != A.shape[0] or lpi.get_num_cols() != A.shape[1]:
        ctx.violation('%s: size (%d, %d) reported, expected %s' % (what, lpi.get_num_rows(), lpi.get_num_cols(), A.shape))
        return False
    got = lpi.get_full_constraints().toarray()
    if got.shape != A.shape or not np.array_equal(got, A):
        ctx.violation('%s: constraint matrix read back differs' % what)
        return False
    if list(lpi.get_types()) != [r[0] for r in m.rows]:
        ctx.violation('%s: row types read back differ' % what)
        return False
    if not np.array_equal(lpi.get_rhs(), np.array([r[1] for r in m.rows], dtype=float)):
        ctx.violation('%s: right-hand sides read back differ' % what)
        return False
    if list(lpi.get_names()) != m.names:
        ctx.violation('%s: names read back differ' % what)
        return False
    if len(m.rows):
        i = int(rng.integers(len(m.rows)))
        row = lpi.get_row(i)
        if row.shape != (1, A.shape[1]) or not np.array_equal(row.toarray()[0], A[i]):
            ctx.violation('%s: row %d read back differs' % (what, i))
        js = [int(j) for j in rng.integers(len(m.rows), size=int(rng.integers(1, 4)))]
        if not np.array_equal(lpi.get_rhs(js), np.array([m.rows[j][1] for j in js], dtype=float)):
            ctx.violation('%s: right-hand sides of rows %s read back differ' % (what, js))
        x, y = int(rng.integers(A.shape[1])), int(rng.integers(A.shape[0]))
        w, h = int(rng.integers(A.shape[1] - x + 1)), int(rng.integers(A.shape[0] - y + 1))
        if not np.array_equal(lpi.get_dense_constraints(x, y, w, h), A[y:y + h, x:x + w]):
            ctx.violation('%s: window (%d,%d,%d,%d) read back differs' % (what, x, y, w, h))
    ctx.event('read_backs')
    return not ctx.viol


def solve(ctx, lpi, m, rng, what):
    """one of the solving entry points; the objective the model has is what counts"""
    dims, off = m.reach
    mode = str(rng.choice(['dir', 'csr', 'csr_off', 'plain', 'feas', 'dirfirst', 'short']))
    cols = None
    direction = None
    if mode in ('dir', 'dirfirst', 'short'):
        k = dims if mode != 'short' else int(rng.integers(1, dims + 1))
        v = nice(rng, k) if rng.random() < .9 else np.zeros(k)
        direction = v if rng.random() < .5 else v.tolist()
        m.obj = {off + i: float(v[i]) for i in range(k)}
        if mode == 'dirfirst':
            lpi.set_minimize_direction(direction)
            direction = None
    elif mode == 'csr':
        v = nice(rng, dims)
        lpi.set_minimize_direction(csr_matrix(v.reshape(1, -1)), is_csr=True)
        m.obj = {off + i: float(v[i]) for i in range(dims) if v[i]}
    elif mode == 'csr_off':
        o = int(rng.integers(0, len(m.names)))
        v = nice(rng, int(rng.integers(1, len(m.names) - o + 1)))
        lpi.set_minimize_direction(csr_matrix(v.reshape(1, -1)), is_csr=True, offset=o)
        m.obj = {o + i: float(v[i]) for i in range(len(v)) if v[i]}
    want = m.verdict()
    fail = bool(rng.random() < .3)
    pick = None
    if mode != 'feas' and rng.random() < .4:
        pick = [int(j) for j in rng.integers(len(m.names), size=int(rng.integers(1, 4)))]
    if want is None:
        ctx.skip('margin')
        # still solved: whatever it answers must not spoil later answers
        try:
            lpi.minimize(direction_vec=direction, fail_on_unsat=fail)
        except RuntimeError:
            pass
        return True
    try:
        if mode == 'feas':
            # feasibility does not depend on the objective that happens to be set, unless it is unbounded
            got = lpi.is_feasible()
            if got != (want not in ('inf', 'infray')):
                ctx.violation('%s: is_feasible()=%s but the program is %s' % (
                    what, got, 'infeasible' if want in ('inf', 'infray') else 'feasible'))
            ctx.event('feasibility')
            return not ctx.viol
        res = lpi.minimize(direction_vec=direction, columns=pick, fail_on_unsat=fail)
        outcome = 'none' if res is None else 'opt'
    except UnsatError:
        outcome = 'unsat'
    except RuntimeError:
        outcome = 'error'
        if mode == 'feas':
            if want not in ('unb', 'infray'):
                ctx.violation('%s: is_feasible() raised' % what)
            return not ctx.viol
    ctx.event('solved_' + outcome)
    if want == 'infray':
        # neither a solution nor a bound exists: anything but an optimum is truthful
        if outcome == 'opt':
            ctx.violation('%s: infeasible program answered with a solution' % what)
        return not ctx.viol
    if want == 'inf':
        if outcome != ('unsat' if fail else 'none'):
            ctx.violation('%s: infeasible program answered with %s (fail_on_unsat=%s)' % (what, outcome, fail))
    elif want == 'unb':
        if outcome != 'error':
            ctx.violation('%s: unbounded program answered with %s' % (what, outcome))
    else:
        if outcome != 'opt':
            ctx.violation('%s: program with optimum %.6g answered with %s' % (what, want[1], outcome))
            return False
        c = np.zeros(len(m.names))
        for k, v in m.obj.items():
            c[k] = v
        full = lpi.minimize(fail_on_unsat=False) if pick is not None else res
        if full is None:
            ctx.violation('%s: same solve repeated says infeasible' % what)
            return False
        x = np.array(full, dtype=float)
        if len(x) != len(m.names):
            ctx.violation('%s: %d values returned for %d columns' % (what, len(x), len(m.names)))
            return False
        A = m.dense()
        lo, hi = m.bounds()
        ax = A @ x
        err = max(np.max(lo - ax, initial=0), np.max(ax - hi, initial=0))
        if err > 1e-5 * (1 + np.max(np.abs(x), initial=0)):
            ctx.violation('%s: returned point violates a constraint by %.3g' % (what, err))
        if abs(c @ x - want[1]) > 1e-5 * (1 + abs(want[1])):
            ctx.violation('%s: optimum %.9g reported, true optimum %.9g' % (what, c @ x, want[1]))
        if pick is not None:
            if len(res) != len(pick):
                ctx.violation('%s: %d values for %d requested columns' % (what, len(res), len(pick)))
            # a second solve at the same optimum may legitimately sit at another vertex; the first one must agree
            # with the optimum in the columns which carry the whole objective
            if set(k for k, v in m.obj.items() if v) <= set(pick):
                val = sum(m.obj[j] * res[pick.index(j)] for j in m.obj if m.obj[j])
                if abs(val - want[1]) > 1e-5 * (1 + abs(want[1])):
                    ctx.violation('%s: requested columns give objective %.9g, optimum is %.9g' % (what, val, want[1]))
            for j, v in zip(pick, res):
                A2 = np.vstack([A, np.eye(len(x))[j]])
                o = Oracle(A2, np.append(lo, v - 1e-5 * (1 + abs(v))), np.append(hi, v + 1e-5 * (1 + abs(v))))
                r = o.minimize(c)
                if r[0] != 'opt' or r[1] > want[1] + 1e-4 * (1 + abs(want[1])):
                    ctx.violation('%s: value of requested column %d belongs to no optimal point' % (what, j))
        ctx.event('optima')
    return not ctx.viol


def s10_case(rng, ctx):
    hist = []
    pool = []
    with hyl.quiet():
        lpi, m = LpInstance(), Model()
        dims = int(rng.choice([1, 2, 3, 4, 12], p=[.24, .24, .24, .24, .04]))
        extra = int(rng.integers(0, 4))
        names = ['c%d' % i for i in range(2 * dims + extra)]
        lpi.add_cols(list(names))
        m.names += names
        lpi.add_rows_equal_zero(dims)
        m.rows += [[g.GLP_FX, 0., {}] for _ in range(dims)]
        off = dims + int(rng.integers(0, extra + 1))
        lpi.set_reach_vars(dims, (0, 0), off, None)
        m.reach = (dims, off)
        pool.append((lpi, m))
        # link and bound so that many objectives are bounded
        if rng.random() < .8:
            M = np.round(rng.normal(size=(dims, dims)), 1)
            A = np.zeros((dims, 2 * dims + extra))
            A[:, :dims] = M
            for i in range(dims):
                A[i, off + i] = -1.
            lpi.set_constraints_csr(csr_matrix(A))
            for i in range(dims):
                m.rows[i][2] = {j: A[i, j] for j in range(A.shape[1]) if A[i, j]}
        if rng.random() < .85:
            c = 2 * dims + extra
            w = np.round(rng.uniform(.5, 5, size=c), 1)
            o = np.round(rng.normal(size=c), 1)
            k0 = len(m.rows)
            lpi.add_rows_less_equal((o + w).tolist())
            lpi.add_rows_with_types([g.GLP_LO] * c, o - w)
            D = np.vstack([np.eye(c), np.eye(c)])
            lpi.set_constraints_csr(csr_matrix(D), offset=(k0, 0))
            m.rows += [[g.GLP_UP, float(v), {i: 1.}] for i, v in enumerate(o + w)]
            m.rows += [[g.GLP_LO, float(v), {i: 1.}] for i, v in enumerate(o - w)]
        nops = int(rng.integers(6, 26))
        for _ in range(nops):
            i = int(rng.integers(len(pool)))
            lpi, m = pool[i]
            nr, nc = len(m.rows), len(m.names)
            op = str(rng.choice(['cols', 'types', 'le', 'eq0', 'csr', 'csc', 'rhs', 'solve', 'reset', 'clone', 'bad', 'drop', 'bm'],
                                p=[.04, .1, .08, .03, .1, .04, .14, .3, .03, .05, .03, .01, .05]))
            if op == 'cols':
                k = int(rng.integers(0, 3))
                nm = ['x%d_%d' % (len(hist), q) for q in range(k)]
                arg = list(nm)
                lpi.add_cols(arg)
                m.names = m.names + nm
            elif op == 'types':
                k = int(rng.integers(1, 4))
                ty = [int(rng.choice([g.GLP_UP, g.GLP_LO, g.GLP_FX], p=[.45, .45, .1])) for _ in range(k)]
                r = [float(np.round(rng.normal() * 3 + (2 if t == g.GLP_UP else -2 if t == g.GLP_LO else 0), 1)) for t in ty]
                lpi.add_rows_with_types(ty, r if rng.random() < .5 else np.array(r))
                m.rows += [[t, v, {}] for t, v in zip(ty, r)]
                B = nice(rng, k, nc)
                lpi.set_constraints_csr(csr_matrix(B), offset=(nr, 0))
                for q in range(k):
                    m.rows[nr + q][2] = {j: B[q, j] for j in range(nc) if B[q, j]}
            elif op == 'le':
                k = int(rng.integers(0, 3))
                r = [float(np.round(rng.normal() * 2 + 4, 1)) for _ in range(k)]
                lpi.add_rows_less_equal(r if rng.random() < .5 else np.array(r, dtype=float))
                m.rows += [[g.GLP_UP, v, {}] for v in r]
            elif op == 'eq0':
                k = int(rng.integers(0, 2))
                lpi.add_rows_equal_zero(k)
                m.rows += [[g.GLP_FX, 0., {}] for _ in range(k)]
            elif op == 'csr' and nr:
                y = int(rng.integers(nr))
                h = int(rng.integers(1, min(3, nr - y) + 1))
                x = int(rng.integers(nc))
                w = int(rng.integers(1, nc - x + 1))
                B = nice(rng, h, w)
                mat = csr_matrix(B)
                lpi.set_constraints_csr(mat, offset=(y, x))
                if not np.array_equal(mat.toarray(), B):
                    ctx.violation('set_constraints_csr changed its argument')
                for q in range(h):
                    m.rows[y + q][2] = {x + j: B[q, j] for j in range(w) if B[q, j]}
            elif op == 'csc' and nr:
                x = int(rng.integers(nc))
                w = int(rng.integers(1, min(2, nc - x) + 1))
                B = nice(rng, nr, w)
                lpi.set_constraints_csc(csc_matrix(B), offset=(0, x))
                for q in range(nr):
                    for j in range(w):
                        m.rows[q][2].pop(x + j, None)
                        if B[q, j]:
                            m.rows[q][2][x + j] = B[q, j]
            elif op == 'rhs' and nr:
                y = int(rng.integers(nr))
                v = float(np.round(m.rows[y][1] + rng.normal() * 2, 1))
                lpi.set_constraint_rhs(y, v)
                m.rows[y][1] = v
            elif op == 'reset':
                lpi.reset_lp()
            elif op == 'bm' and m.reach:
                d, off = m.reach
                BM = np.round(rng.normal(size=(d, d)), 1)
                lputil.set_basis_matrix(lpi, BM)
                for q in range(d):
                    m.rows[q][2] = {j: BM[q, j] for j in range(d) if BM[q, j]}
                    m.rows[q][2][off + q] = m.rows[q][2].get(off + q, 0.) - 1.
            elif op == 'clone' and len(pool) < 4:
                pool.append((lpi.clone(), m.copy()))
            elif op == 'drop' and len(pool) > 1:
                pool.pop(i)
                lpi = m = None
                hist.append('drop')
                continue
            elif op == 'bad':
                try:
                    p = rng.random()
                    if p < .15:
                        lpi.set_constraints_csr(csr_matrix(np.ones((1, 1))), offset=(-1, 0) if rng.random() < .5 else (0, -1))
                    elif p < .25:
                        lpi.set_constraints_csr(csr_matrix(np.ones((1, nc))), offset=(nr, 0))
                    elif p < .5:
                        lpi.set_constraints_csr(csr_matrix(np.ones((1, nc))), offset=(0, 1))
                    elif p < .75:
                        lpi.set_constraints_csc(csc_matrix(np.ones((nr, 1))), offset=(1, nc - 1))
                    else:
                        lpi.set_constraints_csc(csc_matrix(np.ones((nr + 1, 1))), offset=(0, nc - 1))
                    ctx.violation('matrix outside of the program accepted')
                except (RuntimeError, AssertionError):
                    pass
                hist.append('bad')
                ctx.event('refused')
                read_back(ctx, lpi, m, rng, 'after refused write')
                continue
            elif op == 'solve':
                if not solve(ctx, lpi, m, rng, 'after ' + ','.join(hist[-8:])):
                    break
            hist.append(op)
            ctx.event('operations')
            if rng.random() < .25 and not read_back(ctx, lpi, m, rng, 'after ' + ','.join(hist[-8:])):
                break
        if not ctx.viol:
            for lpi, m in pool:
                read_back(ctx, lpi, m, rng, 'at the end of ' + ','.join(hist[-8:]))
                solve(ctx, lpi, m, rng, 'at the end of ' + ','.join(hist[-8:]))
            ctx.event('pools', len(pool))
    ctx.spec = {'hist': hist, 'dims': dims}
    ctx.nontrivial(dims, hist)
    ctx.sample({'dims': dims, 'history': hist})


def s10_faults(rng, ctx):
    """the same while some native solves fail once: the retries must give the right answers"""
    real = g.glp_simplex
    frng = np.random.default_rng(int(rng.integers(1 << 30)))
    last = [False]
    codes = [g.GLP_ESING, g.GLP_ECOND, g.GLP_EFAIL, g.GLP_EITLIM, g.GLP_ETMLIM, g.GLP_EBADB]

    def flaky(lp, params):
        if not last[0] and frng.random() < .4:
            last[0] = True
            ctx.event('faults')
            return int(frng.choice(codes))
        last[0] = False
        return real(lp, params)
    g.glp_simplex = flaky
    try:
        s10_case(rng, ctx)
    finally:
        g.glp_simplex = real


# ------------------------------------------------------------------------------------------ S11
def view_rset(lpi, unit=1.):
    """the real LP as a reference set over its current variables (free of the code under test from here on), in the given unit"""
    d = read_lpi(lpi)
    n = d['A'].shape[1]
    rows, rhs = [], []
    for i in range(d['A'].shape[0]):
        if np.isfinite(d['rhi'][i]):
            rows.append(d['A'][i])
            rhs.append(d['rhi'][i])
        if np.isfinite(d['rlo'][i]):
            rows.append(-d['A'][i])
            rhs.append(-d['rlo'][i])
    X = np.zeros((lpi.dims, n))
    for i in range(lpi.dims):
        X[i, lpi.cur_vars_offset + i] = 1.
    return RSet(X, np.zeros(lpi.dims), np.array(rows), np.array(rhs) / unit, np.zeros(len(rhs), dtype=bool))


def s11_small(rng, ctx):
    """the same with quantities of 1e-4 to 1e-2: nothing about trimming depends on the unit"""
    s11_runs(rng, ctx, unit=float(rng.choice([1e-2, 1e-3, 1e-4])), p_inputs=.3)


def s11_runs(rng, ctx, unit=1., **kw):
    """every continuous step of an analysis: set after = flow(set before, cut by the invariant)"""
    kw.setdefault('p_inv', 1.)
    spec = gen.gen_spec(rng, dims=(1, 3), modes=(1, 3), steps=(5, 16), n_init=(1, 1), p_error=.2, **kw)
    for m in spec['modes']:  # more and harder invariants: several, some redundant, some unsatisfiable later
        if m['A'] is not None and rng.random() < .5:
            n = len(m['A'])
            d = gen.rand_dir(rng, n)
            m['inv'].append([gen.r6(d), float(np.round(rng.uniform(-1, 4), 3))])
    agg = 'un' if rng.random() < .6 else {'type': str(rng.choice(['box', 'arnoldi', 'chull'])), 'deagg': False}
    spec['settings']['agg'] = agg
    spec['settings']['stop_on_concrete_error'] = False
    spec['settings']['stop_on_aggregated_error'] = False
    ctx.spec = dict(spec, unit=unit)
    flows = {}
    cut = [0]
    # the solvers work with an absolute tolerance of 1e-7
    tol = max(1e-5, 1e-6 / unit)
    with hyl.quiet():
        try:
            ha, modes, init, settings = hyl.build(gen.scaled(spec, unit) if unit != 1. else spec)
        except AssertionError:
            raise Skip('infeasible invariant')
        core = hyl.new_core(ha, settings)
        ids = {id(m): i for i, m in enumerate(modes)}
        try:
            core.setup(init)
        except RuntimeError as e:
            if 'No feasible initial' in str(e):
                raise Skip('no feasible initial state')
            raise
        prev = None
        budget = 60
        while not core.is_finished() and budget > 0 and not ctx.viol:
            cur = core.aggdag.get_cur_state()
            before = None
            if cur is not None and cur.mode.a_csr is not None and cur.cur_steps_since_start[0] < settings.num_steps \
                    and not core.took_tt_transition and cur.lpi.get_num_rows() < 300:
                mi = ids[id(cur.mode)]
                m = spec['modes'][mi]
                if mi not in flows:
                    flows[mi] = ref.flow_matrices(m['A'], m.get('B'), spec['step'])
                E, G = flows[mi]
                s0 = view_rset(cur.lpi, unit)
                inv = m.get('inv') or []
                rows = [e[0] for e in inv]
                rhs = [e[1] for e in inv]
                if np.max(np.abs([s0.sup(e) for e in np.vstack([np.eye(s0.dims), -np.eye(s0.dims)])])) < 1e3:
                    before = (cur, cur.cur_step_in_mode, s0, rows, rhs, E, G, m)
            core.do_step()
            if before is None:
                continue
            budget -= 1
            cur, k, s0, rows, rhs, E, G, m = before
            sl = None
            act = [(r, b) for r, b in zip(rows, rhs) if s0.sup(np.array(r)) > b]
            if act:
                # conditions are applied one after the other, each with a decision
                sls = []
                for q in range(1, len(act) + 1):
                    s1 = s0.meet([r for r, _ in act[:q]], [b for _, b in act[:q]])
                    sls.append(s1.slack())
                sl = sls[-1]
                if min(abs(q) for q in sls) < max(1e-6, 1e-6 / unit):
                    ctx.skip('margin')
                    break
            else:
                s1 = s0
            stepped = cur.cur_step_in_mode == k + 1
            if sl is not None and sl < 0:
                ctx.event('emptied')
                if stepped:
                    ctx.violation('mode m%d step %d: no state satisfies the invariant (by %.3g), but the set went on' % (ids[id(cur.mode)], k, -sl))
                break
            if not stepped:
                ctx.violation('mode m%d step %d: states inside the invariant were dropped' % (ids[id(cur.mode)], k))
                break
            if sl is not None:
                cut[0] += 1
                ctx.event('cut')
            else:
                ctx.event('untouched')
            want = s1.linmap(E) if G is None else s1.linmap_plus(E, G, m['Uc'], m['Ur'])
            dirs = gen.check_dirs(rng, want.dims, 3)
            view = view_rset(cur.lpi, unit)
            for d in dirs:
                a, b = want.sup(d), view.sup(d)
                if not abs(a - b) <= tol * (1 + abs(a)):
                    ctx.violation('mode m%d step %d: after trimming and one step the extent along %s is %.8g, expected %.8g' % (
                        ids[id(cur.mode)], k, np.round(d, 3).tolist(), b, a))
                    break
            ctx.event('steps_checked' if unit == 1. else 'small_steps_checked')
    if cut[0]:
        ctx.nontrivial(cut[0], [len(m.get('inv') or []) for m in spec['modes']], spec['num_steps'], str(agg))
    ctx.sample({'spec': spec, 'trimmed_steps': cut[0]})


def s11_inputs(rng, ctx):
    s11_runs(rng, ctx, p_inputs=1.)


def s11_direct(rng, ctx):
    """add_init_constraint / try_replace_init_constraint along a trajectory"""
    n = int(rng.integers(1, 4))
    A = np.array(gen.rand_A(rng, n)[0])
    h = float(rng.choice([.1, .2, .3]))
    ha = HybridAutomaton()
    mode = ha.new_mode('m')
    mode.set_dynamics(A.copy())
    B = None
    if rng.random() < .5:
        B, Uc, Ur = gen.rand_inputs(rng, n)
        mode.set_inputs(hyl.farr(B), hyl.farr(Uc), hyl.farr(Ur), allow_constants=True)
    E, G = ref.flow_matrices(A, B, h)
    mode.init_time_elapse(h)
    hist = []
    with hyl.quiet():
        ini, c = gen.rand_init(rng, 0, n)
        spec = {'init': [dict(ini, mode=0)]}
        st = hyl.build_init(spec, [mode])[0]
        s = list(ref.Explorer({'init': spec['init'], 'modes': [], 'trans': []}).init_sets())[0][1]
        rows = {}
        K = int(rng.integers(2, 9))
        conds = [gen.rand_dir(rng, n) for _ in range(int(rng.integers(1, 3)))]
        for k in range(K):
            for ci, d in enumerate(conds):
                if rng.random() < .3:
                    continue
                hi, lo = s.sup(d), -s.sup(-d)
                b = float(np.round(lo + rng.uniform(.15, 1.3) * (hi - lo), 5))
                if hi - lo < 1e-3:
                    b = float(np.round(hi + .1, 4))
                t = s.meet([d], [b])
                t.soft[:] = False
                t.soft[-1] = True
                if t.slack() < 1e-4:
                    continue
                vec = np.array(d, dtype=float)
                keep = vec.copy()
                bm, iel = st.basis_matrix, st.input_effects_list
                if ci in rows:
                    row, stronger = lputil.try_replace_init_constraint(st.lpi, rows[ci], vec, b, bm, iel)
                    if not stronger and B is not None:
                        # the old condition was added back as the last row; it refers to per-step inputs as well
                        st.invariant_row_list.append(st.lpi.get_num_rows() - 1)
                    hist.append('replace' if stronger else 'keep')
                    ctx.event('replaced' if stronger else 'kept')
                    rows[ci] = row
                else:
                    row = lputil.add_init_constraint(st.lpi, vec, b, bm, iel)
                    rows[ci] = row
                    st.invariant_row_list.append(row)
                    hist.append('add')
                    ctx.event('added')
                if vec.shape != keep.shape or not np.array_equal(vec, keep):
                    ctx.violation('the direction passed in was modified')
                s = t
                compare_set(ctx, st.lpi, s, rng, 'after trimming %s' % ','.join(hist), 1e-5)
                if ctx.viol:
                    break
            if ctx.viol:
                break
            st.step()
            s = s.linmap(E) if G is None else s.linmap_plus(E, G, Uc, Ur)
            hist.append('step')
            if not compare_set(ctx, st.lpi, s, rng, 'after %s' % ','.join(hist), 1e-5):
                break
    ctx.nontrivial(n, B is not None, hist)
    ctx.sample({'history': hist, 'inputs': B is not None})
