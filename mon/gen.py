"""Random hybrid automata as JSON-able specs.  Guards and invariants are placed around a simulated
centre trajectory so that transitions happen, sets are cut, and boundaries are off the step grid."""
import copy
import numpy as np
from .ref import flow_matrices


def r6(x):
    """round to short decimals so replay files are readable"""
    a = np.round(np.asarray(x, dtype=float), 4) + 0.0
    return a.tolist()


def rand_A(rng, n, kind=None):
    kind = kind or rng.choice(['dense', 'rot', 'clock', 'chain', 'stable', 'sparse', 'affine', 'int'],
                              p=[.16, .16, .16, .08, .16, .08, .12, .08])
    A = np.zeros((n, n))
    if kind == 'dense':
        A = rng.normal(size=(n, n)) * rng.uniform(0.2, 1.2)
    elif kind == 'rot':
        for i in range(0, n - 1, 2):
            w = rng.uniform(0.3, 2.5)
            A[i, i + 1], A[i + 1, i] = w, -w
        if n % 2:
            A[n - 1, n - 1] = rng.uniform(-1, .5)
        A -= np.eye(n) * rng.choice([0, 0.2])
    elif kind == 'clock':
        # last variable constant (affine term), others driven by it
        A[:n - 1, n - 1] = rng.choice([1., 1., -1., 2., .5], size=max(n - 1, 0))
        if n == 1:
            A[0, 0] = rng.uniform(-.5, .5)
    elif kind == 'chain':
        for i in range(n - 1):
            A[i, i + 1] = 1.
        if rng.random() < .4:
            A[n - 1] = rng.normal(size=n) * .5
    elif kind == 'stable':
        M = rng.normal(size=(n, n)) * .5
        A = M - np.eye(n) * (np.abs(M).sum(axis=1).max() * .5 + .2)
    elif kind == 'sparse':
        for _ in range(n):
            A[rng.integers(n), rng.integers(n)] = rng.normal()
    elif kind == 'affine':
        A[:n - 1, :] = rng.normal(size=(max(n - 1, 0), n)) * .7
        if n == 1:
            A[0, 0] = 0.4
    elif kind == 'int':
        A = rng.integers(-1, 2, size=(n, n)).astype(float)
    elif kind == 'zero':
        pass
    return np.array(r6(A)), str(kind)


def rand_inputs(rng, n):
    m = int(rng.choice([1, 1, 2]))
    B = rng.normal(size=(n, m))
    if rng.random() < .5:
        B = (rng.random(size=(n, m)) < .6) * rng.choice([1., -1., .5], size=(n, m))
    if not np.any(B):
        B[rng.integers(n), 0] = 1.
    w = rng.uniform(.05, .4, size=m)
    c = rng.normal(size=m) * .2
    if m == 2 and rng.random() < .3:
        # non-box input set: a triangle
        C = [[-1., 0.], [0., -1.], [1., 1.]]
        r = [w[0] - c[0], w[1] - c[1], w[0] + w[1] + c[0] + c[1]]
    else:
        C, r = [], []
        for i in range(m):
            row = [0.] * m
            row[i] = 1.
            C.append(row)
            r.append(c[i] + w[i])
            C.append([-v for v in row])
            r.append(w[i] - c[i])
    return r6(B), r6(C), r6(r)


def rand_dir(rng, n):
    p = rng.random()
    if p < .45:
        d = np.zeros(n)
        d[rng.integers(n)] = rng.choice([1., -1.])
    elif p < .7:
        d = rng.integers(-2, 3, size=n).astype(float)
    else:
        d = np.round(rng.normal(size=n), 2)
    if not np.any(d):
        d[rng.integers(n)] = 1.
    return d


def rand_init(rng, mi, n, kinds=('box', 'cons', 'zono'), width=None):
    c = np.round(rng.uniform(-2, 2, size=n), 2)
    w = rng.uniform(.02, .5, size=n) if width is None else np.full(n, width)
    flat = rng.random(size=n) < .2
    kind = str(rng.choice(kinds, p=None if len(kinds) != 3 else [.7, .2, .1]))
    if kind == 'box':
        w = np.where(flat, 0, w)
        return {'mode': mi, 'kind': 'box', 'box': r6(np.stack([c - w, c + w], axis=1))}, c
    if kind == 'cons':
        C = np.vstack([np.eye(n), -np.eye(n)])
        r = np.concatenate([c + w, w - c])
        for _ in range(int(rng.integers(1, 3))):
            d = np.round(rng.normal(size=n), 2)
            C = np.vstack([C, d])
            r = np.append(r, d @ c + .5 * np.abs(d) @ w)
        return {'mode': mi, 'kind': 'cons', 'C': r6(C), 'r': r6(r)}, c
    gens = [r6(rng.normal(size=n) * .2) for _ in range(int(rng.integers(1, n + 2)))]
    return {'mode': mi, 'kind': 'zono', 'c': r6(c), 'gens': gens}, c


def simulate_center(spec, mi, c, steps):
    m = spec['modes'][mi]
    E, G = flow_matrices(m['A'], m.get('B'), spec['step'])
    out = [np.array(c, dtype=float)]
    for _ in range(steps):
        out.append(E @ out[-1])
    return out


def added_by_default(t):
    """may the matrix of the added terms be left out, because it is the identity (the default)? (in half of the cases)"""
    M = np.array(t['M'])
    return M.shape[0] == M.shape[1] and np.array_equal(M, np.eye(len(M))) and \
        len(t['Mr']) > 0 and round(abs(float(np.ravel(t['Mr'])[0])) * 1e4) % 2 == 0


def coupled(rng, Mc, Mr, k):
    """a box (rows +e1, -e1, +e2, ..) cut by conditions over several of its terms"""
    up, lo = np.array(Mr[0::2]), -np.array(Mr[1::2])
    Mc, Mr = list(Mc), list(Mr)
    for _ in range(int(rng.integers(1, 3))):
        d = np.round(rng.choice([-1., 1.], size=k) * rng.uniform(.3, 1.5, size=k), 2)
        Mc.append(d.tolist())
        Mr.append(float(d @ (up + lo) / 2 + rng.uniform(.1, .6) * (np.abs(d) @ (up - lo)) / 2))
    return Mc, Mr


def gen_spec(rng, dims=(1, 4), modes=(1, 3), steps=(4, 10), p_inputs=.35, p_inv=.5, p_error=.6,
             p_mink=.2, p_reset=.45, p_dimchange=.25, p_zero=.06, p_selfloop=.15, p_backedge=.25,
             n_init=(1, 2), init_kinds=('box', 'cons', 'zono'), band=.35, step=None, p_tt=.15,
             inv_inputs=True):
    nm = int(rng.integers(modes[0], modes[1] + 1))
    N = int(rng.integers(steps[0], steps[1] + 1))
    h = float(step if step is not None else rng.choice([.1, .15, .2, .25, .05, .125]))
    spec = {'step': h, 'num_steps': N, 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': []}
    base = int(rng.integers(dims[0], dims[1] + 1))
    for i in range(nm):
        n = base
        if i and rng.random() < p_dimchange:
            n = int(rng.integers(dims[0], dims[1] + 1))
        if rng.random() < p_zero:
            A, kind = np.zeros((n, n)), 'zero'
        else:
            A, kind = rand_A(rng, n)
        m = {'name': 'm%d' % i, 'A': r6(A), 'inv': [], 'kind': kind}
        if rng.random() < p_inputs:
            m['B'], m['Uc'], m['Ur'] = rand_inputs(rng, n)
        spec['modes'].append(m)
    ne = 0
    if rng.random() < p_error:
        ne = 1 if rng.random() < .8 else 2
        for j in range(ne):
            spec['modes'].append({'name': 'err%d' % j, 'A': None, 'inv': []})

    # initial states
    centers = {}
    for _ in range(int(rng.integers(n_init[0], n_init[1] + 1))):
        mi = 0 if rng.random() < .75 else int(rng.integers(nm))
        n = len(spec['modes'][mi]['A'])
        ini, c = rand_init(rng, mi, n, init_kinds)
        if spec['modes'][mi]['kind'] == 'affine' or spec['modes'][mi]['kind'] == 'clock':
            if ini['kind'] == 'box' and rng.random() < .8:
                ini['box'][n - 1] = [1., 1.]
                c[n - 1] = 1.
        spec['init'].append(ini)
        centers.setdefault(mi, []).append((c, 0))

    def add_trans(src, dst, traj, at):
        """transition whose guard is crossed near traj[at]"""
        n = len(spec['modes'][src]['A'])
        t = {'src': src, 'dst': dst, 'name': 't%d' % len(spec['trans'])}
        p = rng.random()
        x = traj[at]
        if p < .07:
            t['G'], t['g'] = [], []
        else:
            v = traj[min(at + 1, len(traj) - 1)] - traj[max(at - 1, 0)]
            d = rand_dir(rng, n)
            if d @ v > 0:
                d = -d
            G, g = [d], [d @ x + rng.normal() * .03]
            if rng.random() < band:
                G.append(-d)
                g.append(-(g[0] - rng.uniform(.05, .6)))
            if rng.random() < .25:
                d2 = rand_dir(rng, n)
                G.append(d2)
                g.append(d2 @ x + rng.uniform(0.01, .5))
            t['G'], t['g'] = r6(G), (np.round(g, 4) + .00007 * rng.integers(1, 9, size=len(g))).tolist()
        dd = spec['modes'][dst]['A']
        nd = n if dd is None else len(dd)
        if nd != n or rng.random() < p_reset:
            pr = rng.random()
            if nd == n and pr < .4:
                R = np.diag(rng.choice([1., 1., 1., 0., -1., .5], size=n))
            elif pr < .7:
                R = (rng.random(size=(nd, n)) < .4) * rng.choice([1., -1., .5], size=(nd, n))
            else:
                R = rng.normal(size=(nd, n)) * .6
            t['R'] = r6(R)
        if dd is not None and rng.random() < p_mink:
            k = int(rng.choice([1, 1, 2, 2, 3]))
            t['M'] = r6(rng.normal(size=(nd, k)))
            if rng.random() < .3:
                t['M'] = r6((rng.random(size=(nd, k)) < .6) * 1.)
            elif k == nd and rng.random() < .5:
                t['M'] = np.eye(k).tolist()
            Mc, Mr = [], []
            for i in range(k):
                row = [0.] * k
                row[i] = 1.
                lo = rng.uniform(-.4, .3)
                Mc += [row, [-q for q in row]]
                Mr += [lo + rng.uniform(.02, .3), -lo]
            if k > 1 and rng.random() < .4:
                Mc, Mr = coupled(rng, Mc, Mr, k)
            t['Mc'], t['Mr'] = r6(Mc), r6(Mr)
            if t.get('R') is None and nd != n:
                t['R'] = r6(np.zeros((nd, n)))
        spec['trans'].append(t)
        return t

    # walk modes along the centre trajectories, placing transitions and invariants
    done = set()
    frontier = [(mi, c, 0) for mi, lst in centers.items() for c, _ in lst]
    while frontier and len(spec['trans']) < 5:
        mi, c, s0 = frontier.pop(0)
        if mi in done:
            continue
        done.add(mi)
        rest = max(1, N - s0)
        traj = simulate_center(spec, mi, c, rest)
        if max(np.abs(p).max() for p in traj) > 200:
            continue
        n = len(spec['modes'][mi]['A'])
        targets = [j for j in range(nm) if j not in done and j != mi]
        if targets:
            j = int(rng.choice(targets))
            at = int(rng.integers(1, max(2, min(rest, 6))))
            t = add_trans(mi, j, traj, at)
            x = traj[min(at, len(traj) - 1)]
            R = np.eye(n) if t.get('R') is None else np.array(t['R'])
            if R.shape[1] == len(x):
                frontier.append((j, R @ x, s0 + at))
        if done and rng.random() < p_backedge:
            j = int(rng.choice(sorted(done)))
            if j != mi or rng.random() < p_selfloop * 2:
                add_trans(mi, j, traj, int(rng.integers(1, rest + 1)))
        if ne and rng.random() < .75:
            for j in range(ne):
                t = add_trans(mi, nm + j, traj, int(rng.integers(1, rest + 1)))
                if t.get('R') is not None and len(t['R']) != n:
                    t['R'] = None
                t.pop('M', None)
        m = spec['modes'][mi]
        if rng.random() < p_inv and (inv_inputs or m.get('B') is None):
            for _ in range(int(rng.integers(1, 3))):
                d = rand_dir(rng, n)
                at = int(rng.integers(1, rest + 1))
                x = traj[at]
                if d @ (x - traj[0]) < 0:
                    d = -d
                off = max(d @ traj[0], d @ x) if rng.random() < .3 else d @ x
                b = float(np.round(off + rng.normal() * .05, 4) + .00003 * rng.integers(1, 9))
                m['inv'].append([r6(d), b])
            # keep the initial centre inside most of the time
            for e in m['inv']:
                if np.array(e[0]) @ c > e[1] and rng.random() < .8:
                    e[1] = float(np.array(e[0]) @ c + rng.uniform(.01, .2))
        # time-triggered pair: clock with opposite invariant / guard (same number, off the step grid)
        if m['kind'] == 'clock' and n > 1 and rng.random() < p_tt * 3:
            i = int(rng.integers(n - 1))
            sgn = 1. if traj[-1][i] >= traj[0][i] else -1.
            at = int(rng.integers(1, rest + 1))
            th = sgn * (traj[at][i] - .43 * (traj[at][i] - traj[at - 1][i]))
            th = float(np.round(th, 6))
            row = [0.] * n
            row[i] = sgn
            m['inv'] = [[list(row), th]] if rng.random() < .7 else m['inv'] + [[list(row), th]]
            outs = [t for t in spec['trans'] if t['src'] == mi]
            if outs:
                t = outs[int(rng.integers(len(outs)))]
                t['G'] = [[-v for v in row]]
                t['g'] = [-th]
                spec['tags'].append('tt')
    # drop invariants that are infeasible together
    for m in spec['modes']:
        if m['A'] is None:
            continue
        if m['inv']:
            from .ref import RSet
            s = RSet.polyhedron([e[0] for e in m['inv']], [e[1] for e in m['inv']])
            s.soft[:] = True
            if s.slack() < 1e-3:
                m['inv'] = m['inv'][:1]
    for t in spec['trans']:
        if len(t['g']) > 1:
            from .ref import RSet
            s = RSet.polyhedron(t['G'], t['g'])
            s.soft[:] = True
            if s.slack() < 1e-3:
                t['G'], t['g'] = t['G'][:1], t['g'][:1]
    st = spec['settings']
    if rng.random() < .25:
        st['process_urgent_guards'] = True
    if rng.random() < .3:
        st['do_guard_strengthening'] = False
    if rng.random() < .3:
        st['optimize_tt_transitions'] = False
    if rng.random() < .2:
        st['skip_zero_dynamics_modes'] = False
    if rng.random() < .3:
        name_modes(rng, spec)
    return spec


def name_modes(rng, spec):
    """long names, names which start with other names, blanks"""
    form = str(rng.choice(['location_%d', 'mode %d', '%d', 'x', 'aggregated %d', 'M-%d (heating)']))
    for i, m in enumerate(spec['modes']):
        if m['A'] is not None:
            m['name'] = form % i if '%' in form else form * (i + 1)


def check_dirs(rng, n, extra=2):
    ds = []
    for i in range(n):
        e = np.zeros(n)
        e[i] = 1.
        ds += [e, -e]
    for _ in range(extra):
        d = rng.normal(size=n)
        ds.append(d / np.linalg.norm(d))
    return ds


def side_inputs(rng, n, rows):
    """(B, Uc, Ur) with small inputs which act on the given state variables only"""
    B, C, r = rand_inputs(rng, n)
    B = np.array(B)
    B[[i for i in range(n) if i not in rows]] = 0
    if not np.any(B):
        B[rows[0], 0] = 1.
    return r6(B), C, r6(np.array(r) * .6)


def join_spec(rng, error=False, with_inputs=None):
    """layers of modes with constant speeds; several modes of a layer lead to the same mode of the next layer, each over
    several steps, so that sets of different origin and time meet in the waiting list"""
    n = 3
    h = float(rng.choice([.1, .2, .25]))
    N = int(rng.integers(6, 10))
    spec = {'step': h, 'num_steps': N, 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': ['join']}
    p_in = rng.random() < .3
    with_inputs = p_in if with_inputs is None else with_inputs
    layers = [int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(0, 2))]
    ids = []
    for li, width in enumerate(layers):
        row = []
        for _ in range(width):
            A = np.zeros((n, n))
            A[0, 2] = rng.uniform(.4, 1.)
            A[1, 2] = rng.uniform(-.5, .5)
            if rng.random() < .2:
                A[0, 1] = rng.uniform(-.3, .3)
            m = {'name': 'l%d_%d' % (li, len(row)), 'A': r6(A), 'inv': [], 'kind': 'clock'}
            if with_inputs and rng.random() < .6:
                m['B'], m['Uc'], m['Ur'] = side_inputs(rng, n, [1, 0] if rng.random() < .3 else [1])
            spec['modes'].append(m)
            row.append(len(spec['modes']) - 1)
        ids.append(row)
    cut = np.cumsum(rng.uniform(.15, .45, size=4)) + .3
    for li in range(3):
        for a in ids[li]:
            targets = list(ids[li + 1])
            rng.shuffle(targets)
            for b in targets[:int(rng.integers(1, 3))]:
                lo = cut[li] + rng.uniform(-.05, .05)
                G, g = [[-1., 0., 0.]], [-lo]
                if rng.random() < .6:
                    G.append([1., 0., 0.])
                    g.append(lo + rng.uniform(.1, .5))
                if rng.random() < .3:
                    d = float(rng.choice([-1, 1]))
                    G.append([0., d, 0.])
                    g.append(rng.uniform(0, .4))
                t = {'src': int(a), 'dst': int(b), 'name': 't%d' % len(spec['trans']), 'G': r6(G),
                     'g': (np.round(g, 4) + .00007 * rng.integers(1, 9, size=len(g))).tolist()}
                if rng.random() < .3:
                    R = np.eye(n)
                    R[1] = [rng.uniform(-.2, .2), rng.choice([1., .5, 0.]), rng.uniform(-.3, .3)]
                    t['R'] = r6(R)
                spec['trans'].append(t)
            if rng.random() < .6:
                hi = cut[li] + rng.uniform(.1, .5)
                spec['modes'][a]['inv'] = [[[1., 0., 0.], float(np.round(hi, 4) + .00003)]]
    for a in ids[0]:
        for _ in range(int(rng.integers(1, 3))):
            c = r6(rng.uniform(-.2, .2, size=2))
            w = r6(rng.uniform(.02, .2, size=2))
            spec['init'].append({'mode': a, 'kind': 'box', 'box': [[c[0] - w[0], c[0] + w[0]], [c[1] - w[1], c[1] + w[1]], [1., 1.]]})
    if error:
        spec['modes'].append({'name': 'err', 'A': None, 'inv': []})
        for a in ids[1] + ids[2] + ids[3]:
            if rng.random() < .5:
                d = rand_dir(rng, 2)
                spec['trans'].append({'src': int(a), 'dst': len(spec['modes']) - 1, 'name': 'e%d' % a,
                                      'G': r6([[d[0], d[1], 0.]]),
                                      'g': [float(np.round(-np.abs(d).sum() * rng.uniform(.2, .9), 4))]})
    return spec


def scaled(spec, unit):
    """the same automaton with every quantity measured in another unit"""
    s2 = copy.deepcopy(spec)

    def mul(o, key):
        if o.get(key) is not None:
            o[key] = (np.array(o[key], dtype=float) * unit).tolist()
    for m in s2['modes']:
        mul(m, 'Ur')
        m['inv'] = [[r, b * unit] for r, b in m.get('inv') or []]
    for t in s2['trans']:
        mul(t, 'g')
        mul(t, 'Mr')
    for i in s2['init']:
        for key in ('box', 'r', 'c', 'gens'):
            mul(i, key)
    return s2


def meet_spec(rng, with_inputs=None):
    """two or three sets which enter the same mode at the same step, spread out, then one or two further modes"""
    n = 3
    h = float(rng.choice([.2, .25, .5]))
    k = int(rng.integers(2, 4))
    spec = {'step': h, 'num_steps': int(rng.integers(6, 10)), 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': ['meet']}
    src = int(rng.integers(2, 4))
    tail = int(rng.integers(2, 4))
    v = rng.uniform(.8, 1.2)
    p_in = rng.random() < .35
    with_inputs = p_in if with_inputs is None else with_inputs
    for i in range(src + tail):
        A = np.zeros((n, n))
        A[0, 2] = v
        if rng.random() < .4:
            A[1, 1] = rng.uniform(-.3, .3)
        if rng.random() < .3:
            A[1, 2] = rng.uniform(-.2, .2)
        m = {'name': 'm%d' % i, 'A': r6(A), 'inv': [], 'kind': 'clock'}
        if with_inputs and rng.random() < .7:
            m['B'], m['Uc'], m['Ur'] = side_inputs(rng, n, [1])
        spec['modes'].append(m)
    d = v * h
    cut = k * d
    late = int(rng.random() < .3)
    for i in range(src):
        off = late * i * (i == src - 1) * d  # sometimes one of them comes a step later
        y = rng.uniform(-1.5, 1.5)
        w = rng.uniform(.02, .12)
        spec['init'].append({'mode': i, 'kind': 'box', 'box': r6([[-off, .2 * d - off], [y - w, y + w], [1., 1.]])})
        # the set is past the guard at step k, and left its mode at step k - 1 at the latest
        spec['modes'][i]['inv'] = [[[1., 0., 0.], float(np.round(cut - .3 * d, 4))]]
        spec['trans'].append({'src': i, 'dst': src, 'name': 't%d' % i, 'G': [[-1., 0., 0.]], 'g': [-float(np.round(cut - .1 * d, 4))]})
    at = cut
    for i in range(src, src + tail - 1):
        at += d * int(rng.integers(1, 4))
        lo = at - .25 * d
        G, g = [[-1., 0., 0.]], [-float(np.round(lo, 4))]
        if rng.random() < .8:
            G.append([1., 0., 0.])
            g.append(float(np.round(lo + d * rng.choice([.7, 1.6]), 4)))
        spec['trans'].append({'src': i, 'dst': i + 1, 'name': 't%d' % len(spec['trans']), 'G': r6(G), 'g': g})
        if rng.random() < .5:
            spec['modes'][i]['inv'] = [[[1., 0., 0.], float(np.round(lo + d * 2.3, 4))]]
    return spec


def wide_spec(rng, error=True):
    """a long chain of modes with many variables, inputs and added terms (two-digit numbers of each), in which the centre
    of the small initial set reaches the end"""
    K = int(rng.integers(8, 15))
    h = float(rng.choice([.1, .125, .2]))
    spec = {'step': h, 'num_steps': 0, 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': ['wide']}
    n = int(rng.integers(9, 14))
    x = np.round(rng.uniform(-1, 1, size=n), 2)
    x[n - 1] = 1.
    w = rng.uniform(.002, .02, size=n) * (rng.random(size=n) < .8)
    w[n - 1] = 0.
    spec['init'].append({'mode': 0, 'kind': 'box', 'box': r6(np.stack([x - w, x + w], axis=1))})
    total = 0
    for i in range(K):
        A = np.zeros((n, n))
        A[:n - 1, n - 1] = rng.choice([-1., 1.], size=n - 1) * rng.uniform(.6, 1.4, size=n - 1)
        for _ in range(int(rng.integers(0, n))):
            A[rng.integers(n - 1), rng.integers(n - 1)] = rng.normal() * .4
        m = {'name': 'm%d' % i, 'A': r6(A), 'inv': [], 'kind': 'wide'}
        if rng.random() < .35:
            q = int(rng.choice([1, 3, 11, 12]))
            B = np.zeros((n, q))
            for j in range(q):
                B[rng.integers(n - 1), j] = rng.choice([1., -1., .5])
            s = rng.uniform(.005, .04, size=q)
            m['B'], m['Uc'], m['Ur'] = r6(B), np.vstack([np.eye(q), -np.eye(q)]).tolist(), r6(np.concatenate([s, s]))
        spec['modes'].append(m)
        E, _ = flow_matrices(m['A'], None, h)
        at = int(rng.choice([1, 1, 2, 3]))
        total += at
        for _ in range(at):
            old, x = x, E @ x
        v = x - old
        d = np.zeros(n)
        big = np.argsort(-np.abs(v[:n - 1]))[:4]
        for j in rng.choice(big, size=int(rng.integers(1, 3)), replace=False):
            d[j] = np.sign(v[j])
        t = {'src': i, 'dst': i + 1, 'name': 't%d' % i,
             'G': [(-d).tolist()], 'g': [float(np.round(-(d @ x - .45 * (d @ v)), 4))]}
        if rng.random() < .3:
            for _ in range(int(rng.integers(1, 4))):
                d2 = rand_dir(rng, n)
                t['G'].append(r6(d2))
                t['g'].append(float(np.round(d2 @ x + rng.uniform(.02, .4) * np.abs(d2).sum(), 4)))
        if rng.random() < .93:
            m['inv'] = [[d.tolist(), float(np.round(d @ x - rng.uniform(.1, .3) * (d @ v), 4))]]
        if i < K - 1:
            p = rng.random()
            if p < .55:
                R = np.eye(n)
            elif p < .75:
                R = np.eye(n)[np.append(rng.permutation(n - 1), n - 1)]
                R[:n - 1] *= rng.choice([1., -1., .5], size=n - 1)[:, None]
            else:
                nd = int(rng.integers(9, 14))
                R = np.zeros((nd, n))
                for r in range(nd - 1):
                    R[r, rng.integers(n - 1)] = rng.choice([1., -1., .5])
                R[nd - 1, n - 1] = 1.
            if p >= .55:
                t['R'] = r6(R)
            if rng.random() < .25:
                q = int(rng.choice([1, 2, 10, 11]))
                M = np.zeros((len(R), q))
                for j in range(q):
                    M[rng.integers(len(R) - 1), j] = 1.
                s = rng.uniform(.002, .02, size=q)
                t['M'], t['Mc'], t['Mr'] = r6(M), np.vstack([np.eye(q), -np.eye(q)]).tolist(), r6(np.concatenate([s, s]))
            x = R @ x
            n = len(R)
        if i < K - 1 or error:
            # transitions out of the same mode whose guards are out of reach
            for _ in range(int(rng.choice([0, 1, 9, 12], p=[.65, .15, .1, .1]))):
                j = int(rng.integers(max(1, i)))
                c = np.zeros(len(A))
                c[rng.integers(len(A))] = rng.choice([1., -1.])
                spec['trans'].append({'src': i, 'dst': j, 'name': 'no%d' % len(spec['trans']), 'G': [c.tolist()],
                                      'g': [-50.], 'R': np.eye(len(spec['modes'][j]['A']), len(A)).tolist()})
            spec['trans'].append(t)
    if error:
        spec['modes'].append({'name': 'err', 'A': None, 'inv': []})
    spec['num_steps'] = total + int(rng.integers(0, 3))
    if rng.random() < .3:
        spec['settings']['do_guard_strengthening'] = False
    if rng.random() < .3:
        name_modes(rng, spec)
    return spec
