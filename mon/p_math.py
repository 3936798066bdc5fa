"""Monitors over the numeric building blocks: time elapse (S07), template directions (S21), symbolic models (S16)."""
import numpy as np
from . import gen, hyl, models, ref
from .ctx import Skip
from hylaa.hybrid_automaton import HybridAutomaton


# ------------------------------------------------------------------------------------------- S07
def big_matrix(rng, n):
    kind = str(rng.choice(['dense', 'rot', 'chain', 'stable', 'sparse', 'affine', 'int', 'clock', 'zero', 'nilp', 'jordan', 'stiff']))
    if kind == 'nilp':
        A = np.triu(rng.normal(size=(n, n)), 1)
        P = np.eye(n)[rng.permutation(n)]
        A = P @ A @ P.T
    elif kind == 'jordan':
        A = np.eye(n) * rng.uniform(-1, .3) + np.eye(n, k=1)
    elif kind == 'stiff':
        A = np.diag(-rng.uniform(.01, 40, size=n)) + np.triu(rng.normal(size=(n, n)), 1) * .3
    else:
        A, _ = gen.rand_A(rng, n, kind)
    return A, kind


def s07_case(rng, ctx):
    nobj = int(rng.choice([1, 1, 2]))
    objs = []
    ha = HybridAutomaton()
    for o in range(nobj):
        n = int(rng.choice([1, 2, 3, 4, 5, 8, 20, 50], p=[.1, .2, .2, .2, .1, .1, .07, .03]))
        A, kind = big_matrix(rng, n)
        h = float(rng.choice([.01, .05, .1, .25, .5, 1.]))
        B = None
        if rng.random() < .6:
            m = int(rng.integers(1, 4))
            B = rng.normal(size=(n, m)).round(3)
            if rng.random() < .3:
                B[:, 0] = 0
            if rng.random() < .3:
                B = (rng.random(size=(n, m)) < .3) * 1.
        mode = ha.new_mode('m%d' % o)
        mode.set_dynamics(A.copy() if rng.random() < .5 else A.tolist())
        if B is not None:
            m = B.shape[1]
            mode.set_inputs(B.copy(), np.vstack([np.eye(m), -np.eye(m)]), np.ones(2 * m), allow_constants=True)
        mode.init_time_elapse(h)
        objs.append((mode.time_elapse, A, B, h, kind, ref.flow_matrices(A, B, h)))
    top = int(rng.choice([5, 12, 40, 300]))
    for te, A, B, h, kind, _ in objs:
        nrm = np.abs(A).sum(axis=1).max() * h
        if nrm > 30:
            raise Skip('norm')
        top = min(top, max(2, int(60 / max(nrm, 1e-9))))
    style = str(rng.choice(['forward', 'random', 'back', 'mixed', 'skip']))
    seq, k = [], 0
    for i in range(int(rng.integers(4, 14))):
        if style == 'forward' or (style == 'mixed' and rng.random() < .6):
            k = k + 1 if i else int(rng.integers(0, 2))
        elif style == 'back':
            k = top - i if i < top else 0
        elif style == 'skip':
            k = min(top, k + int(rng.integers(1, 4)))
        else:
            k = int(rng.integers(0, top + 1))
        seq.append((int(rng.integers(nobj)), min(k, top)))
    keep = []
    for o, k in seq:
        te, A, B, h, kind, (E, G) = objs[o]
        bm, ie = te.get_basis_matrix(k)
        ctx.event('matrices')
        want = ref.expm_taylor(A * h * k)
        tol = 1e-8 * max(1., np.max(np.abs(want)))
        if np.max(np.abs(ref.expm_taylor(A * h))) > 1e6 or np.max(np.abs(want)) > 1e9:
            raise Skip('magnitude')
        if bm.shape != want.shape or np.max(np.abs(bm - want)) > tol:
            ctx.violation('step %d (order %s): basis matrix off by %g for %s dynamics' % (
                k, seq, np.max(np.abs(bm - want)), kind))
            return
        if B is None or k == 0:
            if ie is not None:
                ctx.violation('step %d: input matrix for nothing' % k)
                return
        else:
            wi = ref.expm_taylor(A * h * (k - 1)) @ G
            if ie is None or ie.shape != wi.shape or np.max(np.abs(ie - wi)) > 1e-8 * max(1., np.max(np.abs(wi)), np.max(np.abs(want))):
                ctx.violation('step %d (order %s): input matrix wrong for %s dynamics: %s, expected %s' % (
                    k, seq, kind, None if ie is None else ie.tolist(), wi.tolist()))
                return
            ctx.event('input_matrices')
        keep.append((k, bm, bm.copy(), ie, None if ie is None else ie.copy()))
    for k, bm, c, ie, ic in keep:
        if not np.array_equal(bm, c) or (ie is not None and not np.array_equal(ie, ic)):
            ctx.violation('matrix handed out for step %d changed afterwards' % k)
    ctx.nontrivial([k for _, k in seq], [o[4] for o in objs], [o[2] is None for o in objs])
    ctx.sample({'sequence': seq, 'dynamics': [o[1].tolist() for o in objs], 'step': [o[3] for o in objs]})


def s07_models(rng, ctx):
    """dynamics of the automata which come with the tool (up to 270 variables)"""
    spec = models.model(models.NAMES[int(rng.integers(len(models.NAMES)))])
    live = [m for m in spec['modes'] if m['A'] is not None]
    m = live[int(rng.integers(len(live)))]
    A, B, h = np.array(m['A']), None if m.get('B') is None else np.array(m['B']), spec['step'] * float(rng.choice([.5, 1., 2.]))
    ha = HybridAutomaton()
    mode = ha.new_mode('m')
    mode.set_dynamics(m['A'])
    if B is not None:
        mode.set_inputs(m['B'], m['Uc'], m['Ur'])
    mode.init_time_elapse(h)
    E, G = ref.flow_matrices(A, B, h)
    k, seq = 0, []
    for _ in range(int(rng.integers(3, 8))):
        k = k + 1 if rng.random() < .6 else int(rng.integers(0, 41))
        seq.append(k)
        want = ref.expm_taylor(A * h * k)
        top = np.max(np.abs(want))
        if top > 1e9 or np.max(np.abs(E)) > 1e6:
            raise Skip('magnitude')
        bm, ie = mode.time_elapse.get_basis_matrix(k)
        ctx.event('matrices')
        if bm.shape != want.shape or np.max(np.abs(bm - want)) > 1e-7 * max(1., top):
            ctx.violation('%s, step %d (order %s): basis matrix off by %g' % (spec['name'], k, seq, np.max(np.abs(bm - want))))
            return
        if B is not None and k > 0:
            wi = ref.expm_taylor(A * h * (k - 1)) @ G
            ctx.event('input_matrices')
            if ie is None or ie.shape != wi.shape or np.max(np.abs(ie - wi)) > 1e-7 * max(1e-3, np.max(np.abs(wi))):
                ctx.violation('%s, step %d (order %s): input matrix off' % (spec['name'], k, seq))
                return
    ctx.event('models')
    ctx.nontrivial(spec['name'], m['name'], seq)


def s07_path(rng, ctx):
    """the same through a state set: any order of steps moves it to the right place"""
    spec = gen.gen_spec(rng, modes=(1, 1), dims=(1, 4), p_inputs=.6, p_inv=0., p_error=0., n_init=(1, 1), p_zero=.1, p_backedge=0.)
    if spec['init'][0]['kind'] == 'zono':
        raise Skip('kind')
    ctx.spec = spec
    m = spec['modes'][0]
    E, G = ref.flow_matrices(m['A'], m.get('B'), spec['step'])
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec)
        modes[0].init_time_elapse(spec['step'])
        s = init[0]
    r = list(ref.Explorer(spec).init_sets())[0][1]
    dirs = gen.check_dirs(rng, r.dims)
    if G is None:
        seq = sorted(int(rng.integers(0, 12)) for _ in range(int(rng.integers(2, 7))))
        for k in seq:
            s.step(k)
            want = r.linmap(ref.expm_taylor(np.array(m['A']) * spec['step'] * k))
            a, b = np.array(hyl.lp_sup(s.lpi, dirs)), np.array([want.sup(d) for d in dirs])
            ctx.event('sets')
            if np.max(np.abs(a - b)) > 1e-5 * (1 + np.max(np.abs(b))):
                ctx.violation('state set moved to step %d (order %s) is off by %g' % (k, seq, np.max(np.abs(a - b))))
                return
        ctx.nontrivial('noinput', seq, m)
    else:
        for k in range(1, int(rng.integers(2, 9))):
            s.step()
            r = r.linmap_plus(E, G, m['Uc'], m['Ur'])
            a, b = np.array(hyl.lp_sup(s.lpi, dirs)), np.array([r.sup(d) for d in dirs])
            ctx.event('sets')
            if np.max(np.abs(a - b)) > 1e-5 * (1 + np.max(np.abs(b))):
                ctx.violation('state set with inputs at step %d is off by %g' % (k, np.max(np.abs(a - b))))
                return
        ctx.nontrivial('input', m)


# ------------------------------------------------------------------------------------------- S21
def gram_schmidt(vectors, dims):
    """(list of directions the documentation prescribes, ambiguous?)"""
    out = []
    for v in vectors:
        if len(out) == dims:
            break
        w = np.array(v, dtype=float)
        for q in out:
            w = w - q * (q @ w)
        nrm = np.linalg.norm(w)
        if 1e-9 < nrm < 1e-4:
            return None
        if nrm >= 1e-4:
            out.append(w / nrm)
        else:
            yield_none = True
            del yield_none
    return out


def orthonormal(M, n):
    if M.shape != (n, n):
        return 'shape %s for %d variables' % (M.shape, n)
    err = np.max(np.abs(M @ M.T - np.eye(n)))
    if not err < 1e-6:
        return 'not orthonormal (off by %g): %s' % (err, M.tolist())
    return None


def s21_arnoldi(rng, ctx):
    from scipy.sparse import csr_matrix
    from hylaa import lputil
    n = int(rng.integers(1, 8))
    A, kind = big_matrix(rng, n)
    p = rng.normal(size=n).round(3)
    q = rng.random()
    if q < .15:
        p = np.zeros(n)
    elif q < .3:
        p = np.eye(n)[rng.integers(n)]
    elif q < .4:
        w, V = np.linalg.eig(A)
        p = np.real(V[:, 0])
    elif q < .5:
        p = p * 1e3
    pt = p.copy() if rng.random() < .7 else p.tolist()
    keep, keepA = np.array(pt), A.copy()
    a = csr_matrix(A)
    M = np.array(lputil.make_direction_matrix(pt, a))
    ctx.event('templates')
    bad = orthonormal(M, n)
    if bad:
        ctx.violation('template for %s dynamics at %s: %s' % (kind, p.tolist(), bad))
        return
    if not np.array_equal(np.array(pt), keep) or not np.array_equal(a.toarray(), keepA):
        ctx.violation('computing a template changed its arguments')
    f = A @ p
    if np.linalg.norm(f) > 1e-4:
        ctx.event('moving')
        if np.max(np.abs(np.abs(M @ (f / np.linalg.norm(f)))).max() - 1) > 1e-5:
            ctx.violation('the vector field %s is not among the directions %s' % (f.tolist(), M.tolist()))
        # the directions follow the field, its derivative along the flow, ... (each new one orthogonal to the previous)
        out, cur = [], f
        while len(out) < n:
            w = cur.copy()
            for u in out:
                w = w - u * (u @ w)
            nrm = np.linalg.norm(w)
            if nrm < 1e-3:
                break
            out.append(w / nrm)
            cur = A @ out[-1]
        for i, u in enumerate(out):
            if i < 3 and np.max(np.abs(np.abs(M[i] @ u) - 1)) > 1e-4:
                ctx.violation('direction %d of the template is %s, the dynamics give %s' % (i, M[i].tolist(), u.tolist()))
                return
    ctx.nontrivial(kind, n, q < .15, q < .3, A.tolist())
    ctx.sample({'A': A.tolist(), 'point': p.tolist()})


def s21_reorth(rng, ctx):
    from hylaa import lputil
    n = int(rng.integers(1, 7))
    rows = int(rng.integers(1, 9))
    M = rng.normal(size=(rows, n)).round(2)
    q = rng.random()
    if q < .3:
        M = (rng.random(size=(rows, n)) < .4) * rng.choice([1., -1., 2.], size=(rows, n))
    elif q < .5:
        M = M[:, :1] @ rng.normal(size=(1, n)).round(2)
    elif q < .6:
        M[0] = 0
    if rng.random() < .4:
        for i in range(1, rows):
            if rng.random() < .4:
                M[i] = M[rng.integers(i)] * rng.choice([1., -2.])
    arg = M.copy() if rng.random() < .6 else M.tolist()
    R = np.array(lputil.reorthogonalize_matrix(arg, n))
    ctx.event('reorthogonalised')
    bad = orthonormal(R, n)
    if bad:
        ctx.violation('reorthogonalised template: %s' % bad)
        return
    if not np.array_equal(np.array(arg), M):
        ctx.violation('reorthogonalising changed its argument')
    want = gram_schmidt(M, n)
    if want is None:
        raise Skip('nearly dependent')
    for i, u in enumerate(want):
        if abs(abs(R[i] @ u) - 1) > 1e-5:
            ctx.violation('row %d of the reorthogonalised template is %s, projecting out earlier ones gives %s (from %s)' % (
                i, R[i].tolist(), u.tolist(), M.tolist()))
            return
    ctx.nontrivial(n, rows, M.tolist())


def s21_runs(rng, ctx):
    """aggregated sets seen in analyses are bounded in every direction and follow the dynamics direction tightly"""
    from .p_reach import explore
    spec = gen.gen_spec(rng, modes=(2, 3), dims=(1, 4), steps=(5, 9), n_init=(1, 2), p_inputs=.15, band=.1, p_reset=.6,
                        p_dimchange=.4, p_error=.2, p_backedge=.3)
    ctx.spec = spec
    explore(spec, 60)
    over = {'agg': {'type': str(rng.choice(['arnoldi', 'arnoldi', 'box'])), 'add_guard': bool(rng.random() < .6)},
            'stop_on_concrete_error': False}
    spec['over'] = over
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, over)
        core = hyl.new_core(ha, settings)
        seen = set()

        def on(s, serial, core):
            if s.is_concrete or serial in seen or s.cur_step_in_mode != 0:
                return
            seen.add(serial)
            c = s.lpi.clone()
            n = c.dims
            for d in gen.check_dirs(rng, n, 3):
                try:
                    v = hyl.lp_sup(c, [d])[0]
                except Exception as e:  # noqa
                    ctx.violation('an aggregated set has no finite extent along %s: %s (%s)' % (d.tolist(), e, over))
                    return
                if not abs(v) < 1e12:
                    ctx.violation('an aggregated set extends to %g along %s (%s)' % (v, d.tolist(), over))
                    return
            ctx.event('aggregated_sets')
        hyl.drive(core, init, on)
    if seen:
        ctx.nontrivial(spec['trans'], over)


# ------------------------------------------------------------------------------------------- S16
NAMES = ['x', 'y', 'z', 'v1', 'x_1', 'x10', 'x1', 't', 'beta', 'gamma', 'N', 'S', 'E', 'I', 'Q', 'zeta', 'pos', 'vel', 'e', 'pi', 'C', 'O']
CONSTS = ['k', 'c', 'g', 'K1', 'M', 'rho', 'alpha', 'm0', 'E1', 'J']


def num_text(rng):
    return str(rng.choice(['1', '2', '3', '0.5', '.25', '1.5', '10', '1e-1', '2.0', '7', '0', '0.125', '3e0']))


def term(rng, variables, consts):
    """a linear term as text"""
    v = str(rng.choice(variables))
    q = rng.random()
    n = num_text(rng)
    if q < .25:
        return v
    if q < .45:
        return '%s * %s' % (n, v)
    if q < .6:
        return '%s*%s' % (v, n)
    if consts and q < .75:
        c = str(rng.choice(consts))
        return str(rng.choice(['%s * %s', '%s*%s'])) % ((c, v) if rng.random() < .5 else (v, c))
    if consts and q < .82:
        c, d = str(rng.choice(consts)), str(rng.choice(consts))
        return str(rng.choice(['%s * %s * %s', '%s*%s*%s'])) % (c, v, d if rng.random() < .5 else n)
    if q < .92:
        return '%s / %s' % (v, str(rng.choice(['2', '4', '0.5', '5'])))
    return '-%s' % v if rng.random() < .5 else '(%s)' % v


def const_term(rng, consts):
    if consts and rng.random() < .4:
        return str(rng.choice(consts))
    return num_text(rng)


def flat(rng, variables, consts, affine, nterms=None):
    k = int(rng.integers(1, 6)) if nterms is None else nterms
    out = []
    for _ in range(k):
        out.append(const_term(rng, consts) if affine and rng.random() < .3 else term(rng, variables, consts))
    text = out[0] if rng.random() < .8 else '-%s' % out[0].lstrip('-')
    for t in out[1:]:
        text += str(rng.choice([' + ', ' - ', '+', '-'])) + (t if not t.startswith('-') else '(%s)' % t)
    return text


def nested(rng, variables, consts, affine):
    a, b = flat(rng, variables, consts, affine, 2), flat(rng, variables, consts, affine, 2)
    c = const_term(rng, consts)
    return str(rng.choice(['%s * (%s) - (%s)' % (c, a, b), '(%s) * %s + %s' % (a, c, b), '-(%s) + (%s)' % (a, b),
                           '(%s) / 2 - (%s)' % (a, b), '%s * (%s - 2 * (%s))' % (c, a, b)]))


def wild(rng, variables, consts, affine):
    """not linear in general"""
    v, w = str(rng.choice(variables)), str(rng.choice(variables))
    a = flat(rng, variables, consts, affine, 1)
    f = str(rng.choice(['%s * %s' % (v, w), '%s**2' % v, 'sin(%s)' % v, '1 / (%s + 5)' % v, '%s * (%s + %s)' % (v, w, a),
                        'sqrt(%s + 9)' % v, 'abs(%s)' % v, '2**%s' % v, '3 * %s * %s' % (v, w), 'exp(%s)' % v, 'Max(%s, %s)' % (v, w),
                        '%s * %s - 1' % (v, v)]))
    return f if rng.random() < .5 else '%s + %s' % (a, f)


def evaluate(text, env):
    import math
    g = {'__builtins__': {}, 'sin': math.sin, 'sqrt': math.sqrt, 'abs': abs, 'exp': math.exp, 'Max': max}
    g.update(env)
    return float(eval(text, g))  # text generated above


def rectangular(rows):
    try:
        return np.array(rows, dtype=float)
    except (ValueError, TypeError):
        return None


def s16_case(rng, ctx):
    from hylaa import symbolic
    variables = [str(v) for v in rng.permutation(NAMES)[:int(rng.integers(1, 6))]]
    consts = [str(c) for c in rng.permutation(CONSTS)[:int(rng.integers(0, 4))]]
    cd = {c: (float(np.round(rng.normal() * 3, 2)) if rng.random() < .6 else int(rng.integers(-3, 4))) for c in consts}
    kind = str(rng.choice(['flat', 'nested', 'wild'], p=[.55, .25, .2]))
    affine = bool(rng.random() < .6)
    make = {'flat': flat, 'nested': nested, 'wild': wild}[kind]
    what = str(rng.choice(['dynamics', 'reset', 'condition']))
    with_const = affine if what != 'condition' else bool(rng.random() < .7)
    misuse = what != 'condition' and not affine and rng.random() < .3
    points = [{v: float(x) for v, x in zip(variables, rng.normal(size=len(variables)) * 2)} for _ in range(4)]
    points += [{v: 0. for v in variables}]
    ctx.sample({'variables': variables, 'constants': cd, 'kind': kind, 'what': what})
    if what != 'condition':
        count = int(rng.integers(1, 4)) if what == 'reset' else len(variables)
        texts = [make(rng, variables, consts, with_const or misuse) for _ in range(count)]
        v2, c2, t2 = list(variables), dict(cd), list(texts)
        fn = symbolic.make_dynamics_mat if what == 'dynamics' else symbolic.make_reset_mat
        try:
            mat = fn(variables, texts, cd, has_affine_variable=affine)
        except RuntimeError as e:
            ctx.event('rejected_' + kind)
            if kind != 'wild' and not misuse:
                ctx.violation('linear %s %s with constants %s rejected: %s' % (what, texts, cd, e))
            return
        if (v2, c2, t2) != (variables, cd, texts):
            ctx.violation('parsing changed its arguments')
        ctx.event('accepted_' + kind)
        n = len(variables) + (1 if affine else 0)
        mat = rectangular(mat)
        if mat is None:
            ctx.violation('%s of %s over %d variables (affine=%s) gives rows of different lengths' % (what, texts, len(variables), affine))
            return
        if mat.shape != (count + (1 if affine else 0), n):
            ctx.violation('%s of %d expressions over %d variables (affine=%s) gives a %s matrix' % (
                what, count, len(variables), affine, mat.shape))
            return
        if affine:
            last = np.zeros(n)
            last[-1] = 1. if what == 'reset' else 0.
            if not np.array_equal(mat[-1], last):
                ctx.violation('last row of the affine %s matrix is %s' % (what, mat[-1].tolist()))
        for p in points:
            x = np.array([p[v] for v in variables] + ([1.] if affine else []))
            for i, t in enumerate(texts):
                try:
                    want = evaluate(t, {**cd, **p})
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                ctx.event('evaluations')
                if abs(mat[i] @ x - want) > 1e-7 * (1 + abs(want) + np.abs(mat[i]).sum() * np.abs(x).max()):
                    ctx.violation('%s "%s" with %s at %s is %g, the matrix row %s gives %g' % (
                        what, t, cd, p, want, mat[i].tolist(), mat[i] @ x))
                    return
        ctx.nontrivial(texts, cd)
        return
    conds, sides = [], []
    for _ in range(int(rng.integers(1, 4))):
        l, r = make(rng, variables, consts, with_const), flat(rng, variables, consts, with_const, int(rng.integers(1, 3)))
        if rng.random() < .4:
            r = const_term(rng, consts)
        if rng.random() < .3:
            l, r = r, l
        op = str(rng.choice(['<=', '>=']))
        conds.append(l + str(rng.choice([' ', ''])) + op + str(rng.choice([' ', ''])) + r)
        sides.append((l, op, r))
    if rng.random() < .1:
        bad = str(rng.choice(['%s < 3', '%s == 2', '%s <= 3 <= 4', '%s', '%s >= 1 <= 2', '%s > 0'])) % variables[0]
        try:
            symbolic.make_condition(variables, conds + [bad], cd, has_affine_variable=affine)
        except RuntimeError:
            ctx.event('bad_condition_rejected')
            return
        ctx.violation('condition "%s" accepted' % bad)
        return
    keep = list(conds)
    try:
        mat, rhs = symbolic.make_condition(variables, conds, cd, has_affine_variable=affine)
    except RuntimeError as e:
        ctx.event('rejected_' + kind)
        if kind != 'wild':
            ctx.violation('linear condition %s with constants %s rejected: %s' % (conds, cd, e))
        return
    if keep != conds:
        ctx.violation('parsing changed its arguments')
    ctx.event('accepted_' + kind)
    mat, rhs = rectangular(mat), rectangular(rhs)
    if mat is None or rhs is None:
        ctx.violation('conditions %s give rows of different lengths or values which are no numbers' % conds)
        return
    if mat.shape != (len(conds), len(variables) + (1 if affine else 0)) or rhs.shape != (len(conds),):
        ctx.violation('condition matrix has shape %s, right-hand side %s' % (mat.shape, rhs.shape))
        return
    for p in points:
        x = np.array([p[v] for v in variables] + ([1.] if affine else []))
        for i, (l, op, r) in enumerate(sides):
            try:
                diff = evaluate(l, {**cd, **p}) - evaluate(r, {**cd, **p})
            except (ValueError, ZeroDivisionError, OverflowError):
                continue
            diff = diff if op == '<=' else -diff
            got = mat[i] @ x - rhs[i]
            ctx.event('evaluations')
            # same satisfaction, and the row keeps the scale of the text
            if abs(got - diff) > 1e-7 * (1 + abs(diff) + np.abs(mat[i]).sum() * np.abs(x).max() + abs(rhs[i])):
                ctx.violation('condition "%s" with %s at %s: difference of the sides %g, matrix gives %g' % (
                    conds[i], cd, p, diff, got))
                return
    ctx.nontrivial(conds, cd)


def s16_unknown(rng, ctx):
    """unknown names, missing constants, wrong affine setting"""
    from hylaa import symbolic
    variables = [str(v) for v in rng.permutation(NAMES)[:int(rng.integers(1, 4))]]
    good = flat(rng, variables, [], False)
    pick = str(rng.choice(['unknown', 'const', 'affine', 'mul']))
    v = variables[0]
    env = {}
    if pick == 'unknown':
        bad = good + ' + ' + str(rng.choice(['qq', '2*unk', 'u_1', '3*qq']))
    elif pick == 'const':
        bad = good + ' + kk * ' + v
        env = {'other': 2.}
    elif pick == 'affine':
        bad = good + ' + ' + str(rng.choice(['1', '0.5', '3', '2e-3']))
    else:
        bad = '%s * %s' % (v, v)
    fns = [symbolic.make_dynamics_mat, symbolic.make_reset_mat]
    fn = fns[int(rng.integers(2))]
    affine = pick != 'affine' and bool(rng.random() < .5)
    try:
        mat = fn(variables, [bad] * len(variables), env, has_affine_variable=affine)
    except RuntimeError:
        ctx.event('malformed_rejected')
        ctx.nontrivial(bad, env, affine)
        return
    # everything may have cancelled
    if pick == 'affine':
        ctx.violation('"%s" accepted without affine variable' % bad)
    else:
        ctx.violation('"%s" accepted with variables %s, constants %s: %s' % (bad, variables, env, mat))
