"""Monitor for the rejection of malformed models (S19): a valid model with one corruption has to be refused before any analysis."""
import copy
import numpy as np
from scipy.sparse import csr_matrix
from . import gen, hyl
from .ctx import Skip
from hylaa import lputil
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.settings import HylaaSettings
from hylaa.stateset import StateSet


class NotHere(Exception):
    """this corruption does not apply to this model"""


def pick(rng, xs):
    xs = list(xs)
    if not xs:
        raise NotHere()
    return xs[int(rng.integers(len(xs)))]


def grow(rng, M, axis):
    """one row / column more or less"""
    M = np.array(M, dtype=float)
    if M.shape[axis] > 1 and rng.random() < .5:
        return np.delete(M, int(rng.integers(M.shape[axis])), axis).tolist()
    shape = list(M.shape)
    shape[axis] = 1
    return np.concatenate([M, rng.choice([0., 1., -.5], size=shape)], axis).tolist()


def moving(spec):
    return [m for m in spec['modes'] if m['A'] is not None]


def with_inputs(rng, spec):
    m = pick(rng, moving(spec))
    if m.get('B') is None:
        m['B'], m['Uc'], m['Ur'] = gen.rand_inputs(rng, len(m['A']))
    return m


def dims_of(spec, i):
    return None if spec['modes'][i]['A'] is None else len(spec['modes'][i]['A'])


# ---- corruptions which can be written into the spec
def c_dynamics_shape(rng, s):
    m = pick(rng, moving(s))
    m['A'] = grow(rng, m['A'], int(rng.integers(2)))


def c_input_rows(rng, s):
    m = with_inputs(rng, s)
    m['B'] = grow(rng, m['B'], 0)


def c_input_cols(rng, s):
    m = with_inputs(rng, s)
    m['B'] = grow(rng, m['B'], 1)


def c_input_cons_cols(rng, s):
    m = with_inputs(rng, s)
    m['Uc'] = grow(rng, m['Uc'], 1)


def c_input_rhs(rng, s):
    m = with_inputs(rng, s)
    m['Ur'] = m['Ur'][:-1] if rng.random() < .5 else m['Ur'] + [1.]


def c_input_empty(rng, s):
    m = with_inputs(rng, s)
    d = gen.rand_dir(rng, len(m['Uc'][0]))
    v = float(rng.normal())
    m['Uc'] = m['Uc'] + [d.tolist(), (-d).tolist()]
    m['Ur'] = m['Ur'] + [v, -v - .01 - rng.random()]


def inv_of(rng, s):
    m = pick(rng, moving(s))
    n = len(m['A'])
    if not m.get('inv'):
        m['inv'] = [[gen.rand_dir(rng, n).tolist(), 100.]]
    return m, n


def c_invariant_width(rng, s):
    m, n = inv_of(rng, s)
    rows = grow(rng, [r for r, _ in m['inv']], 1)
    m['inv'] = [[r, b] for r, (_, b) in zip(rows, m['inv'])]


def c_invariant_empty(rng, s):
    m, n = inv_of(rng, s)
    d = gen.rand_dir(rng, n)
    m['inv'] = m['inv'] + [[d.tolist(), 1.], [(-d).tolist(), -1.1]]


def c_guard_width(rng, s):
    t = pick(rng, [t for t in s['trans'] if len(t['g'])])
    t['G'] = grow(rng, t['G'], 1)


def c_guard_rhs(rng, s):
    t = pick(rng, [t for t in s['trans'] if len(t['g'])])
    # an empty list would ask for the condition 'true'
    t['g'] = t['g'] + [1.] if len(t['g']) == 1 or rng.random() < .5 else t['g'][:-1]


def c_guard_empty(rng, s):
    t = pick(rng, s['trans'])
    n = dims_of(s, t['src'])
    d = gen.rand_dir(rng, n)
    t['G'] = [list(r) for r in t['G']] + [d.tolist(), (-d).tolist()]
    t['g'] = list(t['g']) + [1., -1.1]


def reset_of(rng, s, to_moving=False):
    t = pick(rng, [t for t in s['trans'] if not to_moving or dims_of(s, t['dst']) is not None])
    n, k = dims_of(s, t['src']), dims_of(s, t['dst'])
    if t.get('R') is None:
        t['R'] = np.eye(n if k is None else k, n).tolist()
    return t, n, (n if k is None else k)


def c_reset_rows(rng, s):
    t, n, k = reset_of(rng, s)
    if t.get('M') is not None:
        for q in ('M', 'Mc', 'Mr'):
            t.pop(q)
    t['R'] = grow(rng, t['R'], 0)


def c_reset_cols(rng, s):
    t, n, k = reset_of(rng, s)
    t['R'] = grow(rng, t['R'], 1)


def c_reset_missing(rng, s):
    """number of variables changes without a reset"""
    t = pick(rng, [t for t in s['trans'] if dims_of(s, t['dst']) is not None and dims_of(s, t['dst']) != dims_of(s, t['src'])])
    t['R'] = None
    if t.get('M') is not None and rng.random() < .5:
        for q in ('M', 'Mc', 'Mr'):
            t.pop(q)


def mink_of(rng, s):
    t, n, k = reset_of(rng, s, True)
    if t.get('M') is None:
        c = int(rng.integers(1, 3))
        t['M'] = gen.r6(rng.normal(size=(k, c)))
        t['Mc'] = np.vstack([np.eye(c), -np.eye(c)]).tolist()
        t['Mr'] = [.2] * (2 * c)
    return t, n, k


def c_mink_rows(rng, s):
    t, n, k = mink_of(rng, s)
    t['M'] = grow(rng, t['M'], 0)


def c_mink_cols(rng, s):
    t, n, k = mink_of(rng, s)
    t['M'] = grow(rng, t['M'], 1)


def c_mink_cons_cols(rng, s):
    t, n, k = mink_of(rng, s)
    t['Mc'] = grow(rng, t['Mc'], 1)


def c_mink_rhs(rng, s):
    t, n, k = mink_of(rng, s)
    t['Mr'] = t['Mr'][:-1] if rng.random() < .5 else t['Mr'] + [1.]


def c_mink_empty(rng, s):
    t, n, k = mink_of(rng, s)
    d = gen.rand_dir(rng, len(t['Mc'][0]))
    t['Mc'] = [list(r) for r in t['Mc']] + [d.tolist(), (-d).tolist()]
    t['Mr'] = list(t['Mr']) + [1., -1.1]


def init_box(rng, s):
    i = pick(rng, s['init'])
    n = dims_of(s, i['mode'])
    if i['kind'] != 'box':
        for q in list(i):
            if q not in ('mode',):
                i.pop(q)
        i['kind'], i['box'] = 'box', [[-.1, .1]] * n
    return i, n


def c_init_box_order(rng, s):
    i, n = init_box(rng, s)
    q = int(rng.integers(n))
    lo = float(rng.normal())
    i['box'] = [list(b) for b in i['box']]
    i['box'][q] = [lo, lo - 10. ** rng.uniform(-3, 1)]


def c_init_box_dims(rng, s):
    i, n = init_box(rng, s)
    i['box'] = i['box'] + [[0., 1.]] if n == 1 or rng.random() < .5 else i['box'][:-1]


def init_cons(rng, s):
    i, n = init_box(rng, s)
    b = i.pop('box')
    i['kind'] = 'cons'
    i['C'] = np.vstack([np.eye(n), -np.eye(n)]).tolist()
    i['r'] = [q[1] for q in b] + [-q[0] for q in b]
    return i, n


def c_init_cons_width(rng, s):
    i, n = init_cons(rng, s)
    i['C'] = grow(rng, i['C'], 1)


def c_init_cons_rhs(rng, s):
    i, n = init_cons(rng, s)
    i['r'] = i['r'][:-1] if rng.random() < .5 else i['r'] + [1.]


def c_init_cons_empty(rng, s):
    i, n = init_cons(rng, s)
    d = gen.rand_dir(rng, n)
    i['C'] = i['C'] + [d.tolist(), (-d).tolist()]
    i['r'] = i['r'] + [1., -1.1]


def c_init_generator(rng, s):
    i, n = init_box(rng, s)
    i.pop('box')
    i['kind'], i['c'] = 'zono', [0.] * n
    gens = [rng.normal(size=n).round(2).tolist() for _ in range(int(rng.integers(1, 4)))]
    q = int(rng.integers(len(gens)))
    gens[q] = gens[q] + [.5] if n == 1 or rng.random() < .5 else gens[q][:-1]
    i['gens'] = gens


def c_init_center(rng, s):
    i, n = init_box(rng, s)
    i.pop('box')
    k = n + 1 if n == 1 or rng.random() < .5 else n - 1
    i['kind'], i['c'] = 'zono', [0.] * k
    i['gens'] = [rng.normal(size=k).round(2).tolist() for _ in range(int(rng.integers(1, 4)))]


def c_init_outside(rng, s):
    """no initial state satisfies the invariant of its mode"""
    d = {}
    for i in s['init']:
        m = s['modes'][i['mode']]
        n = len(m['A'])
        row = [0.] * n
        row[0] = 1.
        m['inv'] = [[row, -50. - rng.random()]]


def c_error_leaves(rng, s):
    """a transition out of an error mode"""
    bad = [j for j, m in enumerate(s['modes']) if m['A'] is None]
    if not bad:
        s['modes'].append({'name': 'bad', 'A': None, 'inv': []})
        bad = [len(s['modes']) - 1]
    n = dims_of(s, 0)
    s['trans'].append({'src': bad[0], 'dst': int(rng.integers(len(s['modes']))), 'name': 'leave', 'G': [[1.] + [0.] * (n - 1)] if rng.random() < .5 else [],
                       'g': [1.], 'lazy': True})
    if not s['trans'][-1]['G']:
        s['trans'][-1]['g'] = []


def c_mode_name(rng, s):
    if rng.random() < .4:
        s['modes'] += [{'name': 'bad', 'A': None, 'inv': []}, {'name': 'bad', 'A': None, 'inv': []}]
        return
    if len(s['modes']) < 2:
        s['modes'].append({'name': 'bad', 'A': None, 'inv': []})
    a, b = rng.choice(len(s['modes']), size=2, replace=False)
    s['modes'][a]['name'] = s['modes'][b]['name']


SPEC = {f.__name__[2:]: f for f in [
    c_dynamics_shape, c_input_rows, c_input_cols, c_input_cons_cols, c_input_rhs, c_input_empty, c_invariant_width, c_invariant_empty,
    c_guard_width, c_guard_rhs, c_guard_empty, c_reset_rows, c_reset_cols, c_reset_missing, c_mink_rows, c_mink_cols, c_mink_cons_cols,
    c_mink_rhs, c_mink_empty, c_init_box_order, c_init_box_dims, c_init_cons_width, c_init_cons_rhs, c_init_cons_empty, c_init_generator,
    c_init_center, c_init_outside, c_error_leaves, c_mode_name]}


# ---- corruptions of the calls themselves: f(rng, spec, form) -> (ha, modes, init, settings) or raises
def k_no_guard(rng, s, form):
    ha, modes, init, settings = form(s)
    srcs = [i for i, m in enumerate(s['modes']) if m['A'] is not None]
    src = pick(rng, srcs)
    same = [j for j in range(len(s['modes'])) if dims_of(s, j) in (None, dims_of(s, src))]
    ha.new_transition(modes[src], modes[pick(rng, same)], 'unguarded')
    return ha, modes, init, settings


def k_mink_parts(rng, s, form):
    """one or two of the three parts of the additional reset term are missing"""
    t, n, k = mink_of(rng, s)
    ti = s['trans'].index(t)
    ha, modes, init, settings = form(s)
    tr = ha.transitions[ti]
    M, Mc, Mr = np.array(t['M']), np.array(t['Mc']), np.array(t['Mr'])
    R = None if t.get('R') is None else np.array(t['R'], dtype=float)
    kind = int(rng.integers(5))
    args = [(M, None, None), (M, Mc, None), (M, None, Mr), (None, Mc, None), (None, None, Mr)][kind]
    tr.set_reset(R, *args)
    return ha, modes, init, settings


def k_order(rng, s, form):
    """parts which need the dynamics are set before them"""
    ha, modes, init, settings = form(s)
    m = ha.new_mode('late')
    n = int(rng.integers(1, 4))
    p = int(rng.integers(4))
    if p == 0:
        m.set_inputs(np.ones((n, 1)), [[1.], [-1.]], [1., 1.])
    elif p == 1:
        m.set_invariant(np.eye(n), [100.] * n)
    else:
        t = ha.new_transition(m, modes[0])
        if p == 2:
            t.set_guard(np.eye(n), [1.] * n)
        else:
            t.set_guard_true()
    m.set_dynamics(np.zeros((n, n)))
    return ha, modes, init, settings


def k_invariant_rhs(rng, s, form):
    ha, modes, init, settings = form(s)
    n = dims_of(s, 0)
    q = int(rng.integers(1, 4))
    modes[0].set_invariant(np.ones((q, n)), [100.] * (q + (1 if q == 1 or rng.random() < .5 else -1)))
    return ha, modes, init, settings


def k_no_init(rng, s, form):
    ha, modes, init, settings = form(s)
    p = int(rng.integers(5))
    bad = [[], None, init[0], [init[0].lpi], tuple(init)][p]
    return ha, modes, bad, settings


def k_infeasible_set(rng, s, form):
    """an initial set emptied after it was built (the only one)"""
    ha, modes, init, settings = form(s)
    st = init[0]
    n = st.lpi.dims
    d = gen.rand_dir(rng, n)
    lputil.add_curtime_constraints(st.lpi, csr_matrix(np.array([d, -d])), np.array([1., -1.2]))
    return ha, modes, [st], settings


def k_other_basis(rng, s, form):
    """a set of states which is not given in its initial variables"""
    ha, modes, init, settings = form(s)
    st = init[0]
    n = st.lpi.dims
    lpi = st.lpi.clone()
    lputil.set_basis_matrix(lpi, np.eye(n) * 1.5 + .25)
    return ha, modes, [StateSet(lpi, st.mode)] + init[1:], settings


def k_bounds(rng, s, form):
    """no step size or time bound can be negative"""
    ha, modes, init, settings = form(s)
    h, T = [(-.1, 1.), (.1, -1.), (0., 1.), (float('nan'), 1.), (.1, float('nan')), (.1, float('inf')), (-.1, -1.), (float('inf'), 1.)][int(rng.integers(8))]
    hs = HylaaSettings(h, T)
    hs.stdout = HylaaSettings.STDOUT_NONE
    hs.aggstrat = settings.aggstrat
    return ha, modes, init, hs


def k_late(rng, s, form):
    """dynamics which change the number of variables after other parts were defined"""
    ha, modes, init, settings = form(s)
    p = int(rng.integers(4))
    n = dims_of(s, 0)
    k = n + 1 if n == 1 or rng.random() < .5 else n - 1
    if p == 0:  # a reset defined while the target had no dynamics yet
        m = ha.new_mode('late')
        t = ha.new_transition(modes[0], m)
        t.set_guard_true()
        t.set_reset(np.eye(n))
        m.set_dynamics(np.zeros((k, k)))
    elif p == 1:  # guard
        m = ha.new_mode('late')
        m.set_dynamics(np.eye(n))
        t = ha.new_transition(m, modes[0])
        t.set_guard([[1.] + [0.] * (n - 1)], [1.])
        t.set_reset(np.eye(n))
        m.set_dynamics(np.eye(k))
    elif p == 2:  # invariant
        m = ha.new_mode('late')
        m.set_dynamics(np.eye(n))
        m.set_invariant([[1.] + [0.] * (n - 1)], [1.])
        m.set_dynamics(np.eye(k))
    else:  # inputs
        m = ha.new_mode('late')
        m.set_dynamics(np.eye(n))
        m.set_inputs(np.ones((n, 1)), [[1.], [-1.]], [1., 1.])
        m.set_dynamics(np.eye(k))
    return ha, modes, init, settings


NAMES = {
    'settings': ['do_guard_strenghtening', 'stop_on_concrete_errors', 'aggstrategy', 'urgent_guards', 'stepsize', 'approxmodel', 'plt', 'optimize_tt'],
    'plot': ['plotmode', 'x_dim', 'xdim', 'file_name', 'labels', 'num_angle', 'store_plot_results'],
    'label': ['xlabel', 'titel', 'axes_limit'],
    'mode': ['invariant', 'dynamics', 'a_mat', 'inputs', 'b_mat'],
    'transition': ['guard', 'reset', 'guard_mat', 'reset_mat'],
    'ha': ['mode', 'transition'],
    'set': ['modes', 'lp', 'basis_mat'],
    'result': ['has_error', 'counter_example']}


def k_attribute(rng, s, form):
    ha, modes, init, settings = form(s)
    core = hyl.new_core(ha, settings)
    objs = {'settings': settings, 'plot': settings.plot, 'label': settings.plot.label, 'mode': pick(rng, modes), 'ha': ha, 'set': pick(rng, init)}
    if ha.transitions:
        objs['transition'] = pick(rng, ha.transitions)
    objs['result'] = core.result
    what = pick(rng, sorted(k for k, o in objs.items() if o is not None))
    name = pick(rng, NAMES[what])
    assert not hasattr(objs[what], name)
    try:
        setattr(objs[what], name, 1)
    except (TypeError, AttributeError):
        raise ValueError('refused')
    return ha, modes, init, settings


def k_settings_type(rng, s, form):
    ha, modes, init, settings = form(s)
    if rng.random() < .5:
        hyl.Core(settings, ha)
    else:
        hyl.Core(ha, None)
    return ha, modes, init, settings


CALLS = {f.__name__[2:]: f for f in [k_no_guard, k_mink_parts, k_order, k_invariant_rhs, k_no_init, k_infeasible_set, k_other_basis, k_bounds,
                                     k_attribute, k_settings_type, k_late]}


def needs_permission(m):
    """an input which is a constant in disguise: fixed, and acting on a single variable"""
    for j in range(len(m['B'][0])):
        e = [float(q == j) for q in range(len(m['B'][0]))]
        up = [r for c, r in zip(m['Uc'], m['Ur']) if list(c) == e]
        lo = [-r for c, r in zip(m['Uc'], m['Ur']) if [-q for q in c] == e]
        if up and lo and any(abs(a - b) < 1e-6 for a in up for b in lo) and sum(row[j] != 0 for row in m['B']) == 1:
            return True
    return False


# ---- forms in which matrices may be handed over
def as_form(rng, kind):
    def mat(M):
        M = np.array(M, dtype=float)
        whole = np.all(M == np.round(M))
        p = kind if kind != 'mixed' else str(rng.choice(['list', 'array', 'csr', 'int']))
        if p == 'list':
            return M.tolist()
        if p == 'csr':
            return csr_matrix(M)
        if p == 'int' and whole:
            return M.astype(int) if rng.random() < .5 else M.astype(int).tolist()
        return M

    def vec(v):
        v = np.array(v, dtype=float)
        p = kind if kind != 'mixed' else str(rng.choice(['list', 'array', 'csr', 'int']))
        if p == 'list':
            return v.tolist()
        if p == 'int' and np.all(v == np.round(v)):
            return v.astype(int) if rng.random() < .5 else v.astype(int).tolist()
        return v

    def build(spec, over=None):
        ha = HybridAutomaton()
        modes = []
        later = []  # invariants may be given after the initial sets
        for m in spec['modes']:
            mode = ha.new_mode(m['name'])
            modes.append(mode)
            if m['A'] is not None:
                mode.set_dynamics(mat(m['A']))
                if m.get('B') is not None:
                    if needs_permission(m) or rng.random() < .5:
                        mode.set_inputs(mat(m['B']), mat(m['Uc']), vec(m['Ur']), allow_constants=True)
                    else:
                        mode.set_inputs(mat(m['B']), mat(m['Uc']), vec(m['Ur']))
                if m.get('inv'):
                    args = mode, mat([r for r, _ in m['inv']]), vec([b for _, b in m['inv']])
                    if rng.random() < .3:
                        later.append(args)
                    else:
                        mode.set_invariant(*args[1:])
        for t in spec['trans']:
            tr = ha.new_transition(modes[t['src']], modes[t['dst']], name=t.get('name', ''))
            if len(t['g']) == 0:
                tr.set_guard_true()
            else:
                tr.set_guard(mat(t['G']), vec(t['g']))
            if t.get('R') is not None or t.get('M') is not None:
                kw = {}
                if t.get('M') is not None:
                    kw = dict(reset_minkowski_csr=None if gen.added_by_default(t) else mat(t['M']),
                              reset_minkowski_constraints_csr=mat(t['Mc']), reset_minkowski_constraints_rhs=vec(t['Mr']))
                tr.set_reset(None if t.get('R') is None else mat(t['R']), **kw)
        init = []
        for i in spec['init']:
            mode = modes[i['mode']]
            if i['kind'] == 'box':
                b = i['box']
                lpi = lputil.from_box(b if rng.random() < .5 else np.array(b) if rng.random() < .5 else [tuple(q) for q in b], mode)
            elif i['kind'] == 'cons':
                lpi = lputil.from_constraints(mat(i['C']), vec(i['r']), mode)
            else:
                lpi = lputil.from_zonotope(vec(i['c']), [vec(q) for q in i['gens']], mode)
            init.append(StateSet(lpi, mode))
        for mode, rows, rhs in later:
            mode.set_invariant(rows, rhs)
        return ha, modes, init, hyl.make_settings(spec, over)
    return build


def base_spec(rng):
    spec = base_spec0(rng)
    for m in spec['modes']:
        if m.get('B') is not None and rng.random() < .4:  # an input with one value only
            j = int(rng.integers(len(m['B'][0])))
            up = [float(q == j) for q in range(len(m['B'][0]))]
            rows = [i for i, c in enumerate(m['Uc']) if list(c) == up]
            if rows:
                m['Uc'] = m['Uc'] + [[-q for q in up]]
                m['Ur'] = m['Ur'] + [-m['Ur'][rows[0]]]
    return spec


def base_spec0(rng):
    kw = dict(modes=(1, 3), dims=(1, 3), steps=(3, 6), n_init=(1, 2), p_dimchange=.5, p_mink=.35, p_inputs=.4, p_tt=.1, p_error=.5)
    if rng.random() < .4:  # whole numbers: integer matrices and vectors
        spec = gen.gen_spec(rng, **dict(kw, init_kinds=('box', 'zono', 'cons')))
        for m in spec['modes']:
            if m['A'] is not None:
                m['A'] = np.round(m['A']).tolist()
        for t in spec['trans']:
            if t.get('R') is not None:
                t['R'] = np.round(t['R']).tolist()
        return spec
    return gen.gen_spec(rng, **kw)


def s19_corrupt(rng, ctx):
    spec = base_spec(rng)
    over = {'agg': 'un' if rng.random() < .5 else {'type': str(rng.choice(['box', 'arnoldi', 'chull']))}}
    ok = copy.deepcopy(spec)
    # the uncorrupted model has to be accepted
    build = as_form(rng, 'mixed' if rng.random() < .5 else 'array')
    with hyl.quiet():
        try:
            ha, modes, init, settings = build(ok, over)
            hyl.new_core(ha, settings).setup(init)
        except RuntimeError as e:
            if 'No feasible initial' in str(e):
                raise Skip('no feasible initial state')
            raise
    names = sorted(SPEC) + sorted(CALLS) * 2
    for _ in range(6):
        name = names[int(rng.integers(len(names)))]
        s2 = copy.deepcopy(spec)
        where = 'definition'
        with hyl.quiet():
            try:
                if name in SPEC:
                    SPEC[name](rng, s2)
                    parts = build(s2, over)
                else:
                    parts = CALLS[name](rng, s2, lambda s: build(s, over))
                where = 'start'
                ha, modes, init, settings = parts
                core = hyl.new_core(ha, settings)
                core.setup(init)
                where = 'accepted'
                core.result and core.run_to_completion()
            except NotHere:
                continue
            except Skip:
                raise
            except Exception as e:  # noqa  - any exception is a refusal
                if where != 'accepted':
                    ctx.event('refused')
                    ctx.event('refused_' + name)
                    ctx.event('at_' + where)
                    ctx.nontrivial(name, where, type(e).__name__, len(spec['modes']), len(spec['trans']))
                    continue
                ctx.spec = s2
                ctx.violation('corruption "%s" was accepted; the analysis failed only later with %s' % (name, type(e).__name__))
                return
        ctx.spec = s2
        ctx.violation('corruption "%s" was accepted and the analysis gave a verdict (concrete error: %s)' % (name, core.result.has_concrete_error))
        return
    ctx.sample({'spec': spec})


def s19_forms(rng, ctx):
    """the same model as lists, arrays, sparse matrices and whole numbers: accepted, with the same result"""
    from .p_sys import run_sig, compare_sigs
    spec = base_spec(rng)
    over = {'agg': 'un' if rng.random() < .6 else {'type': 'box'}, 'stop_on_concrete_error': False}
    ctx.spec = spec
    try:
        base = run_sig(spec, over, limit=300)[0]
    except RuntimeError as e:
        if 'No feasible initial' in str(e):
            raise Skip('no feasible initial state')
        raise
    for kind in ('list', 'csr', 'int', 'mixed'):
        build = as_form(rng, kind)
        with hyl.quiet():
            ha, modes, init, settings = build(spec, over)
        sig = run_sig(spec, over, built=(ha, modes, settings), use_init=init)[0]
        bad = compare_sigs(base, sig)
        ctx.event('accepted_forms')
        if bad:
            ctx.violation('model given as %s: %s' % (kind, bad))
            return
    ctx.nontrivial('forms', len(spec['modes']), len(spec['trans']), len(base['log']))
