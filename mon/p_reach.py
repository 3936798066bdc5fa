"""Monitors for the reachability core: verdicts (S01, S02, S06), counter-examples (S03), exact reach sets
(S04), aggregated reach sets (S05).  Oracle: the step-synchronous reference interpreter in ref.py."""
import collections
import copy
import numpy as np
from . import gen, hyl, models, ref
from .ctx import Skip
from .ref import INF

TOL = 1e-4


def fixed_dirs(n, extra=3):
    return gen.check_dirs(np.random.default_rng(1000 + n), n, extra)


def explore(spec, max_nodes=60, delta=1e-4):
    st = spec['settings']
    ex = ref.Explorer(spec, delta=delta, max_nodes=max_nodes, urgent=st.get('process_urgent_guards', False),
                      skip_zero=st.get('skip_zero_dynamics_modes', True)).run()
    if not ex.nodes:
        raise Skip('no feasible initial state')
    for n in ex.nodes:
        s = n.sets[max(n.sets)]
        for i in range(s.dims):
            e = np.zeros(s.dims)
            e[i] = 1.
            if max(abs(s.sup(e)), abs(s.sup(-e))) > 1e4:
                raise Skip('state magnitude')
    return ex


def tt_rows(spec):
    """guard rows with the exactly opposite condition in the source invariant (time-triggered candidates)"""
    out = []
    for ti, t in enumerate(spec['trans']):
        inv = spec['modes'][t['src']].get('inv') or []
        for gi, (row, r) in enumerate(zip(t['G'], t['g'])):
            for irow, ir in inv:
                if ir == -r and all(a == -b for a, b in zip(irow, row)):
                    out.append((ti, gi))
                    break
    return out


def tt_relaxed(spec):
    """copy with those rows relaxed by the documented preprocessing tolerance, None if there are none"""
    if not spec['settings'].get('optimize_tt_transitions', True):
        return None
    rows = tt_rows(spec)
    if not rows:
        return None
    s2 = copy.deepcopy(spec)
    eps = spec['step'] / spec['num_steps'] / 1000.
    for ti, gi in rows:
        s2['trans'][ti]['g'][gi] += 1.5 * eps
    return s2


def sup_table(ex):
    refs = collections.defaultdict(list)
    for n in ex.nodes:
        for k, s in n.sets.items():
            refs[(n.mode, n.start + k, k)].append([s.sup(d) for d in fixed_dirs(s.dims)])
    return refs


def match(refs, got, tol=TOL):
    """first difference between two multiset tables of support vectors, or None"""
    for key in sorted(set(refs) | set(got)):
        a, b = refs.get(key, []), list(got.get(key, []))
        if len(a) != len(b):
            return 'at (mode, abs step, step in mode)=%s: %d reachable sets expected, %d computed' % (key, len(a), len(b))
        for v in a:
            v = np.array(v)
            d = [np.max(np.abs(v - np.array(w))) for w in b]
            j = int(np.argmin(d))
            if not d[j] <= tol * (1 + np.max(np.abs(v))):
                return 'at (mode, abs step, step in mode)=%s: extent off by %.3g (expected %s, closest computed %s)' % (
                    key, d[j], np.round(v, 5).tolist(), np.round(b[j], 5).tolist())
            b.pop(j)
    return None


def observe(spec, over=None, dirs=fixed_dirs):
    """drive the real code; returns (result, table of supports, list of observations)"""
    got = collections.defaultdict(list)
    log = []
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, over)
        core = hyl.new_core(ha, settings)
        ids = {id(m): i for i, m in enumerate(modes)}

        def on(s, serial, core):
            if s.mode.a_csr is None:
                return
            sup = hyl.lp_sup(s.lpi, dirs(s.lpi.dims))
            lo, hi = s.cur_steps_since_start
            k = s.cur_step_in_mode
            log.append((ids[id(s.mode)], lo, hi, k, sup, bool(s.is_concrete), serial))
            got[(ids[id(s.mode)], lo, k)].append(sup)
        res = hyl.drive(core, init, on)
    return res, got, log


def summarise(ex):
    return {'visits': len(ex.nodes), 'sets': sum(len(n.sets) for n in ex.nodes), 'errors': len(ex.errors),
            'paths': [str(n.path) for n in ex.nodes[:6]]}


def shape_sig(spec, ex):
    """what the execution looked like: which visits, when, how long"""
    return sorted((n.mode, n.start, len(n.sets), n.path) for n in ex.nodes), [e[:2] for e in ex.errors]


# ------------------------------------------------------------------------------------------- S04
def exact_case(rng, ctx, unit=1., spec=None, **kw):
    spec = spec or gen.gen_spec(rng, **kw)
    ctx.spec = spec
    ex = explore(spec, delta=max(1e-4, 1e-5 / unit))
    relaxed = tt_relaxed(spec)
    if relaxed is not None:
        ex2 = explore(relaxed)
        if match(sup_table(ex), sup_table(ex2), 5e-5) is not None:
            raise Skip('time-triggered tolerance matters')
    refs = sup_table(ex)
    if unit != 1.:
        if tt_rows(spec):
            raise Skip('time-triggered tolerance matters')
        ctx.spec = gen.scaled(spec, unit)
        ctx.event('other_units')
    res, got, log = observe(ctx.spec, {'agg': 'un', 'stop_on_concrete_error': False})
    if unit != 1.:
        got = {k: [[q / unit for q in v] for v in l] for k, l in got.items()}
    ctx.event('sets_compared', len(log))
    ctx.event('mode_visits', len(ex.nodes))
    ctx.event('successors', sum(1 for n in ex.nodes if len(n.path) > 1))
    ctx.event('with_inputs', sum(1 for n in ex.nodes if spec['modes'][n.mode].get('B')))
    ctx.nontrivial(shape_sig(spec, ex))
    ctx.sample({'spec': spec, 'summary': summarise(ex)})
    bad = match(refs, got, max(TOL, 3e-6 / unit))
    if bad:
        ctx.violation(bad)
    for mi, lo, hi, k, _, conc, _ in log:
        if lo != hi:
            ctx.violation('unaggregated set carries a step interval %d..%d' % (lo, hi))
        if not conc:
            ctx.violation('unaggregated set not marked as concrete')
    if bool(ex.errors) != bool(res.has_concrete_error):
        ctx.violation('verdict: error reachable=%s but concrete error reported=%s' % (bool(ex.errors), res.has_concrete_error))


def exact_mix(rng, ctx):
    exact_case(rng, ctx)


def exact_inputs(rng, ctx):
    exact_case(rng, ctx, p_inputs=1., p_inv=.9, modes=(1, 2), dims=(1, 3), p_zero=.1, n_init=(1, 1))


def exact_long(rng, ctx):
    exact_case(rng, ctx, p_inv=1., modes=(1, 1), dims=(1, 3), steps=(15, 30), p_inputs=.3, p_error=.3, n_init=(1, 1))


def exact_resets(rng, ctx):
    exact_case(rng, ctx, p_mink=.7, p_reset=.9, p_dimchange=.6, modes=(2, 4), p_backedge=.4, n_init=(1, 1), band=.9,
               steps=(4, 8), p_inputs=.2)


def exact_wide(rng, ctx):
    exact_case(rng, ctx, spec=gen.wide_spec(rng, error=rng.random() < .6))


def exact_models(rng, ctx):
    """the automata which come with the tool, started along their executions"""
    exact_case(rng, ctx, spec=models.near_spec(rng))
    ctx.event('models')


def exact_units(rng, ctx):
    """nothing depends on the unit the quantities are measured in"""
    exact_case(rng, ctx, unit=float(rng.choice([1e-3, 1e-2, 30., 300.])), p_tt=0.)


def exact_timed(rng, ctx):
    exact_case(rng, ctx, p_tt=1., p_zero=.15, modes=(2, 3), dims=(2, 3), p_inputs=.1, n_init=(1, 1))


# ------------------------------------------------------------------------------- tight error guards
STRATS = ['un', {'type': 'box'}, {'type': 'arnoldi'}, {'type': 'chull'}]


def rand_strat(rng, deagg=None, allow_un=True):
    p = rng.random()
    if allow_un and p < .15:
        return 'un'
    a = {'type': str(rng.choice(['box', 'arnoldi', 'chull'], p=[.35, .4, .25]))}
    a['deagg'] = bool(rng.random() < .4) if deagg is None else deagg
    a['require_same_path'] = bool(rng.random() < .6)
    a['add_guard'] = bool(rng.random() < .6)
    a['pop_type'] = str(rng.choice(['POP_LOWEST_MINTIME', 'POP_LOWEST_AVGTIME', 'POP_LARGEST_MAXTIME']))
    if a['deagg']:
        a['deagg_preference'] = str(rng.choice(['DEAGG_LEAVES_FIRST', 'DEAGG_ROOT_FIRST', 'DEAGG_MOST_STATES']))
    return a


def tight_spec(rng, want_unsafe, max_nodes=40, spec=None, **kw):
    """an automaton plus an error guard that just cuts (or just misses) one of its reachable sets"""
    kw.setdefault('p_error', 0.)
    spec = gen.gen_spec(rng, **kw) if spec is None else spec
    ex = explore(spec, max_nodes)
    nodes = [n for n in ex.nodes if len(n.sets) > 1]
    if not nodes:
        raise Skip('nothing to aim at')
    # prefer late visits: those depend on everything before
    node = nodes[-1 - int(min(len(nodes) - 1, rng.geometric(.5) - 1))]
    k = int(rng.choice([q for q in node.sets if q > 0]))
    s = node.sets[k]
    d = gen.rand_dir(rng, s.dims)
    d = d / np.linalg.norm(d)
    top = s.sup(d)
    every = max(q.sup(d) for n in ex.nodes if n.mode == node.mode for j, q in n.sets.items()
                if j > 0 or spec['settings'].get('process_urgent_guards'))
    width = s.sup(d) + s.sup(-d)
    scale = 1 + abs(top)
    if want_unsafe:
        depth = min(.15 * width, .05 * scale)
        depth = max(depth, 2e-3 * scale)
        thr = top - depth
        G, g = [(-d).tolist()], [-thr]
        if depth >= width:
            thr = top - depth
    else:
        thr = every + 2e-3 * (1 + abs(every))
        G, g = [(-d).tolist()], [-thr]
    spec['modes'].append({'name': 'bad', 'A': None, 'inv': []})
    spec['trans'].insert(int(rng.integers(len(spec['trans']) + 1)),
                         {'src': node.mode, 'dst': len(spec['modes']) - 1, 'G': G, 'g': g, 'name': 'tobad'})
    ex2 = explore(spec, max_nodes)
    return spec, ex2, node, k


def run_verdict(spec, over):
    with hyl.quiet() as buf:
        ha, modes, init, settings = hyl.build(spec, over)
        core = hyl.new_core(ha, settings)
        res = core.run(init)
    return res, buf.getvalue(), modes


VKW = dict(modes=(1, 3), dims=(1, 3), steps=(4, 9), n_init=(1, 3), p_inputs=.25, band=.3, p_backedge=.3)


def verdict_over(rng, deagg=None, allow_un=True):
    over = {'agg': rand_strat(rng, deagg, allow_un)}
    p = rng.random()
    if p < .3:
        over['stop_on_aggregated_error'] = True
    elif p < .5:
        over['stop_on_concrete_error'] = False
    if rng.random() < .3:
        over['make_counterexample'] = False
    return over


def s01_case(rng, ctx, spec=None):
    """unsafe by construction: must be reported"""
    spec, ex, node, k = tight_spec(rng, True, spec=spec, **VKW)
    ctx.spec = spec
    if not ex.errors:
        raise Skip('aimed guard not reached')
    over = verdict_over(rng)
    spec['over'] = over
    if tt_relaxed(spec) is not None:
        ctx.event('with_tt')
    res, _, _ = run_verdict(spec, over)
    ctx.event('unsafe_automata')
    ctx.event('agg_' + (over['agg'] if isinstance(over['agg'], str) else over['agg']['type'] +
                        ('+deagg' if over['agg']['deagg'] else '')))
    ctx.nontrivial(shape_sig(spec, ex), over)
    ctx.sample({'spec': spec, 'summary': summarise(ex)})
    if not (res.has_aggregated_error or res.has_concrete_error):
        ctx.violation('missed error: a real execution reaches the error mode at abs step %s via %s, verdict was safe (%s)' % (
            ex.errors[0][0], ex.errors[0][3], over))


def s01_models(rng, ctx):
    """the automata which come with the tool"""
    s01_case(rng, ctx, models.near_spec(rng))
    ctx.event('models')


def s01_approx(rng, ctx):
    """the same with the approximation models, which must contain the discrete-time executions of modes"""
    kw = dict(VKW)
    kw.update(p_tt=0., p_inputs=.2, p_zero=.0)
    spec, ex, node, k = tight_spec(rng, True, **kw)
    ctx.spec = spec
    if not ex.errors:
        raise Skip('aimed guard not reached')
    over = verdict_over(rng, deagg=False)
    over['approx_model'] = int(rng.choice([1, 2]))
    over['skip_zero_dynamics_modes'] = False
    spec['over'] = over
    if over['approx_model'] == 2:
        check_lgg_applicable(spec)
    res, _, _ = run_verdict(spec, over)
    ctx.event('unsafe_automata')
    ctx.event('approx_%d' % over['approx_model'])
    ctx.nontrivial(shape_sig(spec, ex), over)
    if not (res.has_aggregated_error or res.has_concrete_error):
        ctx.violation('missed error with an approximation model (%s): abs step %s via %s' % (
            over, ex.errors[0][0], ex.errors[0][3]))


def check_lgg_applicable(spec):
    """the model itself refuses too small / too large bloating terms"""
    for m in spec['modes']:
        if m['A'] is not None and m.get('B') is not None:
            A = np.array(m['A'])
            nrm = np.abs(A).sum(axis=1).max()
            if nrm < 1e-7:
                continue
            B = np.array(m['B'])
            rv = max(ref.RSet.polyhedron(m['Uc'], m['Ur']).linmap(B).sup(s * e)
                     for e in np.eye(len(A)) for s in (1., -1.))
            h = spec['step']
            beta = (np.exp(h * nrm) - 1 - h * nrm) * abs(rv) / nrm
            if beta < 1e-5 or beta > .5 * 1000:
                raise Skip('lgg beta out of range')


def s02_case(rng, ctx, spec=None):
    """safe by construction: no concrete error"""
    spec, ex, node, k = tight_spec(rng, False, spec=spec, **VKW)
    ctx.spec = spec
    if ex.errors:
        raise Skip('reached after all')
    relaxed = tt_relaxed(spec)
    if relaxed is not None and explore(relaxed).errors:
        raise Skip('time-triggered tolerance matters')
    over = verdict_over(rng)
    if over['agg'] == 'un' or rng.random() < .5:
        over.pop('stop_on_aggregated_error', None)
    spec['over'] = over
    res, _, _ = run_verdict(spec, over)
    ctx.event('safe_automata')
    ctx.event('aggregated_error_only', int(bool(res.has_aggregated_error)))
    ctx.nontrivial(shape_sig(spec, ex), over)
    ctx.sample({'spec': spec, 'summary': summarise(ex)})
    if res.has_concrete_error:
        ctx.violation('concrete error reported, but no execution reaches the error mode (%s)' % over)
    if over['agg'] == 'un' and res.has_aggregated_error:
        ctx.violation('aggregated error reported by an analysis which does not aggregate')
    if res.counterexample:
        ctx.violation('counter-example produced for a safe automaton')


def s02_models(rng, ctx):
    s02_case(rng, ctx, models.near_spec(rng))
    ctx.event('models')


def s02_approx(rng, ctx):
    """approximation models never claim a concrete error"""
    kw = dict(VKW)
    kw.update(p_error=1., p_tt=0.)
    spec = gen.gen_spec(rng, **kw)
    ctx.spec = spec
    over = verdict_over(rng, deagg=False)
    over['approx_model'] = int(rng.choice([1, 2]))
    if over['approx_model'] == 2:
        check_lgg_applicable(spec)
    explore(spec, 30)
    res, _, _ = run_verdict(spec, over)
    ctx.event('approx_runs')
    ctx.event('approx_errors', int(bool(res.has_aggregated_error)))
    ctx.nontrivial(over, spec['trans'])
    if res.has_concrete_error or res.counterexample:
        ctx.violation('an over-approximating model reported a concrete error / counter-example')


# ------------------------------------------------------------------------------------------- S05
def s05_case(rng, ctx, spec=None, **kw):
    args = dict(modes=(1, 3), dims=(1, 3), steps=(5, 10), n_init=(1, 3), p_inputs=.25, band=.2, p_backedge=.35,
                p_error=.2)
    args.update(kw)
    spec = spec or gen.gen_spec(rng, **args)
    ctx.spec = spec
    ex = explore(spec, 80)
    over = {'agg': rand_strat(rng, deagg=False, allow_un=False), 'stop_on_concrete_error': False}
    spec['over'] = over
    res, got, log = observe(spec, over)
    table = collections.defaultdict(list)
    for mi, lo, hi, k, sup, conc, serial in log:
        table[(mi, k)].append((lo, hi, np.array(sup), conc))
    agg = sum(1 for r in log if not r[5])
    ctx.event('aggregated_sets_observed', agg)
    ctx.event('reference_sets', sum(len(n.sets) for n in ex.nodes))
    if agg:
        ctx.event('automata_with_aggregation')
        ctx.nontrivial(shape_sig(spec, ex), over)
        ctx.sample({'spec': spec, 'summary': summarise(ex), 'aggregated_sets': agg})
    for n in ex.nodes:
        for k, s in n.sets.items():
            sup = np.array([s.sup(d) for d in fixed_dirs(s.dims)])
            tol = TOL * (1 + np.max(np.abs(sup)))
            best = None
            for lo, hi, w, conc in table.get((n.mode, k), []):
                if lo <= n.start + k <= hi:
                    gap = float(np.max(sup - w))
                    best = gap if best is None else min(best, gap)
                    if gap <= tol:
                        break
            else:
                ctx.violation('states reachable at mode %d, abs step %d, step in mode %d via %s are in no computed set '
                              '(closest misses %s) with %s' % (n.mode, n.start + k, k, n.path, best, over))
                return
    if ex.errors and not (res.has_aggregated_error or res.has_concrete_error):
        ctx.violation('error missed with aggregation %s' % over)


def s05_mix(rng, ctx):
    s05_case(rng, ctx)


def s05_models(rng, ctx):
    s05_case(rng, ctx, models.near_spec(rng, (6, 16)))
    ctx.event('models')


def some_dirs(n):
    if n <= 13:
        return fixed_dirs(n)
    rng = np.random.default_rng(2000 + n)
    return [np.eye(n)[i] * q for i in rng.integers(n, size=5) for q in (1., -1.)] + list(rng.normal(size=(3, n)) / np.sqrt(n))


def one_execution(rng, spec, flows, corner):
    """random states of one execution: [(mode, abs step, step in mode, state)], None for the mode once an error mode is entered;
    stops where a condition is too close to its boundary"""
    def sat(rows, rhs, x):
        if not len(rhs):
            return True
        v = np.array(rows) @ x - np.array(rhs)
        m = 1e-6 * (1 + np.abs(rhs) + np.abs(np.array(rows)) @ np.abs(x))
        return True if np.all(v < -m) else False if np.any(v > m) else None
    ini = spec['init'][int(rng.integers(len(spec['init'])))]
    mi, x, k, out = ini['mode'], corner(ini), 0, []
    for step in range(spec['num_steps'] + 1):
        inv = spec['modes'][mi]['inv']
        ok = sat([r for r, _ in inv], [b for _, b in inv], x)
        if k == 0:
            if not ok:
                return out
            out.append((mi, step, 0, x))
        else:
            out.append((mi, step, k, x))
            for t in spec['trans']:
                if t['src'] == mi and rng.random() < .6 and sat(t['G'], t['g'], x):
                    if spec['modes'][t['dst']]['A'] is None:
                        out.append((None, step, 0, x))
                        continue
                    if t.get('R') is not None:
                        x = np.array(t['R']) @ x
                    if t.get('M') is not None:
                        x = x + np.array(t['M']) @ ref.RSet.polyhedron(t['Mc'], t['Mr']).support(rng.normal(size=len(t['Mc'][0])))[2]
                    mi, k, inv = t['dst'], 0, spec['modes'][t['dst']]['inv']
                    ok = sat([r for r, _ in inv], [b for _, b in inv], x)
                    if ok:
                        out.append((mi, step, 0, x))
                    break
            if not ok:
                return out
        if mi not in flows:
            m = spec['modes'][mi]
            E, G = ref.flow_matrices(m['A'], m.get('B'), spec['step'])
            U = [] if G is None else [G @ ref.RSet.polyhedron(m['Uc'], m['Ur']).support(rng.normal(size=G.shape[1]))[2] for _ in range(12)]
            flows[mi] = E, U
        E, U = flows[mi]
        x = E @ x
        if U:
            x = x + U[int(rng.integers(len(U)))]
        k += 1
        m = spec['modes'][mi]
        if k > 1 and not np.any(m['A']) and not U:
            return out
    return out


def s05_whole(rng, ctx):
    """the automata which come with the tool, as a whole: states of single executions are in the computed sets"""
    spec = models.model(models.NAMES[int(rng.integers(len(models.NAMES)))])
    fac = float(rng.choice([1., 2., 5.]))
    spec['num_steps'] = max(3, min(int(spec['num_steps'] / fac), 12 if spec['name'] == models.BIG else 60))
    spec['step'] *= fac
    if spec.pop('urgent'):
        spec['settings']['process_urgent_guards'] = True
    if rng.random() < .3:
        spec['settings']['do_guard_strengthening'] = False
    over = {'agg': rand_strat(rng, deagg=False), 'stop_on_concrete_error': False, 'make_counterexample': False}
    sets = {}

    def corner(ini):
        key = id(ini)
        if key not in sets:
            s = ref.RSet.box(ini['box']) if ini['kind'] == 'box' else ref.RSet.zono(ini['c'], ini['gens']) if ini['kind'] == 'zono' \
                else ref.RSet.polyhedron(ini['C'], ini['r'])
            sets[key] = [np.array(s.support(rng.normal(size=s.dims))[2]) for _ in range(8)]
        w = rng.dirichlet(np.full(8, .3))
        return sum(q * v for q, v in zip(w, sets[key]))
    res, _, log = observe(spec, over, some_dirs)
    table = collections.defaultdict(list)
    for mi, lo, hi, k, sup, conc, serial in log:
        table[(mi, k)].append((lo, hi, np.array(sup)))
    flows, n_err = {}, 0
    mats = {}
    for _ in range(25):
        for mi, step, k, x in one_execution(rng, spec, flows, corner):
            if mi is None:
                n_err += 1
                continue
            if np.max(np.abs(x)) > 1e4:
                break
            if len(x) not in mats:
                mats[len(x)] = np.array(some_dirs(len(x)))
            v = mats[len(x)] @ x
            ctx.event('states_checked')
            tol = 1e-5 * (1 + np.max(np.abs(v)))
            if not any(lo <= step <= hi and np.max(v - w) <= tol for lo, hi, w in table.get((mi, k), [])):
                ctx.spec = {'model': spec['name'], 'step': spec['step'], 'num_steps': spec['num_steps'], 'over': over}
                ctx.violation('%s: the state %s of an execution, in mode %d at abs step %d (step %d in the mode), is in no computed set (%s)' % (
                    spec['name'], np.round(x, 6).tolist()[:12], mi, step, k, over))
                return
    ctx.event('whole_models')
    ctx.nontrivial(spec['name'], spec['step'], over)
    if n_err and not (res.has_aggregated_error or res.has_concrete_error):
        ctx.violation('%s: an execution enters an error mode, the verdict is safe (%s)' % (spec['name'], over))


def s05_resets(rng, ctx):
    s05_case(rng, ctx, modes=(2, 3), p_reset=.9, p_mink=.4, p_dimchange=.4, p_inputs=.15)


def s05_inits(rng, ctx):
    s05_case(rng, ctx, modes=(1, 2), n_init=(2, 4), p_backedge=.9, steps=(6, 12))


# ------------------------------------------------------------------------------------------- S06
def s06_case(rng, ctx, want=None, spec=None, **kw):
    want = bool(rng.random() < .5) if want is None else want
    args = dict(VKW)
    args.update(band=.15, p_inputs=.2, steps=(5, 9), p_tt=.05)
    args.update(kw)
    spec, ex, node, k = tight_spec(rng, want, spec=spec, **args)
    ctx.spec = spec
    relaxed = tt_relaxed(spec)
    if relaxed is not None and bool(explore(relaxed).errors) != bool(ex.errors):
        raise Skip('time-triggered tolerance matters')
    over = {'agg': rand_strat(rng, deagg=True, allow_un=False)}
    over['stop_on_concrete_error'] = bool(rng.random() < .7)
    spec['over'] = over
    res, _, _ = run_verdict(spec, over)
    ctx.event('automata')
    ctx.event('unsafe', int(bool(ex.errors)))
    ctx.event('refined', int(bool(res.has_aggregated_error)))
    ctx.nontrivial(shape_sig(spec, ex), over)
    ctx.sample({'spec': spec, 'summary': summarise(ex)})
    if bool(res.has_concrete_error) != bool(ex.errors):
        ctx.violation('refinement ended with concrete error=%s, exact answer is %s (%s)' % (
            res.has_concrete_error, bool(ex.errors), over))


def s06_mix(rng, ctx):
    s06_case(rng, ctx)


def s06_safe(rng, ctx):
    """just-missed guards: aggregation usually hits them, so refinement has to clear them"""
    s06_case(rng, ctx, want=False, n_init=(1, 1), modes=(2, 3), band=.0)


def s06_join(rng, ctx):
    """several paths meeting in one mode: sets of different origin get aggregated, refined and split together"""
    s06_case(rng, ctx, spec=gen.meet_spec(rng) if rng.random() < .4 else gen.join_spec(rng))


def s06_hops(rng, ctx):
    """modes with inputs where nothing happens for several steps: refined sets advance by more than one step at a time"""
    s06_case(rng, ctx, n_init=(1, 1), modes=(2, 3), dims=(1, 3), p_inputs=1., p_inv=.25, steps=(6, 10), band=.1, p_zero=0.)


def s06_sets(rng, ctx):
    from .p_approx import refined_sets
    refined_sets(rng, ctx)


def s06_models(rng, ctx):
    s06_case(rng, ctx, spec=models.near_spec(rng, (5, 12)))
    ctx.event('models')


def s06_deep(rng, ctx):
    s06_case(rng, ctx, n_init=(1, 1), modes=(3, 4), band=.1, steps=(6, 10), p_inputs=.1, p_inv=.7)


# ------------------------------------------------------------------------------- aimed over-approximation
def gap_spec(rng, spec, over, ex):
    """(spec with an error guard) where the guard is a small box around a point which the aggregated analysis covers but which
    no exactly computed reachable set of that mode comes near; None if there is no such point"""
    seen = []
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, dict(over, stop_on_concrete_error=False, stop_on_aggregated_error=False))
        core = hyl.new_core(ha, settings)
        ids = {id(m): i for i, m in enumerate(modes)}

        def on(s, serial, core):
            k = s.cur_step_in_mode
            if s.mode.a_csr is None or k == 0 or rng.random() > .35:
                return
            c = s.lpi.clone()
            cols = [c.cur_vars_offset + i for i in range(c.dims)]
            pts = [np.array(c.minimize(direction_vec=list(rng.normal(size=c.dims)), columns=cols)) for _ in range(3)]
            w = rng.dirichlet(np.ones(3) * .6)
            pts.append(sum(a * b for a, b in zip(w, pts)))
            seen.extend((ids[id(s.mode)], p) for p in pts)
        hyl.drive(core, init, on)
    rng.shuffle(seen)
    exact = collections.defaultdict(list)
    for n in ex.nodes:
        for k, s in n.sets.items():
            exact[n.mode].append(s)
    for mi, p in seen[:20]:
        rad = 6e-3 * (1 + float(np.max(np.abs(p))))
        if any(s.contains(p, 2 * rad) for s in exact[mi]):
            continue
        n = len(p)
        rad /= 1.5
        G = np.vstack([np.eye(n), -np.eye(n)])
        g = np.concatenate([p + rad, rad - p])
        s2 = copy.deepcopy(spec)
        s2['modes'].append({'name': 'gap', 'A': None, 'inv': []})
        s2['trans'].append({'src': mi, 'dst': len(s2['modes']) - 1, 'G': G.tolist(), 'g': g.tolist(), 'name': 'togap'})
        return s2
    return None


def s02_gap(rng, ctx):
    """the error guard holds only states which exist by aggregation alone"""
    p = rng.random()
    if p < .4:
        spec = gen.join_spec(rng)
    elif p < .7:
        spec = gen.meet_spec(rng)
    else:
        spec = gen.gen_spec(rng, p_error=0., modes=(2, 3), dims=(1, 3), steps=(5, 9), n_init=(1, 3), p_inputs=.15, band=.3,
                            p_backedge=.5, p_tt=0.)
    ctx.spec = spec
    ex = explore(spec, 60)
    over = {'agg': rand_strat(rng, None, False)}
    if rng.random() < .6:
        over['agg']['require_same_path'] = False
    spec2 = gap_spec(rng, spec, over, ex)
    if spec2 is None:
        raise Skip('no gap found')
    ctx.spec = spec2
    ex2 = explore(spec2, 60)
    if ex2.errors:
        raise Skip('reached after all')
    relaxed = tt_relaxed(spec2)
    if relaxed is not None and explore(relaxed).errors:
        raise Skip('time-triggered tolerance matters')
    if rng.random() < .4:
        over['make_counterexample'] = False
    if rng.random() < .3:
        over['stop_on_concrete_error'] = False
    spec2['over'] = over
    res, _, _ = run_verdict(spec2, over)
    ctx.event('gap_automata')
    ctx.event('gap_reached_by_aggregation', int(bool(res.has_aggregated_error)))
    ctx.nontrivial(shape_sig(spec2, ex2), over)
    ctx.sample({'spec': spec2, 'summary': summarise(ex2)})
    if res.has_concrete_error:
        ctx.violation('concrete error reported, but only an aggregation covers the states of the error guard (%s)' % over)
    if res.counterexample:
        ctx.violation('counter-example produced for a safe automaton')


# ------------------------------------------------------------------------------------------- sets that only touch a guard
def s01_touch(rng, ctx):
    """guards are closed: a guard which only the border of a set reaches is enabled.  All numbers are multiples of 1/8
    and the constrained variables do not move, so no rounding is involved anywhere."""
    n = int(rng.integers(1, 4))
    N = int(rng.integers(2, 7))
    h = float(rng.choice([.25, .5, .125]))
    q = lambda lo, hi: float(rng.integers(int(lo * 8), int(hi * 8) + 1)) / 8.  # noqa
    box = []
    for _ in range(n):
        lo = q(-2, 2)
        box.append([lo, lo + (0. if rng.random() < .25 else q(.125, 2))])
    zero = rng.random() < .5 or n == 1
    A = np.zeros((n, n))
    still = list(range(n))
    if not zero:
        A[n - 1, :n - 1] = [q(-1, 1) for _ in range(n - 1)]
        still = list(range(n - 1))
    lo, hi = np.array(box).T
    G, g = [], []
    for _ in range(int(rng.integers(1, 3))):
        d = np.zeros(n)
        i = int(rng.choice(still))
        d[i] = rng.choice([1., -1.])
        if rng.random() < .4 and len(still) > 1:
            j = int(rng.choice([k for k in still if k != i]))
            d[j] = rng.choice([1., -1.])
        if any((np.array(r) == -d).all() for r in G):
            continue
        G.append(d.tolist())
        g.append(float(np.where(d > 0, lo, hi) @ d))  # the least value
    # all rows touch: keep only those which one corner satisfies together
    corner = None
    for k in range(2 ** n):
        x = np.array([box[i][(k >> i) & 1] for i in range(n)])
        if all(np.array(r) @ x <= b for r, b in zip(G, g)):
            corner = x
            break
    if corner is None:
        G, g = G[:1], g[:1]
    modes = [{'name': 'm0', 'A': A.tolist(), 'inv': []}, {'name': 'err', 'A': None, 'inv': []}]
    trans = [{'src': 0, 'dst': 1, 'name': 'e', 'G': G, 'g': g}]
    if rng.random() < .4: # one mode in between
        modes.insert(1, {'name': 'm1', 'A': np.zeros((n, n)).tolist(), 'inv': []})
        trans = [{'src': 0, 'dst': 1, 'name': 't', 'G': [], 'g': []}, {'src': 1, 'dst': 2, 'name': 'e', 'G': G, 'g': g}]
    spec = {'step': h, 'num_steps': N, 'modes': modes, 'trans': trans, 'init': [{'mode': 0, 'kind': 'box', 'box': box}],
            'settings': {'process_urgent_guards': bool(rng.random() < .4), 'optimize_tt_transitions': bool(rng.random() < .5),
                         'do_guard_strengthening': bool(rng.random() < .5)}, 'tags': ['touch']}
    ctx.spec = spec
    over = verdict_over(rng)
    if over['agg'] != 'un' and over['agg']['type'] != 'box':
        # solving for points of hulls and of turned boxes involves rounding
        over['agg'] = 'un' if rng.random() < .5 else dict(over['agg'], type='box')
    spec['over'] = over
    res, _, _ = run_verdict(spec, over)
    ctx.event('touching')
    ctx.nontrivial(n, N, zero, len(G), len(modes), str(over))
    if not (res.has_aggregated_error or res.has_concrete_error):
        ctx.violation('missed error: the closed guard %s <= %s is touched by the set %s, verdict was safe (%s)' % (G, g, box, over))
