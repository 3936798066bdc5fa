"""S08: sets computed with an approximation model contain the continuous behaviour.

Oracle: dense-time reference on a sub-step grid (own matrix exponential, inputs changing at every sub-step, entry
conditions and invariants in phase), compared by support values in many directions."""
import numpy as np
from . import gen, ref, hyl
from .ctx import Skip
from .p_lp import view_rset
from .p_reach import rand_strat, tight_spec, check_lgg_applicable, fixed_dirs, shape_sig, explore
from .ref import Ambiguous, TooBig
from hylaa import aggdag as _aggdag

CHULL, LGG = 1, 2
TOL = 2e-4


class Dense:
    """reference propagation of one set in one mode: phase sub-steps, then whole steps of m sub-steps"""

    def __init__(self, spec, mi, m):
        self.mode = spec['modes'][mi]
        self.m = m
        self.E, self.G = ref.flow_matrices(self.mode['A'], self.mode.get('B'), spec['step'] / m)
        inv = self.mode.get('inv') or []
        self.rows = [r for r, _ in inv]
        self.rhs = [b for _, b in inv]

    def sub(self, s, n):
        for _ in range(n):
            if self.G is None:
                s = s.linmap(self.E)
            else:
                s = s.linmap_plus(self.E, self.G, self.mode['Uc'], self.mode['Ur'])
        return s

    def trim(self, s):
        """(set, None if cut away / too close to call)"""
        rows, rhs = [], []
        for row, r in zip(self.rows, self.rhs):
            if s.sup(np.array(row, dtype=float)) > r - 1e-9 * (1 + abs(r)):
                rows.append(row)
                rhs.append(r)
        if not rows:
            return s
        t = s.meet(rows, rhs)
        return t if t.slack() > 1e-4 else None

    def chain(self, s, phase, kmax):
        """sets at phase + 0, 1, .. steps; the invariant held at phase + 0 .. k-1"""
        s = self.sub(s, phase)
        out = [s]
        for _ in range(kmax):
            s = self.trim(s)
            if s is None:
                return out
            s = self.sub(s, self.m)
            out.append(s)
        return out


def dirs_for(n):
    return fixed_dirs(n, 6 if n > 1 else 0)


def covered(want, got):
    """largest miss of the reference by one computed set, relative"""
    want, got = np.array(want), np.array(got)
    return float(np.max(want - got) / (1 + np.max(np.abs(want))))


class Watch:
    """everything a run computed: per node of the dag, the set before the model was applied and the sets per step"""

    def __init__(self, spec):
        self.spec = spec
        self.nodes = {}   # id -> record
        self.keep = []
        self.names = {m['name']: i for i, m in enumerate(spec['modes'])}

    def on_node(self, node):
        st = node.stateset
        if st is None or st.mode.a_csr is None:
            return
        self.keep.append(node)
        rec = {'mode': self.names[st.mode.name], 'base': view_rset(st.lpi), 'since': tuple(st.cur_steps_since_start), 'sets': {},
               'parents': len(node.parent_ops), 'concrete': bool(st.is_concrete), 'split': node.stateset.aggstring not in ('full', 'init')}
        self.nodes[id(node)] = rec

    def see(self, node, replay):
        rec = self.nodes.get(id(node))
        st = node.stateset
        if rec is None or st.cur_step_in_mode in rec['sets']:
            return
        if not st.lpi.is_feasible():
            return
        rec['sets'][st.cur_step_in_mode] = hyl.lp_sup(st.lpi, dirs_for(st.lpi.dims))
        if replay:
            rec['replayed'] = True


def watched_run(spec, over):
    w = Watch(spec)
    cls = _aggdag.AggDagNode
    orig = cls.__init__

    def init(self, *a, **kw):
        orig(self, *a, **kw)
        w.on_node(self)
    with hyl.quiet():
        ha, modes, init_sets, settings = hyl.build(spec, over)
        core = hyl.new_core(ha, settings)
        cls.__init__ = init
        try:
            core.setup(init_sets)
            prev = None
            while not core.is_finished():
                core.do_step()
                node = core.aggdag.cur_node
                if prev is not None and prev is not node:
                    w.see(prev, False)  # stepped and left inside one call
                prev = node
                if node is not None and node.get_cur_state() is not None:
                    w.see(node, False)
                man = core.aggdag.deagg_man
                for child in man.deagg_children or []:
                    if not child.node_left_invariant():
                        w.see(child, True)
        finally:
            cls.__init__ = orig
    w.keep = []
    return w, core.result


def rand_over(rng, model, deagg):
    over = {'agg': rand_strat(rng, deagg=deagg), 'approx_model': model, 'stop_on_concrete_error': False}
    if rng.random() < .5:
        over['skip_zero_dynamics_modes'] = False
    return over


def applicable(spec):
    """the support-function model refuses dynamics whose bloating term leaves [1e-7, 1e5]"""
    check_lgg_applicable(spec)
    for m in spec['modes']:
        if m['A'] is not None and np.abs(np.array(m['A'])).sum(axis=1).max() * spec['step'] > 1.5:
            raise Skip('step too large for the model')


def local_check(ctx, w, spec, model):
    """every node: its sets against what the continuous dynamics make of the set it started from"""
    m = 1 if model == CHULL else 4
    phases = (0, 1) if model == CHULL else (0, 1, 2, 4)
    for rec in w.nodes.values():
        if not rec['sets'] or 0 not in rec['sets']:
            continue
        den = Dense(spec, rec['mode'], m)
        base = rec['base']
        base = base.meet(den.rows, den.rhs)
        if base.slack() < 1e-6:
            continue
        kmax = max(rec['sets'])
        dirs = dirs_for(base.dims)
        for ph in phases:
            for k, s in enumerate(den.chain(base, ph, kmax)):
                if k not in rec['sets']:
                    continue
                want = [s.sup(d) for d in dirs]
                if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e4:
                    break
                ctx.event('sets_compared')
                ctx.event('between_steps', int(0 < ph < m))
                ctx.event('replayed_sets', int(bool(rec.get('replayed'))))
                ctx.event('of_aggregates', int(rec['parents'] > 1))
                miss = covered(want, rec['sets'][k])
                if not miss <= TOL:
                    ctx.violation('%s model: the set computed for mode %d at step %d does not contain the states reached '
                                  '%.3f steps after it was entered (misses %.3g)%s' % (
                                      'convex-hull' if model == CHULL else 'support-function', rec['mode'], k, k + ph / m, miss,
                                      ', set of a refinement' if rec.get('replayed') else ''))
                    return


class DensePaths:
    """path enumeration: dwell k whole steps plus a phase in every mode, jump, repeat"""

    def __init__(self, spec, model, rng, urgent):
        self.spec, self.model, self.rng, self.urgent = spec, model, rng, urgent
        self.m = 1 if model == CHULL else 3
        self.out = []       # mode, abs step, k, set, label
        self.count = 0

    def run(self):
        work = [(mi, 0, s, 'init', 0) for mi, s in ref.Explorer(self.spec).init_sets()]
        N = self.spec['num_steps']
        while work:
            mi, start, s, label, depth = work.pop(0)
            den = Dense(self.spec, mi, self.m)
            s = den.trim(s)
            if s is None:
                continue
            self.count += 1
            if self.count > 14:
                return self
            zero = not np.any(np.array(self.spec['modes'][mi]['A'])) and den.G is None
            phases = [0, self.m]
            if self.model == LGG:
                phases.append(int(self.rng.integers(1, self.m)))
            for ph in phases:
                for k, t in enumerate(den.chain(s, ph, min(N - start, 1 if zero else N))):
                    self.out.append((mi, start + k, k, t, label + ' +%d.%d/%d' % (k, ph, self.m)))
                    if k == 0 and not self.urgent or depth >= 2 or start + k > N:
                        continue
                    for ti, tr in enumerate(self.spec['trans']):
                        if tr['src'] != mi or self.spec['modes'][tr['dst']]['A'] is None:
                            continue
                        gs = t.meet(tr['G'], tr['g']) if len(tr['g']) else t
                        if len(tr['g']) and gs.slack() < 1e-3:
                            continue
                        work.append((tr['dst'], start + k, ref.Explorer.apply_reset(gs, tr), label + ' t%d@%d' % (ti, k), depth + 1))
        return self


def paths_check(ctx, w, spec, model, rng, urgent):
    paths = DensePaths(spec, model, rng, urgent).run()
    table = {}
    for rec in w.nodes.values():
        for k, sup in rec['sets'].items():
            lo, hi = rec['since'][0] + k, rec['since'][1] + k
            table.setdefault((rec['mode'], k), []).append((lo, hi, sup))
    for mi, ab, k, s, label in paths.out:
        dirs = dirs_for(s.dims)
        want = [s.sup(d) for d in dirs]
        if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e4:
            continue
        ctx.event('path_sets')
        ctx.event('path_successors', int(' t' in label))
        best = [covered(want, sup) for lo, hi, sup in table.get((mi, k), []) if lo <= ab <= hi]
        if not best or min(best) > TOL:
            ctx.violation('states of mode %d reached along %s are in no set computed for step %d in the mode, step %d since '
                          'the start (closest misses %s)' % (mi, label, k, ab, min(best) if best else 'none computed'))
            return


def case(rng, ctx, model, deagg=False, paths=True, spec=None, **kw):
    if spec is None:
        args = dict(modes=(1, 3), dims=(1, 3), steps=(3, 8), n_init=(1, 2), p_inputs=.5, p_error=.3, p_tt=.05, band=.2,
                    step=float(rng.choice([.05, .1, .2, .3])))
        args.update(kw)
        spec = gen.gen_spec(rng, **args)
    sharpen(rng, spec)
    ctx.spec = spec
    spec['settings'].setdefault('skip_zero_dynamics_modes', True)
    if model == LGG:
        applicable(spec)
    ex = explore(spec, 60)
    over = rand_over(rng, model, deagg)
    spec['over'] = over
    w, res = watched_run(spec, over)
    ctx.event('runs')
    ctx.event('nodes', len(w.nodes))
    ctx.event('replayed_nodes', sum(1 for r in w.nodes.values() if r.get('replayed')))
    ctx.nontrivial(shape_sig(spec, ex), over, len(w.nodes))
    ctx.sample({'spec': spec, 'nodes': [(r['mode'], r['since'], r['parents'], sorted(r['sets'])) for r in list(w.nodes.values())[:8]]})
    local_check(ctx, w, spec, model)
    if paths and not ctx.viol:
        paths_check(ctx, w, spec, model, rng, spec['settings'].get('process_urgent_guards', False))


def sharpen(rng, spec):
    """points instead of boxes and constant inputs: nothing hides a missing bloating term"""
    if rng.random() < .5:
        for ini in spec['init']:
            if ini['kind'] == 'box':
                ini['box'] = [[b[0], b[0]] if rng.random() < .7 else b for b in ini['box']]
    if rng.random() < .4:
        for m in spec['modes']:
            if m.get('B') is not None and len(m['B'][0]) == 1:
                c = float(np.round(rng.uniform(-1, 1), 2))
                m['Uc'], m['Ur'] = [[1.], [-1.]], [c, -c]


def s08_chull(rng, ctx):
    case(rng, ctx, CHULL)


def s08_lgg(rng, ctx):
    case(rng, ctx, LGG)


def s08_single(rng, ctx):
    """one mode, large steps: the model itself"""
    case(rng, ctx, int(rng.choice([CHULL, LGG])), modes=(1, 1), dims=(1, 4), n_init=(1, 1), p_zero=.05, step=float(rng.choice([.1, .3, .5])),
         p_inputs=.6, p_inv=.4, p_error=0.)


def s08_chain(rng, ctx):
    """integrator chains driven at their end: what the model adds for the inputs has to travel along the chain"""
    n = int(rng.integers(2, 5))
    step = float(rng.choice([.1, .2, .25, .4]))
    A = np.zeros((n, n))
    for i in range(n - 1):
        A[i, i + 1] = rng.choice([1., -1., 2., -2., .5])
    if rng.random() < .3:
        A[np.arange(n), np.arange(n)] = -rng.choice([0., .1, .5], size=n)
    p = rng.permutation(n)
    A = A[np.ix_(p, p)]
    B = np.zeros((n, 1))
    B[int(np.argmax(p == n - 1)), 0] = 1.
    spec = gen.gen_spec(rng, modes=(1, 1), dims=(n, n), steps=(8, 14), n_init=(1, 1), p_inputs=0., p_inv=0., p_error=0., p_zero=0., step=step)
    spec['modes'] = spec['modes'][:1]
    spec['trans'] = []
    u = float(rng.choice([.5, 1., 2.]))
    spec['modes'][0].update(A=A.tolist(), B=B.tolist(), Uc=[[1.], [-1.]], Ur=[u, u if rng.random() < .5 else -u])
    for ini in spec['init']:
        c = np.round(rng.uniform(-1, 1, size=n) * rng.choice([0., .02, 1.]), 2)
        ini.clear()
        ini.update(mode=0, kind='box', box=np.stack([c, c], axis=1).tolist())
    case(rng, ctx, LGG if rng.random() < .7 else CHULL, paths=False, spec=spec)


def s08_refine(rng, ctx):
    """aggregation with refinement"""
    model = int(rng.choice([CHULL, LGG], p=[.6, .4]))
    spec, _, _, _ = tight_spec(rng, bool(rng.random() < .5), modes=(2, 3), dims=(1, 3), steps=(4, 8), n_init=(1, 2), p_inputs=.3, band=.1,
                               p_tt=0., step=float(rng.choice([.1, .2])))
    case(rng, ctx, model, deagg=True, paths=bool(rng.random() < .4), spec=spec)



# ------------------------------------------------------------------------------- S06: the sets of a refinement
def refined_sets(rng, ctx, spec=None, **kw):
    """every set of an analysis with refinement, replayed or not: it holds what the dynamics make of the set its node started
    from, and no more than that if the node stands for one path"""
    if spec is None:
        p = rng.random()
        if p < .3:
            spec = gen.join_spec(rng, with_inputs=bool(rng.random() < .7))
        elif p < .65:
            spec = gen.meet_spec(rng, with_inputs=bool(rng.random() < .7))
        else:
            args = dict(modes=(2, 3), dims=(1, 3), steps=(5, 10), n_init=(1, 2), p_inputs=.7, p_inv=.35, band=.15, p_tt=0., p_zero=.03)
            args.update(kw)
            spec = gen.gen_spec(rng, **args)
    if rng.random() < .75:
        spec, ex, _, _ = tight_spec(rng, bool(rng.random() < .5), spec=spec)
        ctx.spec = spec
    else:
        ctx.spec = spec
        ex = explore(spec, 60)
    over = {'agg': rand_strat(rng, deagg=True, allow_un=False), 'approx_model': 0, 'stop_on_concrete_error': False,
            'stop_on_aggregated_error': False, 'optimize_tt_transitions': False}
    over['agg']['require_same_path'] = bool(rng.random() < .5)
    spec['over'] = over
    w, res = watched_run(spec, over)
    ctx.event('set_runs')
    ctx.nontrivial(shape_sig(spec, ex), over, len(w.nodes))
    for rec in w.nodes.values():
        if not rec['sets']:
            continue
        den = Dense(spec, rec['mode'], 1)
        base = rec['base']
        base = base.meet(den.rows, den.rhs) if den.rows else base
        if base.slack() < 1e-4:
            continue
        dirs = dirs_for(base.dims)
        seen = -1
        for k, s in enumerate(den.chain(base, 0, max(rec['sets']))):
            if k not in rec['sets']:
                continue
            want, got = np.array([s.sup(d) for d in dirs]), np.array(rec['sets'][k])
            if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e4:
                break
            ctx.event('node_sets')
            ctx.event('replayed_sets', int(bool(rec.get('replayed'))))
            ctx.event('replayed_concrete', int(bool(rec.get('replayed')) and rec['concrete']))
            ctx.event('several_steps_at_once', int(bool(rec.get('replayed')) and k > max(seen, 0) + 1 and den.G is not None))
            seen = k
            miss, extra = covered(want, got), covered(got, want)
            if not miss <= TOL or rec['concrete'] and not extra <= TOL:
                ctx.violation('refinement: set of mode %d at step %d (entered at step %s, %d origins%s) %s %.3g' % (
                    rec['mode'], k, rec['since'], rec['parents'], ', replayed' if rec.get('replayed') else '',
                    'misses states by' if not miss <= TOL else 'stands for one path but has more states than it by', max(miss, extra)))
                return
