"""Monitors over whole runs of the tool: bookkeeping of successors (S18), preprocessing options (S14), independence
of histories and output settings (S15), rejection of malformed models (S19)."""
import collections
import copy
import numpy as np
from . import gen, ref, hyl
from .ctx import Skip
from .p_reach import (explore, rand_strat, tt_rows, tt_relaxed, tight_spec, VKW, fixed_dirs, match, sup_table, observe)
from .p_lp import view_rset
import hylaa.aggdag as _aggdag
import hylaa.deaggregation as _deagg


# ------------------------------------------------------------------------------------------- S18
class NodeRec:
    __slots__ = ('node', 'ops', 'start', 'mode', 'agg', 'instant')


class DagWatch:
    """follows every successor operation from its creation to the set that explores it"""

    def __init__(self, ctx, spec, urgent):
        self.ctx, self.spec, self.urgent = ctx, spec, urgent
        self.nodes = []      # NodeRec, in order of creation
        self.by_id = {}
        self.time = {}       # id(op) -> (lo, hi) when first seen
        self.ops = {}        # id(op) -> op (kept alive, so ids stay unique)
        self.consumers = collections.defaultdict(list)  # id(op) -> NodeRec list
        self.fresh = []      # nodes created during the current step
        self.core = None
        self.probed = 0
        self.replayed = set()
        self.same_path = False

    def bad(self, msg, **kw):
        self.ctx.violation(msg, **kw)

    # ---- events
    def reg(self, op):
        if id(op) not in self.ops:
            self.ops[id(op)] = op
            st = op.poststate
            self.time[id(op)] = tuple(st.cur_steps_since_start)
            self.ctx.event('successors')
            if st.cur_step_in_mode != 0:
                self.bad('a successor starts at step %d of its mode' % st.cur_step_in_mode)
            if op.parent_node is None:
                if self.time[id(op)] != (0, 0):
                    self.bad('an initial set starts at steps %s' % (self.time[id(op)],))
            else:
                p = self.by_id.get(id(op.parent_node))
                if p is None:
                    self.bad('a successor comes from a set that was never explored')
                    return
                want = (p.start[0] + op.step, p.start[1] + op.step)
                if self.time[id(op)] != want:
                    self.bad('successor by %s at step %d of a set started at %s carries time %s' % (
                        op.transition, op.step, p.start, self.time[id(op)]))
                if op.transition.from_mode is not p.mode or st.mode is not op.transition.to_mode:
                    self.bad('successor by %s connects the wrong modes' % op.transition)
                if st.is_concrete and not p.node.stateset.is_concrete:
                    self.bad('successor of an aggregated set is called concrete')

    def on_node(self, node):
        r = NodeRec()
        r.node, r.ops = node, list(node.parent_ops)
        st = node.stateset
        r.start, r.mode = tuple(st.cur_steps_since_start), st.mode
        r.agg = len(r.ops) > 1
        r.instant = 0
        for op in r.ops:
            self.reg(op)
            self.consumers[id(op)].append(r)
            if op.parent_node is not None and op.step == 0 and id(op.parent_node) in self.by_id:
                r.instant = max(r.instant, self.by_id[id(op.parent_node)].instant + 1)
        if r.instant > 6:
            raise Skip('endless urgent loop')
        lo = min(self.time[id(o)][0] for o in r.ops)
        hi = max(self.time[id(o)][1] for o in r.ops)
        if r.start != (lo, hi):
            self.bad('a set made of successors at times %s carries time %s' % ([self.time[id(o)] for o in r.ops], r.start))
        if len(set(id(o) for o in r.ops)) != len(r.ops):
            self.bad('a set is made of the same successor twice')
        if any(o.poststate.mode is not r.mode for o in r.ops):
            self.bad('a set was made of successors in different modes')
        if r.agg and self.same_path and len(set((id(o.parent_node), id(o.transition)) for o in r.ops)) > 1:
            self.bad('successors of different paths were aggregated although require_same_path is on')
        if r.agg and any(o.parent_node is None for o in r.ops):
            self.bad('an initial set was aggregated')
        if r.agg and st.is_concrete:
            self.bad('an aggregated set is called concrete')
        if st.cur_step_in_mode != 0:
            self.bad('a set starts at step %d of its mode' % st.cur_step_in_mode)
        self.nodes.append(r)
        self.by_id[id(node)] = r
        self.fresh.append(r)
        if len(self.nodes) > 600:
            raise Skip('too many sets')
        self.ctx.event('explored_sets')
        self.ctx.event('aggregated', int(r.agg))

    # ---- liveness: is this node (still) the one that explores its successors?
    def live(self, r, memo=None):
        memo = {} if memo is None else memo
        if id(r) in memo:
            return memo[id(r)]
        memo[id(r)] = False
        rv = False
        for op in r.ops:
            if self.consumers[id(op)][-1] is r and (op.parent_node is None or
                                                    self.live(self.by_id[id(op.parent_node)], memo)):
                rv = True
                break
        memo[id(r)] = rv
        return rv

    def descends(self, op, supers, seen=None):
        """does this operation come from one of the replaced sets?"""
        seen = set() if seen is None else seen
        node = op.parent_node
        if node is None or id(node) in seen:
            return False
        seen.add(id(node))
        if id(node) in supers:
            return True
        return any(self.descends(o, supers, seen) for o in self.by_id[id(node)].ops)

    # ---- per step
    def step(self):
        core = self.core
        agg = core.aggdag
        man = agg.deagg_man
        before = list(agg.waiting_list)
        bset = set(map(id, before))
        was_cur = agg.cur_node
        was_k = was_cur.stateset.cur_step_in_mode if was_cur is not None else None
        was_children = list(man.deagg_children or [])
        was_parent = man.deagg_parent
        prior = {k: v[-1] for k, v in self.consumers.items()}
        self.fresh = []
        core.do_step()
        after = list(agg.waiting_list)
        aset = set(map(id, after))
        if len(aset) != len(after):
            self.bad('the same successor waits twice')
        gone = [op for op in before if id(op) not in aset]
        new = [op for op in after if id(op) not in bset]
        for op in new:
            if id(op) in self.ops:
                self.bad('a successor that was explored before waits again')
            self.reg(op)
            if op.parent_node is None or sum(1 for o in op.parent_node.op_list if o is op) != 1:
                self.bad('a waiting successor is not recorded at the set it comes from')
        popped = [r for r in self.fresh if all(id(o) in bset for o in r.ops)]
        refined = [r for r in self.fresh if not any(id(o) in bset for o in r.ops)]
        if len(popped) + len(refined) != len(self.fresh):
            self.bad('a set was made partly of waiting successors and partly of others')
        if len(popped) > 1:
            self.bad('one step explored %d sets' % len(popped))
        taken = {id(o) for r in popped for o in r.ops}
        for r in popped:
            self.ctx.event('pops')
            for o in r.ops:
                if id(o) in aset:
                    self.bad('an explored successor is still waiting')
                if len(self.consumers[id(o)]) > 1:
                    self.bad('a successor was explored twice')
                if o.parent_node is not None and not self.live(self.by_id[id(o.parent_node)]):
                    self.bad('a successor of a set that was refined before is explored as well')
        supers = set()
        groups = collections.defaultdict(list)
        for r in refined:
            for o in r.ops:
                if id(o) in prior:
                    supers.add(id(prior[id(o)].node))
                    groups[id(prior[id(o)].node)].append(o)
        for op in gone:
            if id(op) not in taken and not self.descends(op, supers):
                self.bad('waiting successor by %s at %s was dropped' % (op.transition, self.time[id(op)]))
        # time inside the sets
        for r in self.nodes:
            st = r.node.stateset
            k = st.cur_step_in_mode
            now = tuple(st.cur_steps_since_start)
            if now != (r.start[0] + k, r.start[1] + k):
                self.bad('a set started at %s carries time %s after %d steps' % (r.start, now, k))
                break
            if now[0] > self.spec['num_steps']:
                self.bad('a set was followed past the time bound, to step %d' % now[0])
                break
        if was_cur is not None and was_cur.stateset.cur_step_in_mode not in (was_k, was_k + 1):
            self.bad('one step moved a set from step %d to %d' % (was_k, was_cur.stateset.cur_step_in_mode))
        cur = agg.cur_node
        if was_cur is not None and was_cur.stateset.cur_step_in_mode == was_k + 1:
            self.probe(was_cur)
        elif cur is not None and cur is not was_cur and self.urgent:
            self.probe(cur)
        self.replayed.update(r.node for r in refined)
        if was_children:
            for ch in was_children:
                self.probe_child(was_parent, ch)
            self.ctx.event('replay_steps')

    def transitions(self, node):
        for i, t in enumerate(self.spec['trans']):
            if t['src'] == self.mode_ids[id(node.stateset.mode)]:
                yield i, t

    def guard_margin(self, s, t, with_inv):
        rows, rhs = list(t['G']), list(t['g'])
        dst = self.spec['modes'][t['dst']]
        if with_inv and dst.get('inv'):
            if t.get('M') is not None:
                return None
            R = np.eye(s.dims) if t.get('R') is None else np.array(t['R'])
            for row, b in dst['inv']:
                rows.append((np.array(row) @ R).tolist())
                rhs.append(b)
        if not rhs:
            return 1. if s.oracle().feasible() else -1.
        return s.meet(rows, rhs).slack()

    def probe(self, node):
        """after a continuous step: is there a successor for exactly the guards this set reaches?"""
        if self.probed >= 60 or (self.core.is_finished() and
                                 (self.core.result.has_concrete_error or self.core.result.has_aggregated_error)):
            return
        st = node.stateset
        if st.mode.a_csr is None or node not in [r.node for r in self.nodes[-1:]]:
            return
        self.probed += 1
        s = view_rset(st.lpi)
        k = st.cur_step_in_mode
        for i, t in self.transitions(node):
            have = sum(1 for o in node.op_list if getattr(o, 'transition', None) is self.trans[i] and o.step == k)
            if have > 1:
                self.bad('transition %d was taken %d times at step %d' % (i, have, k))
            m = self.guard_margin(s, t, True)
            if m is not None and m > 1e-4 and not have:
                self.bad('no successor for transition %d at step %d although the set reaches its guard (margin %.3g)' % (i, k, m))
            m = self.guard_margin(s, t, False)
            if m < -1e-4 and have:
                self.bad('successor for transition %d at step %d although the set misses its guard (by %.3g)' % (i, k, -m))
            self.ctx.event('guards_probed')
            self.ctx.event('guards_hit', int(bool(have)))

    def probe_child(self, parent, node):
        st = node.stateset
        k = st.cur_step_in_mode
        if self.probed >= 90 or st.mode.a_csr is None:
            return
        todo = {id(o.transition): o.transition for o in parent.op_list
                if isinstance(o, _deagg.OpTransition) and o.step == k}
        s = None
        for i, t in self.transitions(node):
            if id(self.trans[i]) not in todo:
                continue
            if s is None:
                self.probed += 1
                s = view_rset(st.lpi)
            have = sum(1 for o in node.op_list if getattr(o, 'transition', None) is self.trans[i] and o.step == k)
            m = self.guard_margin(s, t, True)
            if m is not None and m > 1e-4 and have != 1:
                self.bad('the refined set has %d successors for transition %d at step %d which it reaches (margin %.3g)' % (
                    have, i, k, m))
            self.ctx.event('replayed_guards')

    # ---- end
    def finish(self):
        core = self.core
        agg = core.aggdag
        st = core.settings
        res = core.result
        stopped = (st.stop_on_aggregated_error and res.has_aggregated_error) or \
            (st.stop_on_concrete_error and res.has_concrete_error)
        if stopped:
            self.ctx.event('stopped_at_error')
            return
        if agg.waiting_list:
            self.bad('the analysis ended with %d successors waiting' % len(agg.waiting_list))
        if agg.deagg_man.doing_replay():
            self.bad('the analysis ended within a refinement')
        memo = {}
        for r in self.nodes:
            if not self.live(r, memo):
                self.ctx.event('replaced_sets')
                continue
            if not r.node.node_left_invariant():
                self.bad('a set in mode %s was not followed to its end' % r.mode.name)
            elif not r.node.op_list:
                self.bad('a set in mode %s has no recorded steps' % r.mode.name)
            elif r.node.op_list[-1].reached_time_bound and \
                    r.node.stateset.cur_steps_since_start[0] < self.spec['num_steps'] and r.node not in self.replayed:
                self.bad('a set at steps %s was left as if the time bound (%d) was reached' % (
                    r.node.stateset.cur_steps_since_start, self.spec['num_steps']))
            for op in r.ops:
                if self.consumers[id(op)][-1] is not r:
                    self.bad('a set still in use is made of successors that were moved elsewhere')
            for op in r.node.op_list:
                if not isinstance(op, _deagg.OpTransition):
                    continue
                users = [q for q in self.consumers[id(op)] if self.live(q, memo)]
                if len(users) != 1:
                    self.bad('successor by %s at step %d of a set in mode %s is explored by %d sets' % (
                        op.transition, op.step, r.mode.name, len(users)))
        self.ctx.event('complete_runs')


def run_watched(ctx, spec, over, settings_hook=None):
    urgent = bool(spec['settings'].get('process_urgent_guards'))
    w = DagWatch(ctx, spec, urgent)
    cls = _aggdag.AggDagNode
    orig = cls.__init__

    def init(self, *a, **kw):
        orig(self, *a, **kw)
        w.on_node(self)
    with hyl.quiet():
        ha, modes, init_sets, settings = hyl.build(spec, over)
        core = hyl.new_core(ha, settings)
        w.core = core
        w.same_path = getattr(settings.aggstrat, 'require_same_path', False)
        w.mode_ids = {id(m): i for i, m in enumerate(modes)}
        w.trans = list(ha.transitions)
        cls.__init__ = init
        try:
            core.setup(init_sets)
            start = list(core.aggdag.waiting_list)
            for op in start:
                w.reg(op)
            w.initial = start
            while not core.is_finished():
                w.step()
            w.finish()
        finally:
            cls.__init__ = orig
    return w, core.result


def s18_case(rng, ctx, spec=None, deagg=None, allow_un=True, **kw):
    if spec is None:
        args = dict(VKW)
        args.update(kw)
        spec = gen.gen_spec(rng, **args)
    ctx.spec = spec
    over = {'agg': rand_strat(rng, deagg=deagg, allow_un=allow_un)}
    over['stop_on_concrete_error'] = bool(rng.random() < .3)
    over['stop_on_aggregated_error'] = bool(rng.random() < .15)
    if isinstance(over['agg'], dict) and deagg is None and rng.random() < .3:
        over['agg']['deagg'] = True
    spec['over'] = over
    # how many initial sets have states inside their invariant?
    exp = ref.Explorer(spec)
    expect = []
    for mi, s in exp.init_sets():
        try:
            _, ok = exp.trim(s, mi)
            expect.append(ok)
        except ref.Ambiguous:
            expect.append(None)
    if not any(expect) and None not in expect:
        raise Skip('no feasible initial state')
    w, res = run_watched(ctx, spec, over)
    if None not in expect and sum(expect) != len(w.initial):
        ctx.violation('%d of %d initial sets wait to be explored, %d have states' % (len(w.initial), len(expect), sum(expect)))
    ctx.event('runs')
    ctx.event('initial_sets', len(w.initial))
    ctx.event('refined_runs', int(any(len(c) > 1 for c in w.consumers.values())))
    ctx.nontrivial(sorted((r.mode.name, r.start, len(r.ops)) for r in w.nodes), over)
    ctx.sample({'spec': spec, 'sets': len(w.nodes), 'aggregated': sum(r.agg for r in w.nodes)})


def s18_mix(rng, ctx):
    s18_case(rng, ctx)


def s18_loops(rng, ctx):
    s18_case(rng, ctx, modes=(1, 3), n_init=(1, 3), p_backedge=.9, p_selfloop=.5, steps=(6, 12), dims=(1, 2))


def s18_refine(rng, ctx):
    want = bool(rng.random() < .5)
    spec, _, _, _ = tight_spec(rng, want, band=.15, p_inputs=.15, steps=(5, 9), modes=(2, 4), n_init=(1, 2), dims=(1, 3))
    s18_case(rng, ctx, spec=spec, deagg=True, allow_un=False)


def s18_join(rng, ctx):
    s18_case(rng, ctx, spec=gen.meet_spec(rng) if rng.random() < .3 else gen.join_spec(rng, error=True), deagg=bool(rng.random() < .8), allow_un=False)


# ------------------------------------------------------------------------------------------- S14
def table_no_time(got):
    rv = collections.defaultdict(list)
    for (mi, _, _), vs in got.items():
        rv[mi] += vs
    return rv


def subset_tables(a, b, tol=1e-4):
    """every extent in a also occurs in b (times ignored)"""
    for mi, vs in a.items():
        ws = np.array(b.get(mi, np.zeros((0, len(vs[0]) if vs else 0))))
        for v in vs:
            v = np.array(v)
            if len(ws) == 0 or not np.min(np.max(np.abs(ws - v), axis=1)) <= tol * (1 + np.max(np.abs(v))):
                return 'a set of mode %d with extent %s is only reached in one of them' % (mi, np.round(v, 5).tolist())
    return None


def s14_toggle(rng, ctx):
    kw = dict(modes=(1, 3), dims=(1, 3), steps=(4, 9), n_init=(1, 2), p_inputs=.2)
    what = str(rng.choice(['do_guard_strengthening', 'optimize_tt_transitions', 'skip_zero_dynamics_modes', 'all'], p=[.4, .2, .25, .15]))
    if what == 'optimize_tt_transitions':
        kw.update(p_tt=.6)
    if what == 'skip_zero_dynamics_modes':
        kw.update(p_zero=.5, steps=(3, 6), p_inputs=.1)
    if what == 'do_guard_strengthening':
        kw.update(p_inv=.9, p_reset=.35, modes=(2, 3))
    spec = gen.gen_spec(rng, **kw)
    if what == 'do_guard_strengthening' and rng.random() < .7:
        mirror_invariants(rng, spec)
    ctx.spec = spec
    spec['toggle'] = what
    ex = explore(spec)
    relaxed = tt_relaxed(dict(spec, settings=dict(spec['settings'], optimize_tt_transitions=True)))
    if relaxed is not None and match(sup_table(ex), sup_table(explore(relaxed)), 5e-5) is not None:
        raise Skip('time-triggered tolerance matters')
    base = {'agg': 'un', 'stop_on_concrete_error': False}
    names = ['do_guard_strengthening', 'optimize_tt_transitions'] if what == 'all' else [what]
    runs = []
    for v in (True, False):
        over = dict(base)
        over.update({n: v for n in names})
        res, got, _ = observe(spec, over)
        runs.append((res, got))
    ctx.event('toggled')
    ctx.event('toggled_' + what)
    (ra, ga), (rb, gb) = runs
    if bool(ra.has_concrete_error) != bool(rb.has_concrete_error) or bool(ra.has_aggregated_error) != bool(rb.has_aggregated_error):
        ctx.violation('error verdict changes with %s: %s / %s' % (what, ra.has_concrete_error, rb.has_concrete_error))
    if bool(ra.has_concrete_error) != bool(ex.errors):
        ctx.violation('error verdict %s, exact answer %s (%s)' % (ra.has_concrete_error, bool(ex.errors), what))
    if what == 'skip_zero_dynamics_modes':
        a, b = table_no_time(ga), table_no_time(gb)
        bad = subset_tables(a, b) or subset_tables(b, a)
    else:
        bad = match(gb, ga)
        ctx.event('sets_compared', sum(len(v) for v in ga.values()))
    if bad:
        ctx.violation('reachable sets change with %s: %s' % (what, bad))
    n_time = sum(1 for n in ex.nodes if len(n.path) > 1)
    if n_time:
        ctx.nontrivial(what, sorted((n.mode, n.start, len(n.sets), n.path) for n in ex.nodes))
    ctx.sample({'spec': spec, 'what': what, 'sets': sum(len(v) for v in ga.values())})


def mirror_invariants(rng, spec):
    """guards that already hold (part of) the invariant of the target, exactly or nearly"""
    for t in spec['trans']:
        dst = spec['modes'][t['dst']]
        src = spec['modes'][t['src']]
        if dst['A'] is None or not dst.get('inv') or len(dst['A']) != len(src['A']) or t.get('R') is not None:
            continue
        row, b = dst['inv'][int(rng.integers(len(dst['inv'])))]
        if rng.random() < .6:
            b2 = b + float(rng.choice([0., 0., .05, -.05, 1e-3]))
            t['G'] = [list(r) for r in t['G']] + [list(row)]
            t['g'] = list(t['g']) + [float(b2)]
            s = ref.RSet.polyhedron(t['G'], t['g'])
            s.soft[:] = True
            if s.slack() < 1e-3:
                t['G'], t['g'] = t['G'][:-1], t['g'][:-1]


def grid_number(rng, base, inc):
    """T = base + inc in one of the ways a user gets to it"""
    T = base + inc
    p = rng.random()
    if p < .35:
        return float(T)
    if p < .7:
        return float(np.round(T, 10))
    return float(T * (1 + rng.choice([-1., 1.]) * 10. ** rng.uniform(-16, -13)))


def s14_chain(rng, ctx):
    """clocks: each transition happens exactly once, at its step, and the set is left there"""
    h = float(rng.choice([.1, .2, .05, .25, .01, .3, 1. / 3., .125, .7]))
    urgent = bool(rng.random() < .3)
    nm = int(rng.integers(2, 5))
    N = int(rng.integers(5, 14))
    modes, rates, scales, ks, on_grid = [], [], [], [], []
    reset_clock = bool(rng.random() < .5)
    n = 4  # x, y, clock, 1
    tnow = float(rng.choice([0., 0., 1., -.5, .3]))
    t0 = tnow
    spec = {'step': h, 'num_steps': N, 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': ['chain']}
    rate0 = float(rng.choice([1., 1., 2., .5, -1., 3., .1]))
    for i in range(nm):
        A = np.zeros((n, n))
        A[:2] = np.round(rng.normal(size=(2, n)) * .6, 3)
        A[:2, 2] = 0
        rate = rate0 if not reset_clock else float(rng.choice([1., 1., 2., .5, -1., .3]))
        A[2, 3] = rate
        K = int(rng.integers(0 if urgent and i else 1, 5))
        off = 0. if rng.random() < .65 else float(rng.uniform(.1, .9))
        if K == 0:
            off = 0.
        T = grid_number(rng, tnow, rate * h * K) if off == 0 else float(tnow + rate * h * (K - off))
        sg = 1. if rate > 0 else -1.
        sc = float(rng.choice([1., 1., 2., .5, 3.]))
        b = sg * sc * T
        inv = [[[0., 0., sg * sc, 0.], b]]
        if rng.random() < .2:
            inv.append([[0., 0., sg, 0.], float(sg * T + 5.)])
        spec['modes'].append({'name': 'm%d' % i, 'A': A.tolist(), 'inv': inv})
        rates.append((rate, K, T, sg, sc, b))
        # where the clock is when the transition happens
        tnow = 0. if reset_clock else tnow + rate * h * K
    last = {'name': 'end', 'A': (np.diag([-.1, -.2, 0., 0.])).tolist(), 'inv': []}
    spec['modes'].append(last)
    spec['modes'].append({'name': 'err', 'A': None, 'inv': []})
    err_from = int(rng.integers(nm)) if rng.random() < .5 else None
    for i in range(nm):
        rate, K, T, sg, sc, b = rates[i]
        fan = 2 if rng.random() < .3 else 1
        for f in range(fan):
            dst = i + 1 if f == 0 else int(rng.integers(i + 1, nm + 1))
            if not reset_clock and f and dst != i + 1:
                dst = nm  # the absolute clock would be late there
            G, g = [[0., 0., -sg * sc, 0.]], [-b]
            if rng.random() < .2:
                G.append([0., 0., 0., 1.])
                g.append(2.)
            R = np.eye(n)
            if reset_clock:
                R[2] = 0.
            if rng.random() < .3:
                R[0] = [.5, .3, 0., .1]
            t = {'src': i, 'dst': dst, 'G': G, 'g': g, 'name': 't%d_%d' % (i, f)}
            if reset_clock or rng.random() < .3:
                t['R'] = R.tolist()
            spec['trans'].append(t)
        if err_from == i:
            spec['trans'].append({'src': i, 'dst': nm + 1, 'G': [[0., 0., -sg * sc, 0.]], 'g': [-b], 'name': 'e'})
    c = np.round(rng.uniform(-1, 1, size=2), 2)
    w = np.round(rng.uniform(0, .2, size=2), 3)
    spec['init'].append({'mode': 0, 'kind': 'box', 'box': [[float(c[0] - w[0]), float(c[0] + w[0])], [float(c[1] - w[1]), float(c[1] + w[1])],
                                                           [t0, t0], [1., 1.]]})
    st = spec['settings']
    st['process_urgent_guards'] = urgent
    if rng.random() < .3:
        st['do_guard_strengthening'] = False
    ctx.spec = spec
    # the schedule
    want = collections.defaultdict(list)
    errors = []
    visits = [0]

    def visit(mi, start, s, clock_late):
        visits[0] += 1
        if visits[0] > 60:
            raise Skip('too many visits')
        m = spec['modes'][mi]
        E, _ = ref.flow_matrices(m['A'], None, h)
        K = rates[mi][1] if mi < nm else 10 ** 6
        k = 0
        while True:
            want[(mi, start + k, k)].append([s.sup(d) for d in fixed_dirs(n)])
            if k == K and (k > 0 or urgent):
                for t in spec['trans']:
                    if t['src'] != mi:
                        continue
                    if spec['modes'][t['dst']]['A'] is None:
                        errors.append(start + k)
                        continue
                    visit(t['dst'], start + k, s if t.get('R') is None else s.linmap(np.array(t['R'])), False)
                return
            if start + k >= N:
                return
            s = s.linmap(E)
            k += 1
    visit(0, 0, ref.RSet.box(spec['init'][0]['box']), False)
    over = {'agg': 'un', 'stop_on_concrete_error': False}
    res, got, _ = observe(spec, over)
    ctx.event('chains')
    ctx.event('tt_taken', visits[0] - 1)
    ctx.event('urgent_tt', sum(1 for r in rates if r[1] == 0))
    ctx.nontrivial([(r[0], r[1], r[4]) for r in rates], h, N, reset_clock, urgent, t0)
    ctx.sample({'spec': spec, 'visits': visits[0]})
    bad = match(want, got)
    if bad:
        ctx.violation('clock-triggered schedule not followed: ' + bad)
    if bool(errors) != bool(res.has_concrete_error):
        ctx.violation('clock-triggered error: reported %s, expected %s' % (res.has_concrete_error, bool(errors)))


def s14_away(rng, ctx):
    """states standing on a clock-like guard but moving away from it (or not moving) must go on"""
    h = float(rng.choice([.1, .2, .25, .3]))
    N = int(rng.integers(3, 8))
    n = 3
    rate = float(rng.choice([1., 2., .5, -1., -.3]))
    T = float(rng.choice([0., 0., 1., -.5]))
    sg = 1. if rate > 0 else -1.
    sc = float(rng.choice([1., 2.]))
    A = np.zeros((n, n))
    A[0] = np.round(rng.normal(size=n) * .5, 2)
    A[1, 2] = rate
    urgent = bool(rng.random() < .7)
    moving = bool(rng.random() < .7)
    spec = {'step': h, 'num_steps': N, 'modes': [{'name': 'm', 'A': A.tolist(), 'inv': [[[0., -sg * sc, 0.], -sg * sc * T]]},
                                                {'name': 'b', 'A': np.diag([-.1, .1, 0.]).tolist(), 'inv': []}],
            'trans': [{'src': 0, 'dst': 1, 'G': [[0., sg * sc, 0.]], 'g': [sg * sc * T], 'name': 't'}],
            'init': [{'mode': 0, 'kind': 'box', 'box': [[.1, .3], [T, T], [1., 1.] if moving else [0., 0.]]}],
            'settings': {'process_urgent_guards': urgent}, 'tags': ['away']}
    if rng.random() < .4:
        spec['trans'][0]['R'] = [[1., 0., 0.], [0., 0., 0.], [0., 0., 1.]]
    spec['settings']['do_guard_strengthening'] = bool(rng.random() < .5)
    ctx.spec = spec
    want = collections.defaultdict(list)

    def put(mi, start, s, upto):
        E, _ = ref.flow_matrices(spec['modes'][mi]['A'], None, h)
        k = 0
        while start + k <= upto:
            want[(mi, start + k, k)].append([s.sup(d) for d in fixed_dirs(n)])
            take = (k == 0 and urgent) or (k > 0 and not moving)
            if mi == 0 and take:
                R = np.eye(n) if spec['trans'][0].get('R') is None else np.array(spec['trans'][0]['R'])
                put(1, start + k, s.linmap(R), upto)
            s = s.linmap(E)
            k += 1
    put(0, 0, ref.RSet.box(spec['init'][0]['box']), N)
    res, got, _ = observe(spec, {'agg': 'un'})
    ctx.event('away')
    ctx.event('standing', int(not moving))
    ctx.nontrivial(h, N, rate, T, sc, urgent, moving)
    bad = match(want, got)
    if bad:
        ctx.violation('state on a clock-like guard %s: %s' % ('moving away from it' if moving else 'that stands still', bad))


def s14_verdict(rng, ctx):
    """refinement gives the same verdict whatever the preprocessing"""
    want = bool(rng.random() < .5)
    spec, ex, _, _ = tight_spec(rng, want, **dict(VKW, p_inv=.8, p_tt=.3, band=.2, steps=(4, 8)))
    ctx.spec = spec
    relaxed = tt_relaxed(dict(spec, settings=dict(spec['settings'], optimize_tt_transitions=True)))
    if relaxed is not None and bool(explore(relaxed).errors) != bool(ex.errors):
        raise Skip('time-triggered tolerance matters')
    agg = rand_strat(rng, deagg=True)
    for a in (True, False):
        for b in (True, False):
            over = {'agg': agg, 'do_guard_strengthening': a, 'optimize_tt_transitions': b}
            with hyl.quiet():
                ha, modes, init, settings = hyl.build(spec, over)
                res = hyl.new_core(ha, settings).run(init)
            ctx.event('verdicts')
            if bool(res.has_concrete_error) != bool(ex.errors):
                ctx.violation('with strengthening=%s, time-triggered=%s: concrete error %s, exact answer %s' % (
                    a, b, res.has_concrete_error, bool(ex.errors)))
    ctx.nontrivial(sorted((n.mode, n.start, len(n.sets)) for n in ex.nodes), str(agg))


def s14_arrays(rng, ctx):
    """what the user passes in is as it was, whatever the analysis does with it"""
    from scipy.sparse import csr_matrix
    spec = gen.gen_spec(rng, modes=(2, 3), dims=(1, 3), steps=(3, 7), n_init=(1, 2), p_inv=.9, p_tt=.5, p_mink=.3, p_reset=.4)
    spec['settings']['optimize_tt_transitions'] = True
    spec['settings']['do_guard_strengthening'] = True
    ctx.spec = spec
    kept = []

    def give(x, vec=False, column=True):
        p = rng.random()
        a = np.array(x, dtype=float)
        if p < .45 or (vec and p < .75):
            v = a.copy()
            if vec and column and rng.random() < .3:
                v = v.reshape(-1, 1) if len(v) else v
                orig = v.copy()
                kept.append((v, orig))
                return v
        elif p < .75:
            v = csr_matrix(a)
        else:
            v = a.tolist()
        kept.append((v, v.copy() if not isinstance(v, list) else copy.deepcopy(v)))
        return v
    hy = hyl
    with hy.quiet():
        ha = hy.HybridAutomaton('ha')
        modes = []
        for m in spec['modes']:
            mode = ha.new_mode(m['name'])
            modes.append(mode)
            if m['A'] is None:
                continue
            mode.set_dynamics(give(m['A']))
            if m.get('B') is not None:
                mode.set_inputs(give(m['B']), give(m['Uc']), give(m['Ur'], True), allow_constants=True)
            if m.get('inv'):
                mode.set_invariant(give([r for r, _ in m['inv']]), give([b for _, b in m['inv']], True))
        for t in spec['trans']:
            tr = ha.new_transition(modes[t['src']], modes[t['dst']], name='t')
            if len(t['g']) == 0:
                tr.set_guard_true()
            else:
                tr.set_guard(give(t['G']), give(t['g'], True, False))
            kw = {}
            if t.get('M') is not None:
                kw = dict(reset_minkowski_csr=None if gen.added_by_default(t) else give(t['M']),
                          reset_minkowski_constraints_csr=give(t['Mc']),
                          reset_minkowski_constraints_rhs=np.array(t['Mr']))
                kept.append((kw['reset_minkowski_constraints_rhs'], np.array(t['Mr'])))
            if t.get('R') is not None or kw:
                tr.set_reset(None if t.get('R') is None else give(t['R']), **kw)
        init = []
        for ini in spec['init']:
            mode = modes[ini['mode']]
            if ini['kind'] == 'box':
                lpi = hy.lputil.from_box(ini['box'], mode)
            elif ini['kind'] == 'cons':
                r = np.array(ini['r'])
                kept.append((r, r.copy()))
                lpi = hy.lputil.from_constraints(give(ini['C']), r, mode)
            else:
                lpi = hy.lputil.from_zonotope(ini['c'], ini['gens'], mode)
            init.append(hy.StateSet(lpi, mode))
        settings = hy.make_settings(spec, {'agg': rand_strat(rng), 'stop_on_concrete_error': False})
        before = {k: v for k, v in vars(settings).items() if isinstance(v, (int, float, bool, str, type(None)))}
        spec0 = copy.deepcopy(spec)
        try:
            hy.new_core(ha, settings).run(init)
        except RuntimeError as ex:
            if 'No feasible initial' not in str(ex):
                raise
    ctx.event('arrays', len(kept))
    for v, o in kept:
        if isinstance(v, list):
            same = v == o
        elif isinstance(v, np.ndarray):
            same = v.shape == o.shape and v.dtype == o.dtype and np.array_equal(v, o)
        else:
            same = v.shape == o.shape and np.array_equal(v.toarray(), o.toarray())
        if not same:
            ctx.violation('an array passed in by the user was changed from %s to %s' % (o, v))
    if spec0['init'] != spec['init']:
        ctx.violation('a list passed in by the user was changed')
    after = {k: v for k, v in vars(settings).items() if isinstance(v, (int, float, bool, str, type(None)))}
    if before != after:
        ctx.violation('the analysis changed the settings: %s' % [k for k in before if before[k] != after[k]])
    ctx.nontrivial([type(v).__name__ for v, _ in kept], len(spec['trans']))


def s14_width(rng, ctx):
    """clocks that are not a single number: the transition happens over several steps and nothing may be dropped after the first"""
    h = float(rng.choice([.1, .2, .25, .15]))
    N = int(rng.integers(5, 10))
    n = 3
    nm = int(rng.integers(1, 4))
    spec = {'step': h, 'num_steps': N, 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': ['width']}
    rate = float(rng.choice([1., 2., -1., .5]))
    sg = 1. if rate > 0 else -1.
    T = 0.
    for i in range(nm):
        A = np.zeros((n, n))
        A[0] = np.round(rng.normal(size=n) * .5, 2)
        A[0, 1] = 0
        A[1, 2] = rate
        T = T + rate * h * (int(rng.integers(1, 4)) + float(rng.uniform(.2, .8)))
        spec['modes'].append({'name': 'm%d' % i, 'A': A.tolist(), 'inv': [[[0., sg, 0.], sg * T]]})
        spec['trans'].append({'src': i, 'dst': i + 1, 'G': [[0., -sg, 0.]], 'g': [-sg * T], 'name': 't%d' % i})
        if rng.random() < .3:
            spec['trans'][-1]['R'] = [[.5, 0., .1], [0., 1., 0.], [0., 0., 1.]]
        if rng.random() < .3:
            spec['trans'].append({'src': i, 'dst': nm + 1, 'G': [[0., -sg, 0.], [-1., 0., 0.]], 'g': [-sg * T, -.4], 'name': 'e%d' % i})
    spec['modes'].append({'name': 'end', 'A': np.diag([-.1, 0., 0.]).tolist(), 'inv': []})
    spec['modes'].append({'name': 'err', 'A': None, 'inv': []})
    c, w = float(rng.uniform(0, .5)), float(rng.uniform(.05, .3))
    cw = float(rng.choice([0., .4, 1.3, 2.2])) * h
    aff = [1., 1.] if rng.random() < .6 else [float(rng.uniform(-.2, 1.)), 1.2]
    spec['init'].append({'mode': 0, 'kind': 'box', 'box': [[c, c + w], [-sg * cw, 0.] if sg > 0 else [0., cw], aff]})
    spec['settings'].update(process_urgent_guards=bool(rng.random() < .2), skip_zero_dynamics_modes=bool(rng.random() < .5))
    ctx.spec = spec
    ex = explore(spec)
    relaxed = tt_relaxed(dict(spec, settings=dict(spec['settings'], optimize_tt_transitions=True)))
    if relaxed is not None and match(sup_table(ex), sup_table(explore(relaxed)), 5e-5) is not None:
        raise Skip('time-triggered tolerance matters')
    want = sup_table(ex)
    for on in (True, False):
        res, got, _ = observe(spec, {'agg': 'un', 'stop_on_concrete_error': False, 'optimize_tt_transitions': on})
        bad = match(want, got)
        if bad:
            ctx.violation('clock range %s, rate range %s, optimize_tt_transitions=%s: %s' % (spec['init'][0]['box'][1], aff, on, bad))
        if bool(ex.errors) != bool(res.has_concrete_error):
            ctx.violation('optimize_tt_transitions=%s: concrete error %s, exact answer %s' % (on, res.has_concrete_error, bool(ex.errors)))
    ctx.event('wide_clocks')
    ctx.nontrivial(sorted((q.mode, q.start, len(q.sets)) for q in ex.nodes), h, rate, aff, cw)


# ------------------------------------------------------------------------------------------- S15
class WatchCore(hyl.Core):
    """records (mode, times, step in mode, extents) of the current set after every step, however the steps are driven"""

    def watch(self, modes, limit=None):
        object.__setattr__(self, 'w_limit', limit)
        object.__setattr__(self, 'w_ids', {id(m): i for i, m in enumerate(modes)})
        object.__setattr__(self, 'w_log', [])
        object.__setattr__(self, 'w_prev', (None, None))
        return self

    def do_step(self):
        super().do_step()
        if self.doing_simulation:
            return
        prev, prev_k = self.w_prev
        cur = self.aggdag.get_cur_state()
        if prev is not None and cur is not prev and prev.cur_step_in_mode != prev_k:
            self.w_note(prev)
        if cur is None:
            object.__setattr__(self, 'w_prev', (None, None))
        else:
            if cur is not prev or cur.cur_step_in_mode != prev_k:
                self.w_note(cur)
            object.__setattr__(self, 'w_prev', (cur, cur.cur_step_in_mode))

    def w_note(self, s):
        if s.mode.a_csr is None:
            self.w_log.append((self.w_ids[id(s.mode)], list(s.cur_steps_since_start), 0, []))
        else:
            sup = hyl.lp_sup(s.lpi, fixed_dirs(s.lpi.dims))
            if self.w_limit:
                # the first run of a case decides if it is one to look at
                if max(abs(v) for v in sup) > 1e5:
                    raise Skip('numbers too large')
                if len(self.w_log) >= self.w_limit:
                    raise Skip('too many sets')
            self.w_log.append((self.w_ids[id(s.mode)], list(s.cur_steps_since_start), s.cur_step_in_mode, sup))


def signature(core, res, spec, modes, trans):
    from .p_trace import check_ce
    ce = None
    if res.counterexample:
        ce = [[modes.index(s.mode), int(s.steps)] for s in res.counterexample]
    bad = check_ce(spec, res.counterexample, modes, trans, spec['settings'].get('process_urgent_guards', False)) \
        if res.counterexample else None
    return {'log': core.w_log, 'concrete': bool(res.has_concrete_error), 'aggregated': bool(res.has_aggregated_error),
            'ce': ce, 'ce_bad': bad}


def compare_sigs(a, b, exact_order=True, tol=1e-5):
    for k in ('concrete', 'aggregated'):
        if a[k] != b[k]:
            return '%s error %s instead of %s' % (k, b[k], a[k])
    if (a['ce'] is None) != (b['ce'] is None):
        return 'counter-example %s instead of %s' % (b['ce'], a['ce'])
    if b['ce_bad'] and not a['ce_bad']:
        return 'counter-example became invalid: %s' % b['ce_bad']
    la, lb = a['log'], b['log']
    if len(la) != len(lb):
        return '%d instead of %d sets explored' % (len(lb), len(la))
    for i, (p, q) in enumerate(zip(la, lb)):
        if list(p[:3]) != list(q[:3]):
            return 'set %d is %s instead of %s' % (i, q[:3], p[:3])
        if p[3] and not np.max(np.abs(np.array(p[3]) - np.array(q[3]))) <= tol * (1 + np.max(np.abs(p[3]))):
            return 'set %d %s has extent %s instead of %s' % (i, p[:3], np.round(q[3], 5).tolist(), np.round(p[3], 5).tolist())
    return None


def run_sig(spec, over, tweak=None, built=None, use_init=None, limit=None):
    """one complete analysis; built = (ha, modes, settings) to reuse"""
    with hyl.quiet():
        if built is None:
            ha, modes, init, settings = hyl.build(spec, over)
        else:
            ha, modes, settings = built
            init = hyl.build_init(spec, modes)
        if use_init is not None:
            init = use_init
        if tweak:
            tweak(settings)
        hyl.BUDGET[0] = 0
        core = WatchCore(ha, settings).watch(modes, limit)
        res = core.run(init)
    return signature(core, res, spec, modes, ha.transitions), (ha, modes, settings, init, core)


WORK = 300000  # LP rows over all solved LPs of one analysis


def disturb(rng, ctx):
    """something else happening in the process before the run"""
    kind = str(rng.choice(['run', 'aborted', 'raising', 'infeasible', 'model', 'sim', 'random']))
    ctx.event('before_' + kind)
    if kind == 'random':
        np.random.seed(int(rng.integers(1000)))
        np.random.random(int(rng.integers(1, 50)))
        return kind
    spec = gen.gen_spec(rng, modes=(1, 2), dims=(1, 3), steps=(3, 6), p_inputs=0. if kind == 'sim' else .3)
    over = {'agg': rand_strat(rng)}
    if kind == 'model':
        over['approx_model'] = int(rng.choice([1, 2]))
    try:
        with hyl.quiet(), hyl.work_limit(WORK):
            ha, modes, init, settings = hyl.build(spec, over)
            settings.random_seed = int(rng.integers(5))
            core = hyl.new_core(ha, settings)
            if kind in ('run', 'model'):
                core.run(init)
            elif kind == 'aborted':
                core.setup(init)
                for _ in range(int(rng.integers(1, 6))):
                    if not core.is_finished():
                        core.do_step()
            elif kind == 'raising':
                class Boom(Exception):
                    pass
                left = [int(rng.integers(1, 8))]
                orig = hyl.StateSet.step

                def boom(self, *a, **k):
                    left[0] -= 1
                    if left[0] < 0:
                        raise Boom()
                    return orig(self, *a, **k)
                hyl.StateSet.step = boom
                try:
                    core.run(init)
                except Boom:
                    pass
                finally:
                    hyl.StateSet.step = orig
            elif kind == 'infeasible':
                m = modes[0]
                n = m.a_csr.shape[0]
                try:
                    hyl.lputil.from_constraints([[1.] + [0.] * (n - 1), [-1.] + [0.] * (n - 1)], [1., -2.], m)
                except (AssertionError, RuntimeError):
                    pass
            elif kind == 'sim':
                settings.plot.plot_mode = hyl.PlotSettings.PLOT_IMAGE
                from .p_trace import no_images
                n = modes[0].a_csr.shape[0]
                if all(m.a_csr is None or m.a_csr.shape[0] >= 2 for m in modes):
                    with no_images(True):
                        core.simulate(modes[0], [[-.1, .1]] * n, 2)
    except (RuntimeError, AssertionError, Skip) as ex:
        ctx.event('disturbance_raised_' + type(ex).__name__)
    return kind


def null_spec(rng):
    """dynamics which move every point in few directions: the templates of Arnoldi aggregation have to be completed"""
    n = int(rng.integers(3, 5))
    h, N = float(rng.choice([.1, .2])), int(rng.integers(5, 8))
    spec = {'step': h, 'num_steps': N, 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': ['null']}
    nm = int(rng.integers(2, 4))
    for i in range(nm):
        A = -rng.uniform(.3, .8) * np.eye(n)
        if rng.random() < .4:
            A += np.outer(rng.uniform(-.4, .4, size=n), rng.uniform(-.4, .4, size=n))
        spec['modes'].append({'name': 'm%d' % i, 'A': gen.r6(A), 'inv': []})
    for i in range(nm - 1):
        t = {'src': i, 'dst': i + 1, 'name': 't%d' % i, 'G': [[1.] + [0.] * (n - 1), [-1.] + [0.] * (n - 1)],
             'g': [float(np.round(.92 - .15 * i, 4)) + .00003, float(np.round(-.5 + .15 * i, 4)) + .00003]}
        spec['trans'].append(t)
    lo = rng.uniform(.8, .95, size=n)
    spec['init'].append({'mode': 0, 'kind': 'box', 'box': [[float(np.round(v, 4)), float(np.round(v + .1, 4))] for v in lo]})
    return spec


def clock_spec(rng):
    """modes left when a clock reaches a multiple of the step"""
    n = int(rng.integers(3, 5))
    h, N = float(rng.choice([.1, .25, .2])), int(rng.integers(6, 11))
    spec = {'step': h, 'num_steps': N, 'modes': [], 'trans': [], 'init': [], 'settings': {'optimize_tt_transitions': True}, 'tags': ['tt']}
    nm = int(rng.integers(2, 4))
    for i in range(nm):
        A = np.zeros((n, n))
        A[:n - 2, :n - 2] = rng.normal(size=(n - 2, n - 2)) * .4
        A[:n - 2, n - 1] = rng.normal(size=n - 2) * .3
        A[n - 2, n - 1] = 1.
        spec['modes'].append({'name': 'm%d' % i, 'A': gen.r6(A), 'inv': []})
    clock = [0.] * n
    clock[n - 2] = 1.
    for i in range(nm - 1 + int(rng.random() < .4)):
        T = float(np.round(h * int(rng.integers(1, 5)), 6))
        spec['modes'][i]['inv'] = [[list(clock), T]]
        R = np.eye(n)
        R[n - 2, n - 2] = 0.
        spec['trans'].append({'src': i, 'dst': (i + 1) % nm, 'name': 't%d' % i, 'G': [[-v for v in clock]], 'g': [-T], 'R': R.tolist()})
    lo = rng.uniform(-1, 1, size=n - 2)
    spec['init'].append({'mode': 0, 'kind': 'box', 'box': [[float(np.round(v, 4)), float(np.round(v + .1, 4))] for v in lo] + [[0., 0.], [1., 1.]]})
    return spec


def s15_case(rng, ctx):
    p = rng.random()
    over = {'agg': rand_strat(rng), 'stop_on_concrete_error': bool(rng.random() < .6)}
    if p < .08:
        spec = null_spec(rng)
        over['agg'] = {'type': 'arnoldi', 'deagg': bool(rng.random() < .4)}
        ctx.event('arnoldi_null_space')
    elif p < .18:
        spec = clock_spec(rng)
        ctx.event('clocks')
    elif p < .38:
        spec = gen.join_spec(rng, error=True)
    else:
        spec = gen.gen_spec(rng, **dict(VKW, n_init=(1, 2), steps=(4, 8), p_tt=.3, p_inv=.6))
    if rng.random() < .12:
        over['approx_model'] = int(rng.choice([1, 2]))
        from .p_approx import applicable
        applicable(spec)
    spec['over'] = over
    ctx.spec = spec
    arnoldi = isinstance(over['agg'], dict) and over['agg']['type'] == 'arnoldi'
    try:
        with hyl.work_limit(WORK):
            base, kept = run_sig(spec, over, limit=300)
    except RuntimeError as ex:
        if 'No feasible initial' in str(ex):
            raise Skip('no feasible initial state')
        raise
    done = []

    def check(name, sig):
        bad = compare_sigs(base, sig)
        ctx.event('reruns')
        ctx.event(name)
        done.append(name)
        if bad:
            ctx.violation('%s: %s (%s)' % (name, bad, over))
    # the same again, with something else in between
    kinds = [disturb(rng, ctx) for _ in range(int(rng.integers(0, 3)))]
    check('again', run_sig(spec, over)[0])
    # automaton and settings reused, several times
    ha, modes, settings, init, core = kept
    for _ in range(int(rng.integers(1, 3))):
        check('reused_automaton', run_sig(spec, over, built=(ha, modes, settings))[0])
    # the automaton used with other settings in between
    if rng.random() < .6:
        ha2, modes2, settings2 = ha, modes, settings
        if rng.random() < .6:  # never used with the settings of interest before
            with hyl.quiet():
                ha2, modes2, _, settings2 = hyl.build(spec, over)
        h2, n2 = float(rng.choice([.5, 1., 2.3])), int(rng.integers(2, 9))
        spec2 = dict(spec, step=spec['step'] * h2, num_steps=n2)
        over2 = dict(over, agg=rand_strat(rng), optimize_tt_transitions=bool(rng.random() < .8), do_guard_strengthening=bool(rng.random() < .8),
                     process_urgent_guards=False)
        if rng.random() < .4 and all(m['A'] is None or np.any(np.array(m['A'])) for m in spec['modes']):
            over2['approx_model'] = int(rng.choice([1, 2]))
        try:
            with hyl.quiet(), hyl.work_limit(WORK):
                hyl.new_core(ha2, hyl.make_settings(spec2, over2)).run(hyl.build_init(spec, modes2))
        except (Skip, RuntimeError, AssertionError) as ex:
            ctx.event('disturbance_raised_' + type(ex).__name__)
        check('after_other_settings', run_sig(spec, over, built=(ha2, modes2, settings2))[0])
    # the same initial sets again
    check('reused_initial_sets', run_sig(spec, over, built=(ha, modes, settings), use_init=init)[0])
    if rng.random() < .5:
        sig, k2 = run_sig(spec, over)
        check('reused_everything', run_sig(spec, over, built=k2[:3], use_init=k2[3])[0])
    # output
    lvl = int(rng.integers(1, 4))

    def loud(s):
        s.stdout = lvl
    check('verbosity_%d' % lvl, run_sig(spec, over, loud)[0])
    if rng.random() < .5:
        check('other_output', plotted_sig(rng, ctx, spec, over))
    # two analyses taking turns
    if not arnoldi and rng.random() < .6:
        check('taking_turns', turns_sig(rng, spec, over))
    # a run stopped half-way and taken up again with the same objects
    if rng.random() < .4:
        with hyl.quiet():
            hyl.BUDGET[0] = 0
            c2 = hyl.Core(ha, settings)
            c2.setup(hyl.build_init(spec, modes))
            for _ in range(int(rng.integers(1, 12))):
                if not c2.is_finished():
                    c2.do_step()
        check('after_abandoned', run_sig(spec, over, built=(ha, modes, settings))[0])
    ctx.event('sets', len(base['log']))
    ctx.nontrivial(over, [(a, b, c) for a, b, c, _ in base['log']], sorted(kinds), done)
    ctx.sample({'spec': spec, 'sets': len(base['log']), 'variants': done, 'before': kinds})


def plotted_sig(rng, ctx, spec, over):
    from .p_plot import plot_settings, plot_axes
    from .p_trace import no_images
    import matplotlib.pyplot as plt
    ax = plot_axes(rng, spec)
    mode = [hyl.PlotSettings.PLOT_NONE, hyl.PlotSettings.PLOT_IMAGE][int(rng.random() < .35)]

    def tweak(s):
        plot_settings(s, ax, mode)
    try:
        with no_images(rng.random() < .7):
            ctx.event('drawn', int(mode != hyl.PlotSettings.PLOT_NONE))
            return run_sig(spec, over, tweak)[0]
    finally:
        plt.close('all')


def turns_sig(rng, spec, over):
    other = gen.gen_spec(rng, modes=(1, 2), dims=(1, 3), steps=(3, 8))
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, over)
        ha2, modes2, init2, settings2 = hyl.build(other, {'agg': rand_strat(rng)})
        hyl.BUDGET[0] = 0
        core = WatchCore(ha, settings).watch(modes)
        core.setup(init)
        try:
            core2 = hyl.Core(ha2, settings2)
            core2.setup(init2)
        except RuntimeError:
            core2 = None
        while not core.is_finished():
            core.do_step()
            for _ in range(int(rng.integers(0, 3))):
                if core2 is not None and not core2.is_finished():
                    try:
                        core2.do_step()
                    except (RuntimeError, AssertionError):
                        core2 = None
    return signature(core, core.result, spec, modes, ha.transitions)


ONESHOT = '''
import sys, json
sys.path[:0] = [%r]
from mon import p_sys
d = json.load(sys.stdin)
out = []
for spec, over in d:
    out.append(p_sys.run_sig(spec, over)[0])
print('SIG ' + json.dumps(out))
'''


def s15_process(rng, ctx):
    """several analyses, each also alone in a new process"""
    import json
    import os
    import subprocess
    import sys
    jobs, base = [], []
    for _ in range(int(rng.integers(3, 6))):
        spec = gen.gen_spec(rng, **dict(VKW, n_init=(1, 2), steps=(4, 7)))
        over = {'agg': rand_strat(rng)}
        try:
            with hyl.work_limit(WORK):
                sig = run_sig(spec, over, limit=300)[0]
        except (Skip, RuntimeError):
            continue
        jobs.append((spec, over))
        base.append(sig)
    if not jobs:
        raise Skip('no runs')
    ctx.spec = jobs[0][0]
    env = dict(os.environ, VERIF_REPO=hyl.REPO, PYTHONHASHSEED=str(int(rng.integers(1, 1000))))
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    i = int(rng.integers(len(jobs)))
    p = subprocess.run([sys.executable, '-c', ONESHOT % root], input=json.dumps([jobs[i]]), capture_output=True, text=True, env=env,
                       timeout=240)
    line = [q for q in p.stdout.splitlines() if q.startswith('SIG ')]
    if not line:
        raise RuntimeError('new process failed: ' + p.stderr[-800:])
    sig = json.loads(line[0][4:])[0]
    bad = compare_sigs(base[i], sig)
    ctx.event('new_processes')
    ctx.nontrivial(jobs[i])
    if bad:
        ctx.spec = dict(jobs[i][0], over=jobs[i][1])
        ctx.violation('alone in a new process: %s' % bad)
