"""Builds and drives the real hylaa code from a spec; observation goes through public state only."""
import io
import os
import sys
import contextlib
import numpy as np
from . import gen
from .ctx import Skip

os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from hylaa.hybrid_automaton import HybridAutomaton  # noqa: E402
from hylaa.settings import HylaaSettings, PlotSettings  # noqa: E402
from hylaa.core import Core as _Core  # noqa: E402
from hylaa.stateset import StateSet  # noqa: E402
from hylaa import lputil, aggstrat  # noqa: E402
from hylaa.aggstrat import Aggregated, Unaggregated  # noqa: E402


def farr(x):
    return np.array(x, dtype=float)


def build_ha(spec):
    ha = HybridAutomaton(spec.get('name', 'ha'))
    modes = []
    for i, m in enumerate(spec['modes']):
        mode = ha.new_mode(m.get('name', 'm%d' % i))
        modes.append(mode)
        if m['A'] is not None:
            mode.set_dynamics(farr(m['A']))
            if m.get('B') is not None:
                mode.set_inputs(farr(m['B']), farr(m['Uc']), farr(m['Ur']), allow_constants=True)
            if m.get('inv'):
                mode.set_invariant(farr([r for r, _ in m['inv']]), farr([b for _, b in m['inv']]))
    for t in spec['trans']:
        tr = ha.new_transition(modes[t['src']], modes[t['dst']], name=t.get('name', ''))
        if len(t['g']) == 0:
            tr.set_guard_true()
        else:
            tr.set_guard(farr(t['G']), farr(t['g']))
        if t.get('R') is not None or t.get('M') is not None:
            kw = {}
            if t.get('M') is not None:
                kw = dict(reset_minkowski_csr=None if gen.added_by_default(t) else farr(t['M']),
                          reset_minkowski_constraints_csr=farr(t['Mc']),
                          reset_minkowski_constraints_rhs=farr(t['Mr']))
            tr.set_reset(None if t.get('R') is None else farr(t['R']), **kw)
    return ha, modes


def build_init(spec, modes):
    rv = []
    for ini in spec['init']:
        mode = modes[ini['mode']]
        if ini['kind'] == 'box':
            lpi = lputil.from_box([tuple(b) for b in ini['box']], mode)
        elif ini['kind'] == 'cons':
            lpi = lputil.from_constraints(farr(ini['C']), farr(ini['r']), mode)
        else:
            lpi = lputil.from_zonotope(list(ini['c']), [list(g) for g in ini['gens']], mode)
        rv.append(StateSet(lpi, mode))
    return rv


def make_settings(spec, over=None):
    st = dict(spec.get('settings') or {})
    st.update(over or {})
    h = spec['step']
    # a time bound which takes exactly num_steps steps to reach: sometimes a multiple of the step, sometimes not
    n = spec['num_steps']
    bound = h * n if n % 3 == 0 else h * (n - (.6 if n % 3 == 1 else .3))
    if n % 3 == 0 and not n - 1 < bound / h <= n:
        bound = h * (n - .3)
    hs = HylaaSettings(h, bound)
    hs.stdout = HylaaSettings.STDOUT_NONE
    for k in ('process_urgent_guards', 'do_guard_strengthening', 'optimize_tt_transitions',
              'skip_zero_dynamics_modes', 'stop_on_aggregated_error', 'stop_on_concrete_error',
              'make_counterexample', 'approx_model', 'random_seed', 'stdout'):
        if k in st:
            setattr(hs, k, st[k])
    hs.aggstrat = make_strat(st.get('agg', 'un'))
    return hs


POP = {'low_mintime': Aggregated.POP_LOWEST_MINTIME, 'low_avgtime': Aggregated.POP_LOWEST_AVGTIME,
       'largest': Aggregated.POP_LARGEST_MAXTIME} if hasattr(Aggregated, 'POP_LARGEST_MAXTIME') else {}


def make_strat(a):
    if a == 'un' or a is None:
        return Unaggregated()
    s = Aggregated()
    if isinstance(a, str):
        a = {'type': a}
    ty = {'box': Aggregated.AGG_BOX, 'arnoldi': Aggregated.AGG_ARNOLDI_BOX,
          'chull': Aggregated.AGG_CONVEX_HULL}[a['type']]
    s.agg_type = ty
    s.deaggregate = bool(a.get('deagg', False))
    for k in ('require_same_path', 'add_guard', 'deagg_preference', 'pop_type'):
        if k in a:
            v = a[k]
            if isinstance(v, str):
                v = getattr(Aggregated, v)
            setattr(s, k, v)
    return s


def build(spec, over=None):
    ha, modes = build_ha(spec)
    init = build_init(spec, modes)
    settings = make_settings(spec, over)
    return ha, modes, init, settings


class Obs:
    """one observed state set"""
    __slots__ = ('mode', 'since', 'k', 'sup', 'concrete', 'serial', 'lpi')

    def __repr__(self):
        return 'Obs(%s,%s,%d)' % (self.mode, self.since, self.k)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def lp_sup(lpi, dirs):
    """support values of the set an LpInstance denotes, asked of the real code on a clone"""
    c = lpi.clone()
    out = []
    for d in dirs:
        d = np.asarray(d, dtype=float)
        res = c.minimize(direction_vec=list(-d), columns=[c.cur_vars_offset + i for i in range(c.dims)])
        out.append(float(np.dot(d, np.array(res))))
    return out


class Core(_Core):
    """the real Core; only counts steps and gives up on analyses whose LPs grow out of hand (a resource limit of
    the monitor, not a verdict).  Nothing else is overridden."""

    max_steps = 4000
    max_rows = 900

    def do_step(self):
        BUDGET[0] += 1
        if BUDGET[0] > self.max_steps:
            raise Skip('step budget')
        cur = self.aggdag.get_cur_state()
        if cur is None and not self.doing_simulation:
            # a convex hull stacks the LPs of everything it joins
            if getattr(self.settings.aggstrat, 'agg_type', None) == Aggregated.AGG_CONVEX_HULL and \
                    sum(op.poststate.lpi.get_num_rows() for op in self.aggdag.waiting_list) > 3 * self.max_rows:
                raise Skip('lp size')
        elif cur is not None and cur.lpi.get_num_rows() > self.max_rows:
            raise Skip('lp size')
        super().do_step()


BUDGET = [0]


@contextlib.contextmanager
def work_limit(limit):
    """gives up (Skip) on an analysis whose LPs add up to too much work; nothing else changes"""
    from hylaa.lpinstance import LpInstance
    orig = LpInstance.minimize
    left = [limit]

    def minimize(self, *a, **k):
        left[0] -= self.get_num_rows()
        if left[0] < 0:
            raise Skip('work limit')
        return orig(self, *a, **k)
    LpInstance.minimize = minimize
    try:
        yield left
    finally:
        LpInstance.minimize = orig


def new_core(ha, settings):
    BUDGET[0] = 0
    return Core(ha, settings)


def drive(core, init, on_state):
    """setup + do_step loop; on_state(state, serial, core) after every change of the current state set"""
    core.setup(init)
    prev, prev_k, serial = None, None, -1
    while not core.is_finished():
        core.do_step()
        cur = core.aggdag.get_cur_state()
        if prev is not None and cur is not prev and prev.cur_step_in_mode != prev_k:
            on_state(prev, serial, core)  # stepped and then left inside one call
        if cur is None:
            prev = None
            continue
        if cur is not prev:
            serial += 1
            prev, prev_k = cur, cur.cur_step_in_mode
            on_state(cur, serial, core)
        elif cur.cur_step_in_mode != prev_k:
            prev_k = cur.cur_step_in_mode
            on_state(cur, serial, core)
    if prev is not None and core.aggdag.get_cur_state() is not prev and prev.cur_step_in_mode != prev_k:
        on_state(prev, serial, core)
    return core.result
