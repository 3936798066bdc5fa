"""S17: use of the native LP library.  Workloads of the other monitors run with every native call checked."""
import gc
from . import native
native.install()  # before the code under test is loaded
import numpy as np  # noqa: E402
import swiglpk as g  # noqa: E402
from . import gen, hyl, p_lp, p_reach  # noqa: E402
from .ctx import Ctx, Skip  # noqa: E402
from .lp import OracleTrouble  # noqa: E402
from .ref import Ambiguous, TooBig  # noqa: E402

MON = native.MON


class Boom(Exception):
    """injected"""


def displace():
    """the code keeps its most recent analysis object for printing; make a new one, which owns no programs"""
    ha = hyl.HybridAutomaton()
    hyl.new_core(ha, hyl.HylaaSettings(.1, .1))


def monitored(ctx, work, expect=()):
    """run work() with the monitor on and everything it created gone afterwards"""
    gc.collect()
    base = set(MON.live)
    c0, d0 = MON.created, MON.deleted
    MON.problems, MON.calls = [], {}
    outcome = 'ok'
    try:
        work()
    except native.ProtocolError:
        outcome = 'protocol'
    except expect as e:
        outcome = type(e).__name__
    except (Skip, Ambiguous, TooBig, OracleTrouble):
        outcome = 'cut short'
    finally:
        MON.fault = MON.simplex_fault = None
    displace()
    gc.collect()
    left = set(MON.live) - base
    if left:
        # a module-level reference to an exception may keep frames alive
        import sys
        sys.last_traceback = sys.last_value = None
        gc.collect()
        left = set(MON.live) - base
    for p in MON.problems:
        ctx.violation(p)
    if outcome == 'protocol' and not MON.problems:
        ctx.violation('protocol error without a record')
    if left:
        ctx.violation('%d of %d native programs were not deleted (%s)' % (len(left), MON.created - c0, outcome))
    elif MON.created - c0 != MON.deleted - d0:
        ctx.violation('%d programs created, %d deleted' % (MON.created - c0, MON.deleted - d0))
    for k, v in MON.calls.items():
        ctx.event('native_calls', v)
        if k in ('glp_set_mat_row', 'glp_set_mat_col', 'glp_simplex', 'glp_copy_prob', 'glp_get_mat_row'):
            ctx.event(k, v)
    ctx.event('programs', MON.created - c0)
    ctx.event('outcome_' + outcome)
    return outcome


def analysis(rng, ctx):
    """one analysis with random settings of every kind, as a function to call"""
    from hylaa.settings import HylaaSettings, PlotSettings
    spec = gen.gen_spec(rng, steps=(3, 8))
    spec['settings']['agg'] = p_reach.rand_strat(rng)
    spec['settings']['stop_on_concrete_error'] = bool(rng.random() < .5)
    if rng.random() < .3:
        spec['settings']['approx_model'] = [HylaaSettings.APPROX_CHULL, HylaaSettings.APPROX_LGG][int(rng.integers(2))]
        if rng.random() < .6:
            spec['settings']['agg'] = 'un'
    ctx.spec = spec
    plot = bool(rng.random() < .4)

    def work():
        with hyl.quiet():
            ha, modes, init, settings = hyl.build(spec)
            settings.stop_on_aggregated_error = bool(spec['num_steps'] % 2)
            if plot and min(len(m['A']) for m in spec['modes'] if m['A'] is not None) >= 2:
                settings.plot.plot_mode = PlotSettings.PLOT_NONE
                settings.plot.store_plot_result = True
                settings.plot.xdim_dir, settings.plot.ydim_dir = 0, 1
            core = hyl.new_core(ha, settings)
            if plot:
                core.run(init)
            else:
                hyl.drive(core, init, lambda *a: None)
    return spec, work


def s17_runs(rng, ctx):
    spec, work = analysis(rng, ctx)
    out = monitored(ctx, work, expect=(RuntimeError, AssertionError))
    ctx.nontrivial(out, len(spec['modes']), [t['src'] for t in spec['trans']], str(spec['settings']), spec['num_steps'])
    ctx.sample({'spec': spec, 'outcome': out, 'calls': dict(MON.calls)})


def s17_faults(rng, ctx):
    """the same with an exception out of the n-th native call, or failing solves"""
    spec, work = analysis(rng, ctx)
    kind = str(rng.choice(['raise', 'simplex', 'simplex_all']))
    if kind == 'raise':
        at = int(rng.integers(1, 4000)) if rng.random() < .5 else int(rng.integers(1, 400))
        state = [0]

        def fault(name):
            state[0] += 1
            return Boom('injected') if state[0] == at else None

        def arm():
            MON.fault = fault
            work()
        out = monitored(ctx, arm, expect=(RuntimeError, AssertionError, Boom))
    else:
        codes = [g.GLP_ESING, g.GLP_ECOND, g.GLP_EFAIL, g.GLP_EITLIM, g.GLP_ETMLIM, g.GLP_EBADB]
        p = .05 if kind == 'simplex' else 1.
        start = int(rng.integers(0, 60))
        frng = np.random.default_rng(int(rng.integers(1 << 30)))
        state = [0]

        def sfault():
            state[0] += 1
            if state[0] > start and frng.random() < p:
                ctx.event('faults')
                return int(frng.choice(codes))
            return 0

        def arm():
            MON.simplex_fault = sfault
            work()
        out = monitored(ctx, arm, expect=(RuntimeError, AssertionError))
    if out == 'Boom':
        ctx.event('faults')
    ctx.nontrivial(kind, out, len(spec['modes']), str(spec['settings']), spec['num_steps'])
    ctx.sample({'kind': kind, 'outcome': out})


def inner(fn):
    def case(rng, ctx):
        sub = Ctx(ctx.prop, ctx.family, ctx.idx, ctx.tier)

        def work():
            fn(rng, sub)
        out = monitored(ctx, work, expect=(RuntimeError, AssertionError))
        for s in sub.sigs:
            ctx.sigs.add(s)
        ctx.spec = sub.spec
        ctx.sample(sub.sample_data)
    return case


s17_hist = inner(p_lp.s10_case)
s17_ops = inner(p_lp.s09_case)
s17_trim = inner(p_lp.s11_direct)
