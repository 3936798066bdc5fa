"""Monitors over traces the tool hands out: counter-examples (S03), simulations (S13), the two trace checkers (S20).
Oracle: own matrix exponential, point-wise evaluation of the spec."""
import copy
import os
import shutil
import tempfile
import numpy as np
from . import gen, hyl, models, ref
from .ctx import Skip
from .p_reach import tight_spec, explore, rand_strat, run_verdict, tt_rows, shape_sig, VKW


# ------------------------------------------------------------------------------------------- S03
def in_init(spec, mi, pt, tol):
    """index of an initial set containing the point, or None"""
    for idx, ini in enumerate(spec['init']):
        if ini['mode'] != mi:
            continue
        if ini['kind'] == 'box':
            s = ref.RSet.box(ini['box'])
        elif ini['kind'] == 'cons':
            s = ref.RSet.polyhedron(ini['C'], ini['r'])
        else:
            s = ref.RSet.zono(ini['c'], ini['gens'])
        if s.dims == len(pt) and s.contains(pt, tol):
            return idx
    return None


def violates(rows, rhs, x, tol):
    for row, r in zip(rows, rhs):
        row = np.array(row, dtype=float)
        v = float(row @ x) - r
        if v > tol * (1 + abs(r) + np.abs(row).sum()):
            return v
    return None


def check_ce(spec, segs, modes, trans, urgent=False, tol=2e-5):
    """first reason why the chain of segments is not an execution into an error mode; None if it is one"""
    ids = {id(m): i for i, m in enumerate(modes)}
    tids = {id(t): i for i, t in enumerate(trans)}
    h, N = spec['step'], spec['num_steps']
    gtol = tol + (1.6 * h / N / 1000. if tt_rows(spec) else 0)
    if not segs:
        return 'no segments'
    total = 0
    flows = {}
    prev = None  # (state before the reset, transition index, minkowski values)
    for si, seg in enumerate(segs):
        if id(seg.mode) not in ids:
            return 'segment %d: unknown mode' % si
        mi = ids[id(seg.mode)]
        m = spec['modes'][mi]
        if m['A'] is None:
            return 'segment %d: is in an error mode' % si
        n = len(m['A'])
        x = np.array(seg.start, dtype=float)
        end = np.array(seg.end, dtype=float)
        if x.shape != (n,) or end.shape != (n,):
            return 'segment %d: start/end have %s/%s entries, mode has %d variables' % (si, x.shape, end.shape, n)
        scale = 1 + np.max(np.abs(np.concatenate([x, end])))
        if prev is None:
            if in_init(spec, mi, x, tol * scale) is None:
                return 'start %s is in no initial set' % x.tolist()
        else:
            px, ti, w = prev
            t = spec['trans'][ti]
            if t['dst'] != mi:
                return 'segment %d: transition %d does not lead to its mode' % (si, ti)
            R = np.eye(len(px)) if t.get('R') is None else np.array(t['R'], dtype=float)
            y = R @ px
            if t.get('M') is not None:
                M = np.array(t['M'], dtype=float)
                if len(w) != M.shape[1]:
                    return 'segment %d: %d reset values recorded, the reset has %d' % (si, len(w), M.shape[1])
                bad = violates(t['Mc'], t['Mr'], np.array(w), tol)
                if bad:
                    return 'segment %d: reset values %s outside their set by %g' % (si, list(w), bad)
                y = y + M @ np.array(w)
            elif len(w):
                return 'segment %d: reset values recorded for a reset without any' % si
            err = np.max(np.abs(y - x))
            if err > tol * scale * 3:
                return 'segment %d: reset of the previous end is %s, segment starts at %s (off by %g)' % (
                    si, y.tolist(), x.tolist(), err)
        k = int(seg.steps)
        if k != seg.steps or k < 0 or (k == 0 and not urgent):
            return 'segment %d: %s steps' % (si, seg.steps)
        ins = [np.array(u, dtype=float) for u in seg.inputs]
        if m.get('B') is None:
            if any(len(u) for u in ins):
                return 'segment %d: inputs recorded for a mode without inputs' % si
        elif len(ins) != k:
            return 'segment %d: %d inputs for %d steps' % (si, len(ins), k)
        if mi not in flows:
            flows[mi] = ref.flow_matrices(m['A'], m.get('B'), h)
        E, G = flows[mi]
        inv = m.get('inv') or []
        for j in range(k + 1):
            if j < k or k == 0:
                bad = violates([r for r, _ in inv], [b for _, b in inv], x, gtol)
                if bad:
                    return 'segment %d: invariant violated by %g at step %d' % (si, bad, j)
            if j == k:
                break
            x = E @ x
            if G is not None:
                bad = violates(m['Uc'], m['Ur'], ins[j], tol)
                if bad:
                    return 'segment %d: input %d = %s outside the input set by %g' % (si, j, ins[j].tolist(), bad)
                x = x + G @ ins[j]
        err = np.max(np.abs(x - end))
        if err > tol * scale * 3:
            return 'segment %d: execution ends at %s, segment says %s (off by %g)' % (si, x.tolist(), end.tolist(), err)
        total += k
        if id(seg.outgoing_transition) not in tids:
            return 'segment %d: no outgoing transition' % si
        ti = tids[id(seg.outgoing_transition)]
        t = spec['trans'][ti]
        if t['src'] != mi:
            return 'segment %d: outgoing transition starts in another mode' % si
        bad = violates(t['G'], t['g'], end, gtol)
        if bad:
            return 'segment %d: guard of the outgoing transition not satisfied (by %g)' % (si, bad)
        prev = (end, ti, [float(v) for v in seg.reset_minkowski_vars])
    if spec['modes'][spec['trans'][prev[1]]['dst']]['A'] is not None:
        return 'does not end in an error mode'
    if total > N:
        return 'takes %d steps, the bound is %d' % (total, N)
    return None


def s03_case(rng, ctx, wide=False, spec=None, **kw):
    args = dict(VKW)
    args.update(kw)
    if wide:
        spec = ctx.spec = gen.wide_spec(rng)
        ex = explore(spec)
    else:
        spec, ex, node, k = tight_spec(rng, True, spec=spec, **args)
        ctx.spec = spec
    if not ex.errors:
        raise Skip('aimed guard not reached')
    over = {'agg': 'un' if rng.random() < .6 else rand_strat(rng, True, True)}
    if rng.random() < .25:
        over['stop_on_concrete_error'] = False
    if rng.random() < .08:
        over['make_counterexample'] = False
    spec['over'] = over
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, over)
        core = hyl.new_core(ha, settings)
        res = core.run(init)
    if not res.has_concrete_error:
        ctx.event('not_found')  # S01 / S06 look at that
        if res.counterexample:
            ctx.violation('counter-example without a concrete error')
        return
    if not over.get('make_counterexample', True):
        if res.counterexample:
            ctx.violation('counter-example produced although it was switched off')
        ctx.event('switched_off')
        return
    if not res.counterexample:
        ctx.violation('concrete error without a counter-example')
        return
    segs = res.counterexample
    bad = check_ce(spec, segs, modes, ha.transitions, spec['settings'].get('process_urgent_guards', False))
    ctx.event('counterexamples_checked')
    ctx.event('segments_checked', len(segs))
    ctx.event('with_inputs', int(any(len(s.inputs) for s in segs)))
    ctx.event('with_reset_terms', int(any(len(s.reset_minkowski_vars) for s in segs)))
    ctx.event('multi_segment', int(len(segs) > 1))
    ctx.event('ten_or_more', int(len(segs) >= 10))
    ctx.nontrivial([(s.mode.name, s.steps) for s in segs], shape_sig(spec, ex), over)
    ctx.sample({'spec': spec, 'counterexample': [[s.mode.name, list(map(float, s.start)), int(s.steps)] for s in segs]})
    if bad:
        ctx.violation('counter-example is not an execution: %s (%s)' % (bad, over))


def s03_mix(rng, ctx):
    s03_case(rng, ctx)


def s03_resets(rng, ctx):
    s03_case(rng, ctx, modes=(2, 4), p_reset=.9, p_mink=.6, p_dimchange=.5, n_init=(1, 2), steps=(5, 10), p_backedge=.4)


def s03_inputs(rng, ctx):
    s03_case(rng, ctx, p_inputs=.9, modes=(1, 3), p_inv=.7, p_zero=.15)


def s03_wide(rng, ctx):
    s03_case(rng, ctx, wide=True)


def s03_models(rng, ctx):
    s03_case(rng, ctx, spec=models.near_spec(rng))
    ctx.event('models')


# ------------------------------------------------------------------------------------------- S13
def scratch():
    return tempfile.mkdtemp(prefix='verif-plot-')


class no_images:
    """see what a picture shows; writing it (slow, and not what is looked at) is skipped in most cases"""

    def __init__(self, skip):
        self.skip = skip
        self.shots = []

    def __enter__(self):
        from matplotlib.figure import Figure
        from .p_plot import snapshot
        self.cls, self.old = Figure, Figure.savefig

        def savefig(fig, *a, **kw):
            self.shots.append(snapshot(fig))
            return None if self.skip else self.old(fig, *a, **kw)
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        self.cls.savefig = self.old
        plt.close('all')


def showing(mode, draw, rng):
    from hylaa.settings import PlotSettings
    from .p_plot import Window, VideoFile
    if mode == PlotSettings.PLOT_IMAGE:
        return no_images(not draw)
    if mode == PlotSettings.PLOT_VIDEO:
        return VideoFile()
    press = np.random.default_rng(int(rng.integers(1 << 30)))

    def on_frame(win, fig):
        for name in ('Next', 'Step'):
            if name in win.buttons and press.random() < .6:
                win.buttons[name](None)
    return Window(on_frame)


def check_drawn_lines(ctx, shots, lines):
    """the picture shows exactly the recorded lines, inside its axes"""
    if not shots:
        ctx.violation('no picture was saved')
        return False
    for p, plot in enumerate(lines):
        want = [np.array(seg, dtype=float) for grp in plot for seg in grp if seg]
        shot = shots[-1][p]
        got = [v for c in shot['segs'] for v in c if len(v)]
        if len(got) != len(want) or any(g.shape != w.shape or np.max(np.abs(g - w)) > 1e-9 for g, w in zip(
                sorted(got, key=lambda v: v.tolist()), sorted(want, key=lambda v: v.tolist()))):
            ctx.violation('plot %d shows %d simulated lines, %d are recorded, or other ones' % (p, len(got), len(want)))
            return False
        if want:
            v = np.vstack(want)
            eps = 1e-9 * (1 + np.max(np.abs(v)))
            lo, hi = v.min(0), v.max(0)
            if lo[0] < shot['xlim'][0] - eps or hi[0] > shot['xlim'][1] + eps or lo[1] < shot['ylim'][0] - eps or hi[1] > shot['ylim'][1] + eps:
                ctx.violation('plot %d: simulations between %s and %s are outside of the axes x %s, y %s' % (
                    p, lo.tolist(), hi.tolist(), shot['xlim'], shot['ylim']))
                return False
    ctx.event('pictures')
    return True


def sim_spec(rng):
    spec = gen.gen_spec(rng, modes=(1, 3), dims=(1, 3), steps=(4, 12), n_init=(1, 1), p_inputs=0., p_mink=0.,
                        init_kinds=('box',), p_dimchange=.35, p_error=.5, p_backedge=.4)
    spec['trans'] = [t for t in spec['trans'] if t.get('M') is None]
    return spec


def ref_path(spec, mi, x, steps, urgent, strong=False, margin=1e-7):
    """the line one simulation segment must draw and its successor (mode, point, steps) or None; strong: guards
    without reset include the invariant of the target (what guard strengthening documents)"""
    E, _ = ref.flow_matrices(spec['modes'][mi]['A'], None, spec['step'])
    line = [(np.array(x), steps)]
    tries = urgent

    def holds(rows, rhs, p):
        ok = True
        for row, r in zip(rows, rhs):
            v = float(np.dot(row, p)) - r
            if abs(v) < margin * (1 + abs(r)):
                raise Skip('boundary')
            ok = ok and v <= 0
        return ok
    while True:
        if steps == spec['num_steps']:
            return line, None
        if tries:
            for t in spec['trans']:
                if t['src'] == mi and holds(t['G'], t['g'], x):
                    if strong and t.get('R') is None and t['dst'] != mi:
                        ti = spec['modes'][t['dst']].get('inv') or []
                        if not holds([r for r, _ in ti], [b for _, b in ti], x):
                            continue
                    y = x if t.get('R') is None else np.array(t['R'], dtype=float) @ x
                    err = spec['modes'][t['dst']]['A'] is None
                    line.append((y, steps))
                    return line, (None if err else (t['dst'], y, steps))
        inv = spec['modes'][mi].get('inv') or []
        if not holds([r for r, _ in inv], [b for _, b in inv], x):
            return line, None
        tries = True
        x = E @ x
        steps += 1
        line.append((x, steps))


def same_line(pts, tim, line, h, cur):
    if len(line) != len(pts):
        return 'simulated segment in mode %d from step %d has %d points, execution has %d' % (
            cur[0], cur[2], len(pts), len(line))
    for j, (x, stp) in enumerate(line):
        # coordinates beyond the mode's dimension show variable 0
        if abs(tim[j] - stp * h) > 1e-9 or np.max(np.abs(pts[j][:len(x)] - x)) > 1e-6 * (1 + np.max(np.abs(x))):
            return 'simulated point %d of a segment in mode %d is %s at time %g, execution gives %s at %g' % (
                j, cur[0], pts[j].tolist(), tim[j], x.tolist(), stp * h)
    return None


def s13_touch(rng, ctx):
    """simulations which exactly touch guards and invariants (both include their boundary)"""
    nm = int(rng.integers(2, 4))
    n = int(rng.integers(1, 3))
    q = lambda lo, hi: float(rng.integers(lo, hi + 1)) / 8.  # noqa: exact in binary
    start = [q(-8, 8) for _ in range(n)]
    modes = []
    for i in range(nm):
        m = dict(name='m%d' % i, A=np.zeros((n, n)).tolist(), B=None, U=None, u=None, inv=[])
        modes.append(m)
    err = rng.random() < .3
    if err:
        modes.append(dict(name='err', A=None, B=None, U=None, u=None, inv=[]))
    spec = dict(modes=modes, trans=[], step=.5, num_steps=int(rng.integers(2, 7)),
                init=[dict(mode=0, kind='box', box=[[v, v] for v in start])], settings=dict(
                    process_urgent_guards=bool(rng.random() < .3), do_guard_strengthening=bool(rng.random() < .5),
                    skip_zero_dynamics_modes=bool(rng.random() < .5)))

    def row_at(x, dist):
        """a condition whose boundary is dist away from x (positive: x satisfies it)"""
        row = [float(rng.integers(-2, 3)) for _ in range(n)]
        if not any(row):
            row[0] = 1.
        return row, float(np.dot(row, x)) + dist
    x = np.array(start)
    touched = 0
    urgent = spec['settings']['process_urgent_guards']
    for i in range(nm):
        inside = x + rng.integers(-2, 3, size=n) / 8. * (rng.random() < .2)  # the invariant is not empty
        for _ in range(int(rng.integers(0, 3))):
            d = float(rng.choice([0., 0., .125, -.125 if rng.random() < .2 else .125]))
            r, b = row_at(x, d)
            if np.dot(r, inside) > b:
                r, b = [-v for v in r], -b
            modes[i]['inv'].append((r, b))
            touched += d == 0
        for _ in range(int(rng.integers(1, 3))):
            dst = int(rng.integers(i + 1 if urgent else 0, len(modes) + (1 if urgent else 0)))
            if dst == len(modes):
                continue
            G, g = [], []
            inside = x + rng.integers(-2, 3, size=n) / 8. * (rng.random() < .4)  # the guard is not empty
            for _ in range(int(rng.integers(1, 3))):
                d = float(rng.choice([0., 0., 0., .125, -.125]))
                r, b = row_at(x, d)
                if np.dot(r, inside) > b:
                    r, b = [-v for v in r], -b
                G.append(r)
                g.append(b)
                touched += d == 0
            t = dict(src=i, dst=dst, G=G, g=g)
            if rng.random() < .5 and modes[dst]['A'] is not None:
                t['R'] = [[float(rng.choice([0., .5, 1., 1., -1.])) for _ in range(n)] for _ in range(n)]
            spec['trans'].append(t)
        first = [t for t in spec['trans'] if t['src'] == i]
        if first and first[-1].get('R') is not None:
            x = np.array(first[-1]['R']) @ x
    ctx.event('touching', int(touched > 0))
    s13_case(rng, ctx, spec, 0.)


def s13_models(rng, ctx):
    s13_case(rng, ctx, models.near_spec(rng, (6, 16), inputs=False))
    ctx.event('models')


def s13_case(rng, ctx, spec=None, margin=1e-7):
    from hylaa.settings import PlotSettings
    given = spec is not None
    spec = spec or sim_spec(rng)
    ctx.spec = spec
    if rng.random() < .5 and spec['init'][0]['mode'] != 0 and not given:
        raise Skip('start mode')
    mi = spec['init'][0]['mode']
    box = spec['init'][0]['box']
    urgent = spec['settings'].get('process_urgent_guards', False)
    num = int(rng.integers(1, 7))
    lo = int(rng.integers(0, num)) if rng.random() < .3 else 0
    agg = str(rng.choice(['un', 'box', 'arnoldi']))
    maxd = max(len(m['A']) for m in spec['modes'] if m['A'] is not None)
    seed = int(rng.integers(0, 1000))
    draw = rng.random() < .06
    mode = PlotSettings.PLOT_IMAGE
    if rng.random() < .2:
        mode = int(rng.choice([PlotSettings.PLOT_LIVE, PlotSettings.PLOT_INTERACTIVE, PlotSettings.PLOT_VIDEO]))
        ctx.event('windows')
    avoid = rng.random() < .3 and agg != 'un'
    swap = [bool(rng.random() < .4) for _ in range(maxd)]
    d = scratch()
    try:
        runs = []
        for arg in ((lo, num), num) if lo else (num,):
            with hyl.quiet(), showing(mode, draw, rng) as pictures:
                ha, modes = hyl.build_ha(spec)
                st = hyl.make_settings(spec, {'agg': agg, 'random_seed': seed})
                if avoid:
                    st.aggstrat.sim_avoid_modes = [modes[0].name]
                st.plot.plot_mode = mode
                if mode == PlotSettings.PLOT_VIDEO:
                    pictures.video(st.plot)
                st.plot.filename = os.path.join(d, 'p.png')
                st.plot.plot_size = (3, 3)
                xd, yd = [], []
                for i in range(maxd):
                    p = {m.name: (i if len(s['A']) > i else 0) for m, s in zip(modes, spec['modes']) if s['A'] is not None}
                    if rng.random() < .5 and all(len(s['A']) > i for s in spec['modes'] if s['A'] is not None):
                        p = i
                    xd.append(None if swap[i] else p)
                    yd.append(p if swap[i] else None)
                st.plot.xdim_dir, st.plot.ydim_dir = xd, yd
                st.plot.label = [st.plot.label if not isinstance(st.plot.label, list) else st.plot.label[0]
                                 for _ in range(maxd)]
                core = hyl.new_core(ha, st)
                core.max_steps = 800
                box_t = [tuple(b) for b in box]
                runs.append((arg, core.simulate(modes[mi], box_t, list(arg) if isinstance(arg, tuple) else arg), pictures.shots))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    h = spec['step']
    starts = []
    for arg, res, shots in runs:
        want = num - lo if isinstance(arg, tuple) else num
        lines = res.sim_lines
        if lines is None or len(lines) != maxd:
            ctx.violation('simulation lines missing: %s plots recorded, %d drawn' % (None if lines is None else len(lines), maxd))
            return
        if not check_drawn_lines(ctx, shots, lines):
            return
        lines = [[[[pt[::-1] for pt in line] for line in grp] for grp in plot] if swap[p] else plot for p, plot in enumerate(lines)]
        pending = None
        total_pts = 0
        first = []
        for si in range(len(lines[0])):
            if any(len(lines[p][si]) != len(lines[0][si]) for p in range(maxd)):
                ctx.violation('plots recorded different numbers of simulations')
                return
            seg_mode = None
            for s in range(len(lines[0][si])):
                per = [lines[p][si][s] for p in range(maxd)]
                if any(len(q) != len(per[0]) for q in per) or not per[0]:
                    ctx.violation('plots recorded different numbers of points')
                    return
                pts = np.array([[q[j][0] for q in per] for j in range(len(per[0]))], dtype=float)
                tim = np.array([per[0][j][1] for j in range(len(per[0]))], dtype=float)
                if si == 0:
                    n = len(box)
                    x0 = pts[0][:n]
                    if any(not (b[0] - 1e-12 <= v <= b[1] + 1e-12) for v, b in zip(x0, box)) or abs(tim[0]) > 1e-12:
                        ctx.violation('simulation starts at %s, time %g: not in the given box at time 0' % (x0.tolist(), tim[0]))
                        return
                    cur = (mi, x0, 0)
                    pending = pending or []
                    first.append(x0.tolist())
                else:
                    hit = None
                    for q, (pm, px, ps) in enumerate(pending):
                        n = len(px)
                        if seg_mode in (None, pm) and np.max(np.abs(pts[0][:n] - px)) < 1e-6 * (1 + np.max(np.abs(px))) \
                                and abs(tim[0] - ps * h) < 1e-9:
                            hit = q
                            break
                    if hit is None:
                        ctx.violation('a simulated segment starts at %s, time %g: no switch leads there' % (pts[0].tolist(), tim[0]))
                        return
                    cur = pending.pop(hit)
                seg_mode = cur[0]
                why, fits = None, []
                for strong in ((True, False) if spec['settings'].get('do_guard_strengthening', True) else (False,)):
                    line, nxt = ref_path(spec, *cur, urgent, strong, margin)
                    bad = same_line(pts, tim, line, h, cur)
                    if bad is None:
                        fits.append((line, nxt))
                    why = why or bad
                if not fits:
                    ctx.violation(why)
                    return
                line, nxt = fits[0]
                if any((q is None) != (nxt is None) or (q is not None and q[0] != nxt[0]) for _, q in fits):
                    raise Skip('two readings of the guards')
                total_pts += len(line)
                if nxt is not None:
                    pending.append(nxt)
                    ctx.event('switches')
        if len(first) != want:
            ctx.violation('%d simulations run, %d requested' % (len(first), want))
        if pending:
            ctx.violation('%d simulations lost after a switch' % len(pending))
        ctx.event('points_checked', total_pts)
        ctx.event('segments', sum(len(q) for q in lines[0]))
        starts.append(first)
    if lo and starts[0] != starts[1][lo:]:
        ctx.violation('simulations %d..%d differ from the same ones of a complete run' % (lo, num))
    if num > 1 and len(starts[-1]) > 1:
        flat = all(b[0] == b[1] for b in box)
        if not flat and len({tuple(s) for s in starts[-1]}) != len(starts[-1]):
            ctx.violation('simulations repeat the same start point')
    ctx.nontrivial(spec['trans'], box, num)
    ctx.sample({'spec': spec, 'num_sims': num})


# ------------------------------------------------------------------------------------------- S20
def s20_replay(rng, ctx):
    from hylaa.result import replay_counterexample
    args = dict(VKW)
    args.update(p_inputs=0., p_mink=0., modes=(1, 3), n_init=(1, 2))
    spec, ex, node, k = tight_spec(rng, True, **args)
    ctx.spec = spec
    if not ex.errors:
        raise Skip('aimed guard not reached')
    spec['trans'][[i for i, t in enumerate(spec['trans']) if t['name'] == 'tobad'][0]]['R'] = \
        (rng.normal(size=(len(spec['modes'][node.mode]['A']),) * 2).round(2)).tolist() if rng.random() < .3 else None
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, {'agg': 'un'})
        res = hyl.new_core(ha, settings).run(init)
    segs = res.counterexample
    if not segs or check_ce(spec, segs, modes, ha.transitions, spec['settings'].get('process_urgent_guards', False), 1e-6):
        raise Skip('no usable counter-example')
    if tt_rows(spec):
        raise Skip('guard tolerance')
    for s in segs:
        m = spec['modes'][modes.index(s.mode)]
        t = spec['trans'][ha.transitions.index(s.outgoing_transition)]
        # the checker compares with 1e-7: leave traces on the edge alone
        if violates(t['G'], t['g'], np.array(s.end), 2e-8):
            raise Skip('edge')
        E, _ = ref.flow_matrices(m['A'], None, spec['step'])
        x = np.array(s.start)
        for _ in range(s.steps):
            if violates([r for r, _ in m['inv']], [b for _, b in m['inv']], x, 2e-8):
                raise Skip('edge')
            x = E @ x
    try:
        pts, times = replay_counterexample(segs, ha, settings)
    except AssertionError as e:
        ctx.violation('valid counter-example rejected by the replay: %s' % e)
        return
    ctx.event('replayed')
    ctx.nontrivial(spec['trans'], [(s.mode.name, s.steps) for s in segs])
    ctx.sample({'segments': [[s.mode.name, int(s.steps), list(map(float, s.start))] for s in segs]})
    want, wt = [], []
    t0 = 0
    for i, s in enumerate(segs):
        m = spec['modes'][modes.index(s.mode)]
        x = np.array(s.start, dtype=float)
        E, _ = ref.flow_matrices(m['A'], None, spec['step'])
        for j in range(s.steps + 1):
            want.append(x)
            wt.append((t0 + j) * spec['step'])
            x = E @ x
        t0 += s.steps
    t = spec['trans'][ha.transitions.index(segs[-1].outgoing_transition)]
    if t.get('R') is not None:
        want.append(np.array(t['R']) @ want[-1])
        wt.append(wt[-1])
    if len(pts) != len(want) or len(times) != len(want):
        ctx.violation('replay returned %d points / %d times, the execution has %d' % (len(pts), len(times), len(want)))
        return
    for j, (p, q) in enumerate(zip(pts, want)):
        if len(p) != len(q) or np.max(np.abs(np.array(p) - q)) > 1e-5 * (1 + np.max(np.abs(q))) or abs(times[j] - wt[j]) > 1e-9:
            ctx.violation('replayed point %d is %s at %g, execution gives %s at %g' % (
                j, np.array(p).tolist(), times[j], q.tolist(), wt[j]))
            return
    # altered traces must be refused
    for what in ('end', 'start', 'steps', 'guard'):
        i = int(rng.integers(len(segs)))
        bad = [copy.copy(s) for s in segs]
        s = bad[i]
        m = spec['modes'][modes.index(s.mode)]
        E, _ = ref.flow_matrices(m['A'], None, spec['step'])
        if what == 'end':
            e = np.array(s.end, dtype=float)
            e[rng.integers(len(e))] += .05 * (1 + np.max(np.abs(e)))
            s.end = e.tolist()
        elif what == 'start':
            e = np.array(s.start, dtype=float)
            q = e.copy()
            q[rng.integers(len(q))] += .05 * (1 + np.max(np.abs(q)))
            if np.max(np.abs(np.linalg.matrix_power(E, s.steps) @ (e - q))) < 1e-2 * (1 + np.max(np.abs(s.end))):
                continue
            s.start = q.tolist()
        elif what == 'steps':
            s.steps = s.steps + 1
            if np.max(np.abs(E @ np.array(s.end) - np.array(s.end))) < 1e-2 * (1 + np.max(np.abs(s.end))):
                continue
        else:
            # consistent trajectory, but the guard of the outgoing transition is not reached
            t = spec['trans'][ha.transitions.index(s.outgoing_transition)]
            if not t['g'] or s.steps == 0:
                continue
            inv = m['inv']
            x = np.array(s.end, dtype=float)
            g = np.array(t['G'][0], dtype=float)
            y = x + g / (g @ g) * (t['g'][0] - g @ x + .05)
            x0 = np.linalg.solve(np.linalg.matrix_power(E, s.steps), y)
            s.start, s.end = x0.tolist(), y.tolist()
            del inv
        try:
            with hyl.quiet():
                replay_counterexample(bad, ha, settings)
        except AssertionError:
            ctx.event('altered_refused')
            continue
        ctx.violation('replay accepts a counter-example whose %s was altered' % what)


def s20_check(rng, ctx):
    from hylaa import check_trace
    n = int(rng.integers(1, 5))
    A, kind = gen.rand_A(rng, n)
    m = int(rng.integers(1, 3))
    B = rng.normal(size=(n, m)) if rng.random() < .7 else None
    h = float(rng.choice([.1, .05, .25]))
    N = int(rng.integers(1, 12))
    x0 = rng.normal(size=n)
    U = [(rng.normal(size=m)).tolist() for _ in range(N)]
    style = rng.random()
    if style < .4:
        for i in range(1, N):
            if rng.random() < .6:
                U[i] = list(U[i - 1])
    elif style < .7: # inputs which change a little at each step
        rel = float(rng.choice([1e-1, 1e-2, 3e-3, 1e-3]))
        same = rng.random() < .5
        for i in range(1, N):
            f = rel if same else rel * rng.uniform(-1, 1, m)
            U[i] = (np.array(U[i - 1]) * (1 + f)).tolist()
    E, G = ref.flow_matrices(A, B, h)
    xs = [x0]
    for i in range(N):
        xs.append(E @ xs[-1] + (0 if B is None else G @ np.array(U[i])))
    if max(np.max(np.abs(x)) for x in xs) > 1e3:
        raise Skip('magnitude')
    nv = rng.normal(size=n)
    true = float(nv @ xs[-1])
    off = float(rng.choice([0, 0, 1., -.3]))
    samples = int(rng.choice([1, N, 3 * N, 100]))
    quick = bool(rng.random() < .3)
    bound = h * N if rng.random() < .5 else round(h * N, 6)
    with hyl.quiet() as buf:
        states, times, data = check_trace.check(
            A.copy(), None if B is None else B.copy(), h, bound, np.array(x0), None if B is None else [list(u) for u in U],
            nv.copy(), true + off, quick=quick, stdout=bool(rng.random() < .3), approx_samples=samples)
    del buf
    ctx.event('traces_checked')
    ctx.nontrivial(kind, n, m, N, B is None, samples, off)
    ctx.sample({'A': A.tolist(), 'step': h, 'steps': N, 'offset': off})
    tol = (1e-4 if quick else 1e-6) * (1 + max(np.max(np.abs(x)) for x in xs)) * (1 + np.abs(nv).sum())
    if abs(data.abs_error - abs(off)) > tol:
        ctx.violation('trace checker reports an end difference of %g, it is %g' % (data.abs_error, abs(off)))
    if abs(data.rel_error * abs(true) - data.abs_error) > tol * 10 and abs(true) > 1e-3:
        ctx.violation('relative difference %g does not fit absolute %g of %g' % (data.rel_error, data.abs_error, true))
    if len(states) != len(times):
        ctx.violation('states and times differ in length')
        return
    if abs(times[0]) > 1e-12 or abs(times[-1] - h * N) > 1e-9 or np.any(np.diff(times) <= 0):
        ctx.violation('sample times do not run from 0 to %g: %s' % (h * N, list(times)[:20]))
        return
    for j, x in enumerate(xs):
        i = int(np.argmin(np.abs(np.array(times) - j * h)))
        if abs(times[i] - j * h) > 1e-9:
            ctx.violation('no sample at step %d' % j)
            return
        if np.max(np.abs(np.array(states[i]) - x)) > tol:
            ctx.violation('sample at step %d is %s, execution gives %s' % (j, np.array(states[i]).tolist(), x.tolist()))
            return


def s20_chart(rng, ctx):
    """the picture of a trace: what it says about the end point, and what it draws"""
    import io
    import contextlib
    import warnings
    from matplotlib import pyplot as plt
    from hylaa import check_trace
    n, N = int(rng.integers(1, 13)), int(rng.integers(1, 13))
    h = float(rng.choice([.1, .05, .25, .2, .3, 1.]))
    m = int(rng.integers(0, 3))
    per = int(rng.integers(1, 6))
    states = [x for x in np.cumsum(rng.normal(size=(N * per + 1, n)), axis=0)]
    times = [i * h / per for i in range(N * per + 1)]
    U = rng.normal(size=(N, m)).round(3).tolist() if m else None
    nv = rng.normal(size=n).round(3)
    if rng.random() < .4:
        nv = np.eye(n)[int(rng.integers(n))] * rng.choice([-1., 1.])
    end = float(nv @ states[-1])
    off = float(rng.choice([-1., 1.])) * float(rng.choice([1e-4, .01, .5, 3.]))
    dims = [int(rng.integers(n)), int(rng.integers(n))] if rng.random() < .5 else [None, None]
    bound = h * N if rng.random() < .5 else round(h * N, 6)
    kw = dict(zip(('xdim', 'ydim'), dims)) if dims[0] is not None or rng.random() < .5 else {}
    given = ([s.copy() for s in states], list(times), None if U is None else [list(u) for u in U], nv.copy())
    before = str(given)
    plt.close('all')
    text = io.StringIO()
    with contextlib.redirect_stdout(text), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        check_trace.plot(*given, end + off, bound, h, **kw)
    axes = plt.gcf().axes
    lines = [[np.array(l.get_xydata(), dtype=float) for l in a.get_lines()] for a in axes]
    plt.close('all')
    ctx.event('charts')
    ctx.nontrivial(n, N, m, per, dims, off)
    ctx.sample({'dims': n, 'steps': N, 'inputs': m, 'offset': off, 'axes': dims})
    if before != str(given):
        ctx.violation('the checker changed the trace it was given to draw')
    said = [l for l in text.getvalue().splitlines() if 'violation' in l.lower()]
    if len(said) != 1 or ('NOT a violation' in said[0]) != (off < 0):
        ctx.violation('end value %g, violation up to %g: the checker says %s' % (end, end + off, said))
    if len(axes) != 1 + bool(m):
        ctx.violation('%d axes drawn' % len(axes))
        return
    pts = np.array(states)
    want = pts[:, dims] if dims[0] is not None else np.column_stack([times, pts @ nv])
    if not any(q.shape == want.shape and np.allclose(q, want, atol=1e-9, rtol=1e-9) for q in lines[0]):
        ctx.violation('the trace is not drawn: %s' % [q.tolist()[:5] for q in lines[0]])
    if not any(q.shape == (1, 2) and np.allclose(q[0], want[-1], atol=1e-9, rtol=1e-9) for q in lines[0]):
        ctx.violation('the end point is not marked: %s' % [q.tolist()[:5] for q in lines[0]])
    if dims[0] is None and not any(len(q) > 1 and np.allclose(q[:, 1], end + off, atol=1e-9) and
                                   abs(min(q[:, 0])) < 1e-9 and abs(max(q[:, 0]) - h * N) < 1e-9 for q in lines[0]):
        ctx.violation('the bound of the violation is not drawn')
    for j in range(m):
        line = [q for q in lines[1]][j] if len(lines[1]) == m else np.zeros((0, 2))
        for i in range(N):
            mid = (i + .5) * h
            at = [k for k in range(len(line) - 1) if line[k, 0] < mid < line[k + 1, 0]]
            ctx.event('drawn_inputs')
            if len(at) != 1 or any(abs(line[k, 1] - U[i][j]) > 1e-9 for k in (at[0], at[0] + 1)):
                ctx.violation('input %d of step %d of %d is %g, drawn: %s' % (j, i, N, U[i][j], [line[k:k + 2].tolist() for k in at]))
                return


def s20_hist(rng, ctx):
    """counter-examples of runs with inputs against the trace checker"""
    from hylaa import check_trace
    args = dict(VKW)
    args.update(p_inputs=1., modes=(1, 1), n_init=(1, 1), p_zero=0., p_tt=0.)
    spec, ex, node, k = tight_spec(rng, True, **args)
    ctx.spec = spec
    if not ex.errors:
        raise Skip('aimed guard not reached')
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, {'agg': 'un'})
        res = hyl.new_core(ha, settings).run(init)
    segs = res.counterexample
    if not segs or len(segs) != 1 or not segs[0].inputs:
        raise Skip('no usable counter-example')
    s = segs[0]
    m = spec['modes'][0]
    nv = rng.normal(size=len(s.start))
    with hyl.quiet():
        states, times, data = check_trace.check(np.array(m['A']), np.array(m['B']), spec['step'], spec['step'] * s.steps,
                                                np.array(s.start), [list(u) for u in s.inputs], nv, float(nv @ np.array(s.end)),
                                                stdout=False, approx_samples=int(rng.choice([1, 50])))
    ctx.event('analysis_traces')
    ctx.nontrivial(spec['modes'][0], s.steps)
    if data.abs_error > 1e-4 * (1 + np.max(np.abs(s.end))) * (1 + np.abs(nv).sum()):
        ctx.violation('trace checker disagrees by %g with a counter-example of the analysis' % data.abs_error)
