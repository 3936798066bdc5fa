"""Plotted polygons (S12) and stored plot data (S22).  Oracle: exact projections by support values."""
import contextlib
import io
import math
import os
import re
import tempfile
import numpy as np
from . import gen, ref, hyl
from .ctx import Skip
from .p_lp import view_rset
from .p_reach import explore, rand_strat, tight_spec, tt_relaxed, sup_table, match, shape_sig
from .ref import RSet
from hylaa import lpplot, lputil, kamenev
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.settings import PlotSettings, LabelSettings

ANGLES = np.linspace(0, 2 * math.pi, 40, endpoint=False)
VECS = [np.array([math.cos(a), math.sin(a)]) for a in ANGLES] + [np.array([1., 0]), np.array([-1., 0]), np.array([0, 1.]), np.array([0, -1.])]


def ax_vec(ax, n):
    """axis choice -> direction, None for time"""
    if ax is None:
        return None
    if isinstance(ax, (int, np.integer)):
        e = np.zeros(n)
        e[ax] = 1.
        return e
    return np.asarray(ax, dtype=float)


def proj_sup(s, xv, yv, t, d):
    """support of the projection in direction d; t = (tmin, tmax)"""
    v = np.zeros(s.dims)
    add = 0.
    for c, a in zip(d, (xv, yv)):
        if a is not None:
            v = v + c * a
    tc = sum(c for c, a in zip(d, (xv, yv)) if a is None)
    add = max(tc * t[0], tc * t[1])
    return (s.sup(v) if np.any(v) else 0.) + add


def widths(s, xv, yv):
    return [None if a is None else s.sup(a) + s.sup(-a) for a in (xv, yv)]


def resolution(s, xv, yv):
    """accuracy of two-dimensional plots: facets are refined to a thousandth of the smaller extent, which at the sharp
    corners of a thin set amounts to a thousandth of the larger one"""
    w = widths(s, xv, yv)
    if None in w:
        return 0.
    return 2 * max(max(w), 1e-5) / 1000.


def compare_poly(s, verts, xv, yv, t, exact=True, vecs=None):
    """difference between the polygon and the projection of s, None if there is none"""
    pts = np.array([[float(p[0]), float(p[1])] for p in verts])
    res = resolution(s, xv, yv)
    if not exact and res:  # the polygon of a larger set
        res = max(res, 2 * float(np.max(np.ptp(pts, axis=0))) / 1000.)
    for d in (vecs or VECS):
        want = proj_sup(s, xv, yv, t, d)
        got = float(np.max(pts @ d))
        scale = 1 + np.max(np.abs(pts)) + abs(want)
        if got < want - 1.2 * res - 2.5e-5 * scale:
            return 'the polygon reaches %.7g in plot direction %s, the set %.7g (resolution %.2g)' % (got, np.round(d, 3).tolist(), want, res)
        if exact and got > want + 1e-5 * scale:
            return 'the polygon reaches %.7g in plot direction %s, beyond the set: %.7g' % (got, np.round(d, 3).tolist(), want)
    return None


def shape_problem(verts):
    """closed, convex position in order (no crossing edges)"""
    pts = np.array([[float(p[0]), float(p[1])] for p in verts])
    if not np.array_equal(pts[0], pts[-1]):
        return 'polygon is not closed'
    pts = pts[:-1]
    if len(pts) < 3:
        return None
    x, y = pts[:, 0], pts[:, 1]
    area = abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1))) / 2
    c = pts.mean(axis=0)
    q = pts[np.argsort(np.arctan2(pts[:, 1] - c[1], pts[:, 0] - c[0]))]
    x, y = q[:, 0], q[:, 1]
    full = abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1))) / 2
    if area < full * (1 - 1e-6) - 1e-10 * (1 + np.max(np.abs(pts))) ** 2:
        return 'the vertices are not in boundary order (area %.6g, should be %.6g)' % (area, full)
    return None


# ------------------------------------------------------------------------------------------ S12
def rand_real_set(rng, n):
    """a real LpInstance: boxes, polytopes, zonotopes, mapped (also onto flat sets), with inputs"""
    ha = HybridAutomaton()
    mode = ha.new_mode('m')
    A = gen.rand_A(rng, n)[0]
    mode.set_dynamics(np.array(A))
    ins = rng.random() < .3
    if ins:
        B, C, r = gen.rand_inputs(rng, n)
        mode.set_inputs(hyl.farr(B), hyl.farr(C), hyl.farr(r), allow_constants=True)
    p = rng.random()
    mag = float(rng.choice([1., 1., 10., 100.]))
    wid = float(rng.choice([1e-4, 1e-2, .3, 1., 5.]))
    c = np.round(rng.uniform(-mag, mag, size=n), 3)
    if p < .45:
        w = np.where(rng.random(n) < .25, 0., wid * rng.uniform(.1, 1., size=n))
        lpi = lputil.from_box([(a - b, a + b) for a, b in zip(c, w)], mode)
    elif p < .7:
        C = [r for r in np.vstack([np.eye(n), -np.eye(n)])]
        rr = list(c + wid) + list(wid - c)
        for _ in range(int(rng.integers(1, 6))):
            d = rng.normal(size=n)
            d /= np.linalg.norm(d)
            C.append(d)
            rr.append(d @ c + wid * rng.uniform(.1, .9))
        lpi = lputil.from_constraints(np.array(C), np.array(rr), mode)
    else:
        lpi = lputil.from_zonotope(c.tolist(), [(rng.normal(size=n) * wid).tolist() for _ in range(int(rng.integers(1, 6)))], mode)
    kind = 'plain'
    if rng.random() < .5:
        M = rng.normal(size=(n, n))
        q = rng.random()
        if q < .25:
            M[rng.integers(n)] = 0
            kind = 'singular'
        elif q < .4 and n > 1:
            M[0] = M[-1]
            kind = 'singular'
        else:
            kind = 'mapped'
        lputil.set_basis_matrix(lpi, M)
    if ins and rng.random() < .7:
        for _ in range(int(rng.integers(1, 4))):
            lputil.add_input_effects_matrix(lpi, rng.normal(size=(n, mode.b_csr.shape[1])) * .3, mode)
        kind += '+inputs'
    # what an analysis does to a set: optimisations in between, conditions cutting it
    s = view_rset(lpi)
    for _ in range(int(rng.integers(0, 4))):
        d = gen.rand_dir(rng, n)
        p = rng.random()
        if p < .4:
            lpi.minimize(direction_vec=list(d))
        elif p < .7:
            lo, hi = -s.sup(-d), s.sup(d)
            if hi - lo > 1e-3:
                lputil.add_init_constraint(lpi, d, lo + (hi - lo) * rng.uniform(.3, 1.))
                lpi.is_feasible()
                s = view_rset(lpi)
                kind += '+cut' if '+cut' not in kind else ''
                if not np.isfinite(s.sup(d)) or s.slack() < -1e-9:
                    raise Skip('cut empty')
        else:
            lpi.is_feasible()
    return lpi, kind


def rand_axis(rng, n, time=.2, other=None):
    p = rng.random()
    if p < time:
        return None
    if p < time + .4:
        return int(rng.integers(n))
    if other is not None and p < time + .5:
        o = ax_vec(other, n)
        return -2. * o if rng.random() < .5 else o.copy()
    d = rng.integers(-2, 3, size=n).astype(float) if rng.random() < .4 else np.round(rng.normal(size=n), 2)
    if not np.any(d):
        d[0] = 1.
    return d


def rand_time(rng):
    p = rng.random()
    t = float(np.round(rng.uniform(0, 5), 3))
    if p < .3:
        return t, (t, t)
    if p < .45:
        return int(t), (float(int(t)), float(int(t)))
    if p < .6:
        return (t, t), (t, t)
    if p < .8:
        return [t, t + .5], (t, t + .5)
    return (t, t + 2.25), (t, t + 2.25)


def s12_verts(rng, ctx):
    n = int(rng.integers(1, 5))
    with hyl.quiet():
        lpi, kind = rand_real_set(rng, n)
        s = view_rset(lpi)
        for _ in range(3):
            xd = rand_axis(rng, n)
            yd = rand_axis(rng, n, other=xd)
            arg, t = rand_time(rng)
            if xd is None and yd is None:
                arg, t = t[0], (t[0], t[0])  # nothing but time: plots refuse it, only single times mean something
            vecs = None if rng.random() < .5 else lpplot.make_plot_vecs(int(rng.choice([3, 4, 7, 64, 512])))
            xb, yb = (None if a is None else np.array(a) for a in (xd, yd))
            verts = lpplot.get_verts(lpi, xdim=xd, ydim=yd, plot_vecs=vecs, cur_time=arg)
            for a, b in ((xd, xb), (yd, yb)):
                if a is not None and not np.array_equal(a, b):
                    ctx.violation('the plot direction passed in was changed')
            xv, yv = ax_vec(xd, n), ax_vec(yd, n)
            ctx.event('polygons')
            ctx.event('time_axis', int(xd is None or yd is None))
            ctx.event('direction_axis', int(isinstance(xd, np.ndarray) or isinstance(yd, np.ndarray)))
            ctx.event('points_or_segments', int(len(verts) <= 3))
            ctx.nontrivial(kind, str(xd), str(yd), t, len(verts))
            ctx.sample({'kind': kind, 'x': xd, 'y': yd, 'time': t, 'vertices': len(verts)})
            what = 'axes (%s, %s), time %s, %s set: ' % (xd, yd, t, kind)
            bad = shape_problem(verts) or compare_poly(s, verts, xv, yv, t)
            if bad:
                ctx.violation(what + bad)
                return
            if xd is not None and yd is not None:
                pr = s.linmap(np.vstack([xv, yv]))
                for v in verts[:12]:
                    tol = 1e-6 * (1 + abs(v[0]) + abs(v[1]))
                    ctx.event('vertices')
                    if not pr.contains(np.array(v, dtype=float), tol):
                        ctx.violation(what + 'vertex %s is not in the projection' % (list(v),))
                        return
            else:
                for v in verts:
                    for c, a in zip(v, (xv, yv)):
                        if a is None and min(abs(c - t[0]), abs(c - t[1])) > 1e-9:
                            ctx.violation(what + 'vertex %s is at another time' % (list(v),))
                            return
            # a second look at the same set gives the same polygon, the LP itself is unchanged
            if rng.random() < .3:
                verts2 = lpplot.get_verts(lpi, xdim=xd, ydim=yd, plot_vecs=vecs, cur_time=arg)
                if compare_poly(s, verts2, xv, yv, t):
                    ctx.violation(what + 'a second polygon of the same set differs')


def s12_boundary(rng, ctx):
    """the direct boundary search over given plot directions"""
    n = int(rng.integers(1, 5))
    with hyl.quiet():
        lpi, kind = rand_real_set(rng, n)
        s = view_rset(lpi)
        xd = rand_axis(rng, n, time=.15)
        yd = rand_axis(rng, n, time=0. if xd is None else .15)
        vecs = lpplot.make_plot_vecs(int(rng.choice([3, 4, 5, 16, 100])), offset=float(rng.choice([0., .1])))
        xv, yv = ax_vec(xd, n), ax_vec(yd, n)
        # _minimize takes columns by the number of entries of a direction, indices select the leading ones
        bw = [1. if w is None else max(w, 1e-5) for w in widths(s, xv, yv)]
        if rng.random() < .5:
            bw = [1., 1.]
        pts = lpplot.find_boundary_pts(lpi, xd, yd, vecs, bw)
    ctx.event('boundaries')
    ctx.nontrivial(kind, str(xd), str(yd), len(vecs), len(pts))
    for v in vecs:
        d = np.zeros(n)
        for c, a, b in zip(v, (xv, yv), bw):
            if a is not None:
                d = d + c * a / b
        want = -s.sup(-d) if np.any(d) else 0.
        got = min(sum(c * q / b for c, q, a, b in zip(v, p, (xv, yv), bw) if a is not None) for p in pts)
        scale = 1 + abs(want) + max(np.max(np.abs(np.array(p) / np.array(bw))) for p in pts)
        ctx.event('directions')
        if got > want + 5e-5 * scale or got < want - 1e-6 * scale:
            ctx.violation('boundary points along %s reach %.8g, the set %.8g (axes %s, %s, %d directions, %s set)' % (
                np.round(v, 3).tolist(), got, want, xd, yd, len(vecs), kind))
            return


def s12_kamenev(rng, ctx):
    """the support-function hull on its own, in two and three dimensions, degenerate sets included in two"""
    n = int(rng.choice([2, 2, 3]))
    k = int(rng.integers(1, 9))
    c = rng.uniform(-3, 3, size=n)
    pts = c + rng.normal(size=(k, n)) * rng.choice([.01, 1., 3.], size=n)
    if n == 2 and rng.random() < .3:
        d = rng.normal(size=2) if rng.random() < .4 else np.eye(2)[rng.integers(2)]
        pts = c + np.outer(rng.normal(size=k), d)
    if n == 3:
        pts = np.vstack([pts, c + np.eye(3), c - np.eye(3)[:2]])
    eps = float(rng.choice([1e-2, 1e-4, 1e-7]))
    asked = [0]

    def supp(v):
        asked[0] += 1
        assert asked[0] < 3000
        val = pts @ np.asarray(v)
        ties = np.flatnonzero(val >= val.max() - 1e-12 * (1 + abs(val.max())))
        if len(ties) == 1:
            return pts[ties[0]].copy()
        lam = rng.dirichlet(np.ones(len(ties)))  # any supporting point will do
        return lam @ pts[ties]
    with hyl.quiet():
        verts = np.array(kamenev.get_verts(n, supp, epsilon=eps))
    ctx.event('hulls')
    ctx.nontrivial(n, k, eps, len(verts))
    inside = RSet(pts.T, np.zeros(n), np.vstack([-np.eye(len(pts)), np.ones((1, len(pts))), -np.ones((1, len(pts)))]),
                  np.concatenate([np.zeros(len(pts)), [1., -1.]]), np.zeros(len(pts) + 2, dtype=bool))
    for v in verts[:20]:
        if not inside.contains(v, 1e-8 * (1 + np.max(np.abs(pts)))):
            ctx.violation('vertex %s is not in the set' % v.tolist())
            return
    dirs = VECS if n == 2 else [d / np.linalg.norm(d) for d in rng.normal(size=(60, 3))]
    if n == 2:
        # accuracy is promised across the edges; along them a sharp tip may be cut further in
        q = verts[np.argsort(np.arctan2(*(verts - verts.mean(0)).T[::-1]))]
        edges = np.roll(q, -1, 0) - q
        normals = np.stack([edges[:, 1], -edges[:, 0]], axis=1)[np.linalg.norm(edges, axis=1) > 1e-9]
        if len(q) > 2 and np.linalg.svd(q - q.mean(0), compute_uv=False)[1] > 1e-6 and np.ptp(pts @ normals.T, axis=0).min() < 20 * eps:
            dirs = normals / np.linalg.norm(normals, axis=1)[:, None]
    for d in dirs:
        want, got = np.max(pts @ d), np.max(verts @ d)
        if got < want - 1.5 * eps * (1 if n == 2 else 10) - 3e-5 * (1 + abs(want)):
            ctx.violation('hull reaches %.8g in direction %s, the set %.8g (accuracy %g)' % (got, d.tolist(), want, eps))
            return


def s12_points(rng, ctx):
    """projection of single points (simulations)"""
    n = int(rng.integers(1, 6))
    pt = np.round(rng.normal(size=n) * 3, 3)
    t = float(np.round(rng.uniform(0, 9), 3))
    for _ in range(6):
        xd, yd = rand_axis(rng, n), rand_axis(rng, n)
        x, y = lpplot.pt_to_plot_xy(pt, xd, yd, t)
        want = [t if a is None else float(ax_vec(a, n) @ pt) for a in (xd, yd)]
        ctx.event('points')
        ctx.nontrivial(str(xd), str(yd))
        if abs(x - want[0]) > 1e-9 or abs(y - want[1]) > 1e-9:
            ctx.violation('point %s with axes (%s, %s) at time %g drawn at (%g, %g), expected %s' % (pt.tolist(), xd, yd, t, x, y, want))


# ------------------------------------------------------------------------------------------ S22
def plot_axes(rng, spec):
    """list of (x, y) per plot: common axes or per-mode dicts; JSON-able"""
    dims = [len(m['A']) for m in spec['modes'] if m['A'] is not None]
    same = len(set(dims)) == 1
    out = []
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        pair = []
        for which in range(2):
            tm = .3 if which == 0 else (0. if pair[0] is None else .2)
            if rng.random() < tm:
                pair.append(None)
            elif same and rng.random() < .7:
                a = rand_axis(rng, dims[0], time=0.)
                pair.append(a.tolist() if isinstance(a, np.ndarray) else a)
            else:
                dd = {}
                for m in spec['modes']:
                    if m['A'] is not None:
                        a = rand_axis(rng, len(m['A']), time=0.)
                        dd[m['name']] = a.tolist() if isinstance(a, np.ndarray) else a
                pair.append(dd)
        out.append(pair)
    return out


def axis_obj(a):
    if isinstance(a, dict):
        return {k: axis_obj(v) for k, v in a.items()}
    return np.array(a) if isinstance(a, list) else a


def axis_for(a, name):
    return a[name] if isinstance(a, dict) else a


class NullWriter:
    """takes the place of ffmpeg: frames are drawn, nothing is written"""

    def __init__(self):
        from matplotlib.animation import AbstractMovieWriter

        class W(AbstractMovieWriter):
            def setup(self, fig, outfile, dpi=None):
                self.fig, self.outfile, self.dpi = fig, outfile, 20

            def grab_frame(self, **kw):
                pass

            def finish(self):
                pass

            def saving(self, fig, outfile, dpi=None, *a, **kw):
                @contextlib.contextmanager
                def cm():
                    self.setup(fig, outfile, dpi)
                    yield self
                return cm()
        self.writer = W(fps=10)


def plot_settings(settings, axes, mode, store=True):
    p = settings.plot
    p.store_plot_result = store
    xs, ys = [axis_obj(a) for a, _ in axes], [axis_obj(b) for _, b in axes]
    if len(axes) == 1:
        p.xdim_dir, p.ydim_dir = xs[0], ys[0]
    else:
        p.xdim_dir, p.ydim_dir = xs, ys
        p.label = [LabelSettings() for _ in axes]
    p.num_angles = 32
    p.plot_mode = mode
    p.plot_size = (2, 2)
    p.filename = io.BytesIO()
    if mode == PlotSettings.PLOT_VIDEO:
        p.video_extra_frames = 4
        p.video_pause_frames = 1
        p.filename = 'unused.mp4'
        p.make_video_writer_func = lambda: NullWriter().writer


@contextlib.contextmanager
def sane_extent():
    """aggregated loops can grow without bound; drawing thin sets of enormous extent is beyond floating point"""
    from scipy.spatial import QhullError
    try:
        yield
    except QhullError as e:
        m = re.search(r'_max-width\s+([0-9.e+-]+)', str(e))
        if m and float(m.group(1)) > 1e5:
            raise Skip('extent')
        raise


def run_plotted(spec, over, axes, mode):
    import matplotlib.pyplot as plt
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, over)
        plot_settings(settings, axes, mode)
        core = hyl.new_core(ha, settings)
        try:
            with sane_extent():
                res = core.run(init)
        finally:
            plt.close('all')
    return res


def entries(res, nplots):
    """per plot: list of (mode name, time interval at that entry, step, vertices, description)"""
    out = []
    for i in range(nplots):
        lst = []
        for name, objs in res.plot_data.mode_to_obj_list[i].items():
            for verts, state, step, descr in objs:
                back = state.cur_step_in_mode - step
                lo, hi = state.cur_steps_since_start
                lst.append((name, (lo - back, hi - back), step, [(float(p[0]), float(p[1])) for p in verts], descr, state.mode.name))
        out.append(lst)
    return out


def check_entries(ctx, spec, axes, ex, ents, exact):
    """the stored polygons against the reference sets"""
    h = spec['step']
    skip_zero = spec['settings'].get('skip_zero_dynamics_modes', True)
    if len(set(len(e) for e in ents)) != 1:
        ctx.violation('different numbers of entries per plot: %s' % [len(e) for e in ents])
        return
    for pi, (lst, (ax, ay)) in enumerate(zip(ents, axes)):
        used = [False] * len(lst)
        for name, _, step, _, descr, sname in lst:
            if name != sname or str(step) not in descr or name not in descr:
                ctx.violation('entry stored under %s describes itself as %r (set of mode %s, step %d)' % (name, descr, sname, step))
                return
        for n in ex.nodes:
            m = spec['modes'][n.mode]
            zero = skip_zero and m.get('B') is None and not np.any(np.array(m['A'], dtype=float))
            for k, s in n.sets.items():
                xa, ya = axis_for(ax, m['name']), axis_for(ay, m['name'])
                xv, yv = ax_vec(xa, s.dims), ax_vec(ya, s.dims)
                ab = n.start + k
                best = None
                for j, (name, (lo, hi), step, verts, _, _) in enumerate(lst):
                    if name != m['name'] or step != k or not lo <= ab <= hi or exact and used[j]:
                        continue
                    bad = compare_poly(s, verts, xv, yv, (ab * h, ab * h) if not exact else (lo * h, hi * h), exact,
                                       VECS[::3] if len(ex.nodes) > 8 else None)
                    if bad is None:
                        used[j] = True
                        best = None
                        break
                    best = bad
                else:
                    if zero and k == 1:
                        continue  # identical to the set one step earlier, left within the same step
                    ctx.violation('plot %d: no entry shows the states of mode %s at step %d (step %d since start, via %s)%s' % (
                        pi, m['name'], k, ab, n.path, '' if best is None else ', closest: ' + best))
                    return
                ctx.event('polygons_matched')
        if exact and not all(used):
            j = used.index(False)
            ctx.violation('plot %d has %d entries for %d explored sets, superfluous: %s' % (pi, len(lst), sum(used), lst[j][:3]))
            return


def same_entries(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if len(x) != len(y):
            return 'plot %d: %d and %d entries' % (i, len(x), len(y))
        for p, q in zip(sorted(x, key=lambda e: e[:3]), sorted(y, key=lambda e: e[:3])):
            if p[:3] != q[:3]:
                return 'plot %d: entry %s against %s' % (i, p[:3], q[:3])
    return None


def s22_exact(rng, ctx):
    spec = gen.gen_spec(rng, modes=(1, 3), dims=(1, 3), steps=(3, 7), p_inputs=.25, p_error=.3, p_tt=.1, n_init=(1, 2))
    ctx.spec = spec
    ex = explore(spec, 30)
    relaxed = tt_relaxed(spec)
    if relaxed is not None and match(sup_table(ex), sup_table(explore(relaxed)), 1e-5) is not None:
        raise Skip('time-triggered tolerance matters')
    axes = plot_axes(rng, spec)
    spec['axes'] = axes
    over = {'agg': 'un', 'stop_on_concrete_error': False}
    mode = int(rng.choice([PlotSettings.PLOT_NONE] * 6 + [PlotSettings.PLOT_IMAGE]))
    res = run_plotted(spec, over, axes, mode)
    ents = entries(res, len(axes))
    ctx.event('runs')
    ctx.event('entries', sum(len(e) for e in ents))
    ctx.event('drawn', int(mode != 0))
    ctx.event('several_plots', int(len(axes) > 1))
    ctx.nontrivial(shape_sig(spec, ex), str(axes), mode)
    ctx.sample({'spec': spec, 'entries': [len(e) for e in ents]})
    check_entries(ctx, spec, axes, ex, ents, True)
    if not ctx.viol and rng.random() < .6 and sum(len(v[3]) for e in ents for v in e) < 260:
        lookup(rng, ctx, res, ents)


def lookup(rng, ctx, res, ents):
    """clicking into the plot"""
    for pi in range(len(ents)):
        cand = [e for e in ents[pi] if len(e[3]) >= 4]
        if not cand:
            continue
        e = cand[int(rng.integers(len(cand)))]
        pts = np.array(e[3][:-1])
        if len(pts) < 3 or min(np.ptp(pts[:, 0]), np.ptp(pts[:, 1])) < 1e-3:
            continue
        c = pts.mean(axis=0)
        q = pts[np.argsort(np.arctan2(*(pts - c).T[::-1]))]
        edge = np.roll(q, -1, axis=0) - q
        nrm = np.hypot(edge[:, 0], edge[:, 1])
        dist = (edge[:, 0] * (c[1] - q[:, 1]) - edge[:, 1] * (c[0] - q[:, 0]))[nrm > 1e-9] / nrm[nrm > 1e-9]
        if len(dist) == 0 or np.min(dist) < 1e-5:
            continue
        got = res.plot_data.get_plot_data(float(c[0]), float(c[1]), pi)
        ctx.event('lookups')
        if got is None:
            ctx.violation('no entry found at a point inside the polygon of %s step %d' % (e[0], e[2]))
            return
        gp = np.array([[float(a), float(b)] for a, b in got[0]])
        for d in VECS:
            if c @ d > np.max(gp @ d) + 1e-9:
                ctx.violation('the entry found at a point does not contain the point')
                return
        allpts = np.vstack([np.array(x[3]) for x in ents[pi]])
        far = allpts.max(axis=0) + 1.
        if res.plot_data.get_plot_data(float(far[0]), float(far[1]), pi) is not None:
            ctx.violation('an entry was found at a point outside of all polygons')
            return


def s22_agg(rng, ctx):
    spec = gen.gen_spec(rng, modes=(1, 3), dims=(1, 3), steps=(4, 8), p_inputs=.2, p_error=.2, n_init=(1, 2), band=.1, p_tt=.05)
    ctx.spec = spec
    ex = explore(spec, 40)
    axes = plot_axes(rng, spec)
    over = {'agg': rand_strat(rng, deagg=False, allow_un=False), 'stop_on_concrete_error': False}
    spec['axes'], spec['over'] = axes, over
    res = run_plotted(spec, over, axes, 0)
    ents = entries(res, len(axes))
    ctx.event('runs')
    ctx.event('entries', sum(len(e) for e in ents))
    ctx.event('aggregated_entries', sum(1 for e in ents for q in e if q[1][0] != q[1][1]))
    ctx.nontrivial(shape_sig(spec, ex), str(axes), over)
    check_entries(ctx, spec, axes, ex, ents, False)


def s22_refine(rng, ctx):
    """refinement exchanges entries: nothing may get lost"""
    spec, ex, _, _ = tight_spec(rng, bool(rng.random() < .3), modes=(2, 3), dims=(1, 3), steps=(4, 8), n_init=(1, 1), p_inputs=.15,
                                band=.1, p_tt=.0)
    ctx.spec = spec
    axes = plot_axes(rng, spec)
    over = {'agg': rand_strat(rng, deagg=True, allow_un=False), 'stop_on_concrete_error': False}
    spec['axes'], spec['over'] = axes, over
    mode = int(rng.choice([0] * 5 + [PlotSettings.PLOT_IMAGE]))
    res = run_plotted(spec, over, axes, mode)
    ents = entries(res, len(axes))
    ctx.event('runs')
    ctx.event('entries', sum(len(e) for e in ents))
    ctx.event('refined_runs', int(bool(res.has_aggregated_error)))
    ctx.nontrivial(shape_sig(spec, ex), str(axes), over)
    check_entries(ctx, spec, axes, ex, ents, False)


def s22_modes(rng, ctx):
    """the same analysis with nothing drawn, an image, a video: same stored data"""
    spec = gen.gen_spec(rng, modes=(1, 2), dims=(1, 2), steps=(3, 5), p_inputs=.2, p_error=.4, n_init=(1, 1), p_tt=.1)
    ctx.spec = spec
    explore(spec, 12)
    axes = plot_axes(rng, spec)
    over = {'agg': rand_strat(rng), 'stop_on_concrete_error': bool(rng.random() < .5)}
    spec['axes'], spec['over'] = axes, over
    base = None
    for mode in (PlotSettings.PLOT_NONE, PlotSettings.PLOT_IMAGE, PlotSettings.PLOT_VIDEO):
        res = run_plotted(spec, over, axes, mode)
        cur = (entries(res, len(axes)), bool(res.has_concrete_error), bool(res.has_aggregated_error))
        ctx.event('runs')
        ctx.event('entries', sum(len(e) for e in cur[0]))
        if base is None:
            base = cur
            continue
        bad = same_entries(base[0], cur[0])
        if bad or base[1:] != cur[1:]:
            ctx.violation('plot mode %d stores other data or gives another verdict than no plotting: %s %s %s' % (mode, bad, base[1:], cur[1:]))
            return
    ctx.nontrivial(str(axes), over, spec['trans'])


def snapshot(fig):
    """what a figure shows: per axes the filled polygons and the markers by colour, and the visible range"""
    from matplotlib.collections import PolyCollection, LineCollection
    out = []
    for ax in fig.axes:
        polys, marks, segs = {}, {}, []
        for c in ax.collections:
            if isinstance(c, PolyCollection) and c.get_visible():
                fc = c.get_facecolor()
                if len(fc) == 0 or fc[0][3] == 0:
                    continue  # outlines: highlighted sets
                key = tuple(np.round(c.get_edgecolor()[0][:3], 4))
                for p in c.get_paths():
                    v = np.array(p.vertices, dtype=float)
                    if len(v) > 2 or np.any(v):  # removed polygons are left as an empty path at the origin
                        polys.setdefault(key, []).append(v)
            elif isinstance(c, LineCollection):
                segs.append([np.array(p.vertices, dtype=float) for p in c.get_paths()])
        for ln in ax.lines:
            if ln.get_marker() == 'o' and len(ln.get_xdata()):
                import matplotlib.colors as mc
                key = tuple(np.round(mc.to_rgb(ln.get_markeredgecolor()), 4))
                marks.setdefault(key, []).extend(np.column_stack([np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata(), dtype=float)]))
        out.append(dict(polys=polys, marks=marks, segs=segs, xlim=ax.get_xlim(), ylim=ax.get_ylim(), colls=list(ax.collections)))
    return out


def run_pictured(spec, over, axes, mode, limits, extra, really):
    """run with an image or a video; returns the result and what the last picture showed"""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    shots = []
    real = Figure.savefig

    def savefig(fig, *a, **kw):
        shots.append(snapshot(fig))
        if really:
            return real(fig, *a, **kw)
        return None
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, over)
        plot_settings(settings, axes, mode)
        p = settings.plot
        labels = p.label if isinstance(p.label, list) else [p.label]
        for la, lim in zip(labels, limits):
            la.axes_limits = lim
        p.extra_collections = extra
        video = VideoFile()
        if mode == PlotSettings.PLOT_VIDEO:
            video.video(p)
            shots = video.shots
        Figure.savefig = savefig
        core = hyl.new_core(ha, settings)
        try:
            with sane_extent(), (contextlib.nullcontext() if really else video):
                res = core.run(init)
        finally:
            Figure.savefig = real
            plt.close('all')
    return res, shots


def saving_of(w):
    @contextlib.contextmanager
    def saving(fig, outfile, dpi=None, *a, **kw):
        w.setup(fig, outfile, dpi)
        yield w
        w.finish()
    return saving


def near(a, b):
    """the same polygon, whatever the order and multiplicity of its vertices"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    tol = 1e-6 * (1 + np.max(np.abs(a)))
    if np.max(np.abs(a.max(0) - b.max(0))) > tol or np.max(np.abs(a.min(0) - b.min(0))) > tol:
        return False
    return a.shape == b.shape and np.max(np.abs(a - b)) < tol or all(abs(np.max(a @ d) - np.max(b @ d)) < tol for d in VECS)


def check_picture(ctx, shot, ents, limits, exact):
    if len(shot) != len(ents):
        ctx.violation('%d plots drawn, %d asked for' % (len(shot), len(ents)))
        return
    for pi, (s, lst) in enumerate(zip(shot, ents)):
        colours = sorted(set(s['polys']) | set(s['marks']))
        cand = {}
        need = {}
        for name, _, step, verts, _, _ in lst:
            v = np.array(verts)
            small = len(v) <= 2
            need.setdefault(name, [0, 0])[1 if small else 0] += 1
            ok = set()
            for c in colours:
                if small:
                    hit = any(np.max(np.abs(m - v[0])) < 1e-6 * (1 + np.max(np.abs(v))) for m in s['marks'].get(c, []))
                else:
                    hit = any(near(v, q) for q in s['polys'].get(c, []))
                if hit:
                    ok.add(c)
            if not ok:
                ctx.violation('plot %d: the states of mode %s at step %d are not in the picture' % (pi, name, step))
                return
            cand[name] = cand.get(name, set(colours)) & ok
            ctx.event('drawn_markers' if small else 'drawn_polygons')
            if limits[pi] is None:
                lo, hi = v.min(0), v.max(0)
                eps = 1e-9 * (1 + np.max(np.abs(v)))
                if lo[0] < s['xlim'][0] - eps or hi[0] > s['xlim'][1] + eps or lo[1] < s['ylim'][0] - eps or hi[1] > s['ylim'][1] + eps:
                    ctx.violation('plot %d: the states of mode %s at step %d (%s to %s) are outside of the axes x %s, y %s' % (
                        pi, name, step, lo.tolist(), hi.tolist(), s['xlim'], s['ylim']))
                    return
        if limits[pi] is not None and (max(abs(a - b) for a, b in zip(tuple(s['xlim']) + tuple(s['ylim']), limits[pi])) > 1e-9):
            ctx.violation('plot %d: axes are x %s, y %s, the settings ask for %s' % (pi, s['xlim'], s['ylim'], limits[pi]))
            return
        # one colour per mode
        names = sorted(cand, key=lambda n: len(cand[n]))

        def assign(i, taken):
            if i == len(names):
                return {}
            for c in cand[names[i]] - taken:
                rest = assign(i + 1, taken | {c})
                if rest is not None:
                    rest[names[i]] = c
                    return rest
            return None
        got = assign(0, frozenset())
        if got is None:
            ctx.violation('plot %d: no colours tell the modes %s apart' % (pi, names))
            return
        if exact:
            drawn = (sum(map(len, s['polys'].values())), sum(map(len, s['marks'].values())))
            want = (sum(n[0] for n in need.values()), sum(n[1] for n in need.values()))
            if drawn != want:
                ctx.violation('plot %d shows %s polygons and markers, there are %s' % (pi, drawn, want))
                return


def s22_image(rng, ctx):
    """what is shown in images and videos"""
    from matplotlib.collections import LineCollection
    flat = rng.random() < .3
    spec = gen.gen_spec(rng, modes=(1, 3), dims=(1, 3), steps=(3, 7), p_inputs=.2, p_error=.3, n_init=(1, 2), p_tt=.1,
                        **(dict(init_kinds=('box', 'point')) if flat else {}))
    if flat and rng.random() < .7:  # variables which do not move, or only later
        for m in spec['modes']:
            if m['A'] is not None and rng.random() < .7:
                A = np.array(m['A'], dtype=float)
                A[int(rng.integers(len(A)))] = 0.
                m['A'] = A.tolist()
    ctx.spec = spec
    explore(spec, 25)
    axes = plot_axes(rng, spec)
    exact = bool(rng.random() < .5)
    over = {'agg': 'un'} if exact else {'agg': rand_strat(rng, deagg=bool(rng.random() < .6), allow_un=False)}
    over['stop_on_concrete_error'] = bool(rng.random() < .3)
    limits = [[-3., 4., -5., 2.5] if rng.random() < .15 else None for _ in axes]
    extra = per = None
    if rng.random() < .3:
        mk = lambda: LineCollection([[(0., 0.), (1., 1.)]])  # noqa
        if rng.random() < .5:
            extra = [mk()]
            per = [extra] + [[] for _ in axes[1:]]
        else:
            extra = per = [[mk()] for _ in axes]
    mode = PlotSettings.PLOT_IMAGE if rng.random() < .75 else PlotSettings.PLOT_VIDEO
    spec['axes'], spec['over'], spec['limits'] = axes, over, limits
    res, shots = run_pictured(spec, over, axes, mode, limits, extra, bool(rng.random() < .1))
    if not shots:
        ctx.violation('no picture was saved')
        return
    ents = entries(res, len(axes))
    ctx.event('runs')
    ctx.event('pictures')
    ctx.event('videos', int(mode == PlotSettings.PLOT_VIDEO))
    ctx.nontrivial(str(axes), str(over), mode, spec['trans'])
    check_picture(ctx, shots[-1], ents, limits, exact)
    for pi, cols in enumerate(per or []):
        for c in cols:
            if not any(c is q for q in shots[-1][pi]['colls']) and not ctx.viol:
                ctx.violation('plot %d misses a shape the user added' % pi)


class Window:
    """a window without a display: the animation is driven frame by frame, buttons and clicks come from the monitor"""

    def __init__(self, on_frame):
        self.on_frame = on_frame
        self.buttons = {}
        self.anim = None
        self.frames = 0
        self.shots = []

    def __enter__(self):
        import matplotlib.pyplot as plt
        from matplotlib import animation, widgets
        import time
        self.saved = (animation.FuncAnimation, widgets.Button.on_clicked, plt.show, time.sleep)
        win = self

        class Anim:
            def __init__(self, fig, func, frames=None, init_func=None, **kw):
                win.anim = (fig, func, frames, init_func)

        def on_clicked(button, func):
            win.buttons[button.label.get_text()] = func
            return win.saved[1](button, func)

        def show(*a, **kw):
            fig, func, frames, init_func = win.anim
            if init_func is not None:
                init_func()
            for i in (frames() if callable(frames) else frames):
                func(i)
                win.frames += 1
                if win.frames > 6000:
                    raise Skip('frames')
                win.on_frame(win, fig)
            win.shots.append(snapshot(fig))
            win.on_frame(win, fig)
        animation.FuncAnimation, widgets.Button.on_clicked, plt.show = Anim, on_clicked, show
        time.sleep = lambda s: None
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        from matplotlib import animation, widgets
        import time
        animation.FuncAnimation, widgets.Button.on_clicked, plt.show, time.sleep = self.saved
        plt.close('all')


class VideoFile:
    """takes the place of a video file: keeps what the last frame shows; frames are put together but not painted"""

    def __init__(self):
        self.shots = []

    def __enter__(self):
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        self.cls = FigureCanvasAgg
        FigureCanvasAgg.draw_idle = lambda *a, **kw: None
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        del self.cls.draw_idle  # inherited
        plt.close('all')

    def video(self, p):
        w = NullWriter().writer
        w.finish = lambda: self.shots.append(snapshot(w.fig))
        w.saving = saving_of(w)
        p.make_video_writer_func = lambda: w
        p.video_extra_frames = 3
        p.video_pause_frames = 1


def s22_live(rng, ctx):
    """live and interactive windows, with any buttons pressed and any places clicked: same data, same verdict"""
    from matplotlib.backend_bases import MouseEvent
    spec = gen.gen_spec(rng, modes=(1, 3), dims=(1, 2), steps=(3, 6), p_inputs=.2, p_error=.4, n_init=(1, 2), p_tt=.1)
    ctx.spec = spec
    explore(spec, 15)
    axes = plot_axes(rng, spec)
    exact = bool(rng.random() < .4)
    over = {'agg': 'un'} if exact else {'agg': rand_strat(rng, deagg=bool(rng.random() < .6), allow_un=False)}
    over['stop_on_concrete_error'] = bool(rng.random() < .4)
    mode = PlotSettings.PLOT_LIVE if rng.random() < .4 else PlotSettings.PLOT_INTERACTIVE
    stride = int(rng.integers(2, 5)) if rng.random() < .3 else 1
    skips = int(rng.integers(0, 6)) if rng.random() < .5 else 0
    store = bool(rng.random() < .8)
    spec['axes'], spec['over'], spec['window'] = axes, over, dict(mode=mode, stride=stride, skips=skips, store=store)
    base_res = run_plotted(spec, over, axes, PlotSettings.PLOT_NONE)
    base = (entries(base_res, len(axes)), bool(base_res.has_concrete_error), bool(base_res.has_aggregated_error))
    small = sum(len(v[3]) for e in base[0] for v in e) < 150  # finding the polygon under the pointer is slow
    prng = np.random.default_rng(int(rng.integers(1 << 30)))

    def on_frame(win, fig):
        if prng.random() < .8:
            for name in ('Next', 'Step'):
                if name in win.buttons and prng.random() < .6:
                    win.buttons[name](None)
                    ctx.event('buttons_pressed')
                    break
        if mode == PlotSettings.PLOT_INTERACTIVE and prng.random() < (.1 if small else .005):
            ax = fig.axes[int(prng.integers(len(axes)))]
            x, y = (lim[0] + (lim[1] - lim[0]) * prng.random() for lim in (ax.get_xlim(), ax.get_ylim()))
            px, py = ax.transData.transform((x, y))
            for what in ('button_press_event', 'button_release_event'):
                fig.canvas.callbacks.process(what, MouseEvent(what, fig.canvas, px, py, button=1))
            ctx.event('clicks')
    with hyl.quiet():
        ha, modes, init, settings = hyl.build(spec, over)
        plot_settings(settings, axes, mode, store)
        settings.plot.draw_stride = stride
        settings.plot.interactive_skip_count = skips
        core = hyl.new_core(ha, settings)
        with Window(on_frame) as win, sane_extent():
            res = core.run(init)
    ctx.event('runs')
    ctx.event('windows')
    ctx.event('frames', win.frames)
    ctx.nontrivial(str(axes), str(over), mode, stride, spec['trans'])
    verdict = (bool(res.has_concrete_error), bool(res.has_aggregated_error))
    if verdict != base[1:]:
        ctx.violation('plot mode %d (stride %d): verdict %s, without plotting %s' % (mode, stride, verdict, base[1:]))
        return
    if not store:
        return
    cur = entries(res, len(axes))
    ctx.event('entries', sum(len(e) for e in cur))
    bad = same_entries(base[0], cur)
    if bad:
        ctx.violation('plot mode %d (stride %d) stores other data than no plotting: %s' % (mode, stride, bad))
        return
    if stride == 1:
        check_picture(ctx, win.shots[-1][:len(axes)], cur, [None] * len(axes), exact)
