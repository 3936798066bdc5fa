"""The automata which come with the tool (examples/), as workloads: their definitions are recorded while the example builds
them, so what is compared is what the example asked for, not what the tool made of it."""
import contextlib
import importlib.util
import os
import numpy as np
from . import gen, hyl, ref
from .ctx import Skip
from hylaa import hybrid_automaton as hmod, lputil
import hylaa.core as cmod

NAMES = ['approx_model/approx_model', 'building/building', 'deaggregation/deag_example', 'demo_inputs_reset/demo_inputs_reset',
         'demo_reset/demo_reset', 'drivetrain/drivetrain', 'fuzzy_pd/fuzzy_pd', 'gearbox/gearbox', 'ha_deaggregation/ha_deagg',
         'harmonic_oscillator/ha', 'rendezvous/rendezvous', 'rendezvous/rendezvous_full_passivity', 'space_station/space_station']
BIG = 'space_station/space_station'
CACHE = {}


class Done(BaseException):
    pass


def dense(M):
    M = M.toarray() if hasattr(M, 'toarray') else np.array(M, dtype=float)
    return np.atleast_2d(np.asarray(M, dtype=float)).tolist()


def flat(v):
    return np.asarray(v.toarray() if hasattr(v, 'toarray') else v, dtype=float).ravel().tolist()


def record(name):
    """spec of the first analysis an example starts"""
    spec = {'name': name, 'modes': [], 'trans': [], 'init': [], 'settings': {}, 'tags': [name]}
    mid, tid, sets, keep = {}, {}, {}, []
    undo = []

    def wrap(owner, attr, make):
        orig = getattr(owner, attr)
        setattr(owner, attr, make(orig))
        undo.append((owner, attr, orig))

    def new_mode(orig):
        def f(self, *a, **k):
            m = orig(self, *a, **k)
            keep.append(m)
            mid[id(m)] = len(spec['modes'])
            spec['modes'].append({'name': m.name, 'A': None, 'inv': [], 'kind': 'model'})
            return m
        return f

    def new_transition(orig):
        def f(self, src, dst, *a, **k):
            t = orig(self, src, dst, *a, **k)
            keep.append(t)
            tid[id(t)] = len(spec['trans'])
            spec['trans'].append({'src': mid[id(src)], 'dst': mid[id(dst)], 'name': 't%d' % len(spec['trans'])})
            return t
        return f

    def mode_call(save):
        def make(orig):
            def f(self, *a, **k):
                save(spec['modes'][mid[id(self)]], *a, **k)
                return orig(self, *a, **k)
            return f
        return make

    def trans_call(save):
        def make(orig):
            depth = [0]

            def f(self, *a, **k):
                if not depth[0]:
                    save(spec['trans'][tid[id(self)]], *a, **k)
                depth[0] += 1
                try:
                    return orig(self, *a, **k)
                finally:
                    depth[0] -= 1
            return f
        return make

    def s_dyn(m, a_csr):
        m['A'] = dense(a_csr)

    def s_inv(m, constraints_csr, constraints_rhs):
        m['inv'] = [[r, b] for r, b in zip(dense(constraints_csr), flat(constraints_rhs))]

    def s_inp(m, b_csr, u_constraints_csr, u_constraints_rhs, allow_constants=False):
        m['B'], m['Uc'], m['Ur'] = dense(b_csr), dense(u_constraints_csr), flat(u_constraints_rhs)

    def s_true(t):
        t['G'], t['g'] = [], []

    def s_guard(t, guard_csr, guard_rhs):
        t['G'], t['g'] = dense(guard_csr), flat(guard_rhs)

    def s_reset(t, reset_csr=None, reset_minkowski_csr=None, reset_minkowski_constraints_csr=None, reset_minkowski_constraints_rhs=None):
        if reset_csr is not None:
            t['R'] = dense(reset_csr)
        if reset_minkowski_constraints_csr is not None:
            t['Mc'], t['Mr'] = dense(reset_minkowski_constraints_csr), flat(reset_minkowski_constraints_rhs)
            t['M'] = np.eye(len(t['Mc'][0])).tolist() if reset_minkowski_csr is None else dense(reset_minkowski_csr)

    def box(orig):
        def f(box_list, mode):
            lpi = orig(box_list, mode)
            keep.append(lpi)
            sets[id(lpi)] = {'kind': 'box', 'box': [[float(lo), float(hi)] for lo, hi in box_list]}
            return lpi
        return f

    def cons(orig):
        def f(csr, rhs, mode, *a, **k):
            lpi = orig(csr, rhs, mode, *a, **k)
            keep.append(lpi)
            sets[id(lpi)] = {'kind': 'cons', 'C': dense(csr), 'r': flat(rhs)}
            return lpi
        return f

    def zono(orig):
        def f(c, gens, mode):
            lpi = orig(c, gens, mode)
            keep.append(lpi)
            sets[id(lpi)] = {'kind': 'zono', 'c': flat(c), 'gens': [flat(g) for g in gens]}
            return lpi
        return f

    class Stub:
        def __init__(self, ha, settings, *a, **k):
            self.settings = settings

        def run(self, init):
            for s in init:
                spec['init'].append(dict(sets[id(s.lpi)], mode=mid[id(s.mode)]))
            spec['step'], spec['num_steps'] = float(self.settings.step_size), int(self.settings.num_steps)
            spec['urgent'] = bool(self.settings.process_urgent_guards)
            raise Done()

        simulate = run

    path = os.path.join(hyl.REPO, 'examples', name + '.py')
    old = os.getcwd()
    try:
        wrap(hmod.HybridAutomaton, 'new_mode', new_mode)
        wrap(hmod.HybridAutomaton, 'new_transition', new_transition)
        wrap(hmod.Mode, 'set_dynamics', mode_call(s_dyn))
        wrap(hmod.Mode, 'set_invariant', mode_call(s_inv))
        wrap(hmod.Mode, 'set_inputs', mode_call(s_inp))
        wrap(hmod.Transition, 'set_guard_true', trans_call(s_true))
        wrap(hmod.Transition, 'set_guard', trans_call(s_guard))
        wrap(hmod.Transition, 'set_reset', trans_call(s_reset))
        wrap(lputil, 'from_box', box)
        wrap(lputil, 'from_constraints', cons)
        wrap(lputil, 'from_zonotope', zono)
        wrap(cmod, 'Core', lambda orig: Stub)
        os.chdir(os.path.dirname(path))
        sp = importlib.util.spec_from_file_location('example_' + os.path.basename(name), path)
        mod = importlib.util.module_from_spec(sp)
        with hyl.quiet(), contextlib.suppress(Done):
            sp.loader.exec_module(mod)
            mod.run_hylaa()
    except Exception as e:
        raise Skip('example not recorded: %s' % type(e).__name__)
    finally:
        os.chdir(old)
        for owner, attr, orig in reversed(undo):
            setattr(owner, attr, orig)
    if not spec['init'] or any('G' not in t for t in spec['trans']):
        raise Skip('example not recorded')
    return spec


def model(name):
    if name not in CACHE:
        CACHE[name] = record(name)
    import copy
    return copy.deepcopy(CACHE[name])


def center(ini):
    """(a point in the middle, half widths)"""
    if ini['kind'] == 'box':
        b = np.array(ini['box'])
        return b.mean(1), (b[:, 1] - b[:, 0]) / 2
    if ini['kind'] == 'zono':
        return np.array(ini['c']), np.abs(np.array(ini['gens'])).sum(0)
    s = ref.RSet.polyhedron(ini['C'], ini['r'])
    up = np.array([s.sup(e) for e in np.eye(s.dims)])
    lo = np.array([-s.sup(-e) for e in np.eye(s.dims)])
    return np.array(s.support(np.arange(1, s.dims + 1) * .37 - 1)[2]) * .5 + (up + lo) / 4, (up - lo) / 2


def walk(rng, spec, steps):
    """one execution: [(mode, state, widths at the start)] for every step"""
    ini = spec['init'][int(rng.integers(len(spec['init'])))]
    x, w = center(ini)
    mi = ini['mode']
    flows, out, k = {}, [(mi, x, w)], 0
    for _ in range(steps):
        m = spec['modes'][mi]
        if any(np.dot(r, x) > b + 1e-9 * (1 + abs(b)) for r, b in m['inv']):
            break
        if mi not in flows:
            E, G = ref.flow_matrices(m['A'], m.get('B'), spec['step'])
            u = None if G is None else ref.RSet.polyhedron(m['Uc'], m['Ur']).support(rng.normal(size=G.shape[1]))[2]
            flows[mi] = E, None if G is None else G @ u
        E, g = flows[mi]
        x = E @ x if g is None else E @ x + g
        out.append((mi, x, w))
        for t in spec['trans']:
            if t['src'] == mi and spec['modes'][t['dst']]['A'] is not None and rng.random() < .7 and \
                    all(np.dot(r, x) <= b for r, b in zip(t['G'], t['g'])):
                if t.get('R') is not None:
                    x = np.array(t['R']) @ x
                    w = np.abs(np.array(t['R'])) @ w
                mi = t['dst']
                out.append((mi, x, w))
                break
    return out


def near_spec(rng, steps=(4, 12), inputs=True):
    """a model that comes with the tool, started somewhere along one of its executions, for a few steps"""
    names = [n for n in NAMES if n != BIG]
    spec = model(names[int(rng.integers(len(names)))])
    if not inputs and (any(m.get('B') is not None for m in spec['modes']) or any(t.get('M') is not None for t in spec['trans'])):
        raise Skip('inputs')  # (simulations with inputs or added terms are not offered)
    spec['step'] *= float(rng.choice([1., 1., 2., 4.]))
    path = walk(rng, spec, min(400, max(4, int(spec['num_steps'] * rng.uniform(.2, 1)))))
    # often shortly before the mode changes (or its invariant ends)
    switches = [i for i in range(1, len(path)) if path[i][0] != path[i - 1][0]] + [len(path) - 1]
    p = rng.random()
    at = 0 if p < .2 else int(rng.integers(len(path))) if p < .5 else \
        max(0, switches[int(rng.integers(len(switches)))] - int(rng.integers(1, 5)))
    mi, x, w = path[at]
    if np.max(np.abs(x)) > 5e3:
        raise Skip('state magnitude')
    w = w * float(rng.choice([.02, .1, .3, 1.]))
    spec['init'] = [{'mode': mi, 'kind': 'box', 'box': np.stack([x - w, x + w], axis=1).tolist()}]
    if rng.random() < .25:  # another one, from the same execution
        mi, x, w = path[int(rng.integers(len(path)))]
        if np.max(np.abs(x)) < 5e3:
            w = w * .05
            spec['init'].append({'mode': mi, 'kind': 'box', 'box': np.stack([x - w, x + w], axis=1).tolist()})
    spec['num_steps'] = int(rng.integers(steps[0], steps[1] + 1))
    st = spec['settings']
    if spec.pop('urgent'):
        st['process_urgent_guards'] = True
    if rng.random() < .3:
        st['do_guard_strengthening'] = False
    if rng.random() < .3:
        st['optimize_tt_transitions'] = False
    return spec
