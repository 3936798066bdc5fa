"""Reference semantics: an independent interpreter of the discrete-time (step-synchronous) executions
of a linear hybrid automaton with inputs, written from the documentation of the tool and not from its
code: chronological inputs, one constraint system per path, numpy + HiGHS only.

A spec is a plain JSON-able dict (see gen.py).  RSet is a set {X v + off | H v <= h}.
"""
import numpy as np
from .lp import Oracle, OracleTrouble, INF


def expm_taylor(M):
    """own matrix exponential: scaling and squaring of a Taylor series"""
    M = np.asarray(M, dtype=float)
    n = M.shape[0]
    nrm = np.abs(M).sum(axis=1).max() if n else 0.0
    s = max(0, int(np.ceil(np.log2(nrm / 0.25)))) if nrm > 0.25 else 0
    T = M / (2.0 ** s)
    R = np.eye(n)
    term = np.eye(n)
    for k in range(1, 25):
        term = term @ T / k
        R = R + term
    for _ in range(s):
        R = R @ R
    return R


def flow_matrices(A, B, h):
    """(E, G): x(t+h) = E x(t) + G u, u constant over the step"""
    A = np.asarray(A, dtype=float)
    n = A.shape[0]
    if B is None:
        return expm_taylor(A * h), None
    B = np.asarray(B, dtype=float)
    m = B.shape[1]
    M = np.zeros((n + m, n + m))
    M[:n, :n] = A
    M[:n, n:] = B
    F = expm_taylor(M * h)
    return F[:n, :n], F[:n, n:]


class RSet:
    __slots__ = ('X', 'off', 'H', 'h', 'soft', '_orc')

    def __init__(self, X, off, H, h, soft):
        self.X, self.off, self.H, self.h, self.soft = X, off, H, h, soft
        self._orc = None

    @property
    def dims(self):
        return self.X.shape[0]

    @property
    def nvars(self):
        return self.X.shape[1]

    @staticmethod
    def polyhedron(C, r):
        C = np.asarray(C, dtype=float)
        n = C.shape[1]
        return RSet(np.eye(n), np.zeros(n), C, np.asarray(r, dtype=float), np.zeros(C.shape[0], dtype=bool))

    @staticmethod
    def box(box):
        n = len(box)
        C = np.vstack([-np.eye(n), np.eye(n)])
        r = np.array([-b[0] for b in box] + [b[1] for b in box], dtype=float)
        return RSet.polyhedron(C, r)

    @staticmethod
    def zono(c, gens):
        c = np.asarray(c, dtype=float)
        k = len(gens)
        G = np.array(gens, dtype=float).T if k else np.zeros((len(c), 0))
        C = np.vstack([-np.eye(k), np.eye(k)])
        return RSet(G, c.copy(), C, np.ones(2 * k), np.zeros(2 * k, dtype=bool))

    def _extend(self, Cnew, rnew, cols):
        """append `cols` fresh variables with constraints Cnew w <= rnew"""
        m, n = self.H.shape
        k = Cnew.shape[0]
        H = np.zeros((m + k, n + cols))
        H[:m, :n] = self.H
        H[m:, n:] = Cnew
        return H, np.concatenate([self.h, rnew]), np.concatenate([self.soft, np.zeros(k, dtype=bool)])

    def linmap(self, M):
        return RSet(M @ self.X, M @ self.off, self.H, self.h, self.soft)

    def linmap_plus(self, M, N, Cn, rn):
        """{M x + N w | Cn w <= rn}"""
        N = np.asarray(N, dtype=float)
        H, h, soft = self._extend(np.asarray(Cn, dtype=float).reshape(-1, N.shape[1]),
                                  np.asarray(rn, dtype=float), N.shape[1])
        return RSet(np.hstack([M @ self.X, N]), M @ self.off, H, h, soft)

    def meet(self, rows, rhs):
        rows = np.asarray(rows, dtype=float).reshape(-1, self.dims)
        rhs = np.asarray(rhs, dtype=float)
        if len(rhs) == 0:
            return self
        return RSet(self.X, self.off, np.vstack([self.H, rows @ self.X]),
                    np.concatenate([self.h, rhs - rows @ self.off]),
                    np.concatenate([self.soft, np.ones(len(rhs), dtype=bool)]))

    def oracle(self):
        if self._orc is None:
            self._orc = Oracle(self.H, np.full(len(self.h), -INF), self.h)
        return self._orc

    def support(self, d):
        d = np.asarray(d, dtype=float)
        r = self.oracle().maximize(d @ self.X)
        if r[0] == 'opt':
            return ('opt', r[1] + float(d @ self.off), self.X @ r[2] + self.off, r[2])
        return r

    def sup(self, d):
        r = self.support(d)
        if r[0] == 'opt':
            return r[1]
        if r[0] == 'unb':
            return INF
        return -INF

    def slack(self):
        """largest t (<= 1) such that the set stays nonempty after tightening every soft row by t;
        negative when it is empty, -inf if even the hard rows are empty"""
        m, n = self.H.shape
        A = np.zeros((m, n + 1))
        A[:, :n] = self.H
        A[self.soft, n] = 1.0
        clo = np.full(n + 1, -INF)
        chi = np.full(n + 1, INF)
        chi[n] = 1.0
        clo[n] = -1e6
        c = np.zeros(n + 1)
        c[n] = 1.0
        r = Oracle(A, np.full(m, -INF), self.h, clo, chi).maximize(c)
        if r[0] == 'inf':
            return -INF
        if r[0] != 'opt':
            raise OracleTrouble('slack ' + r[0])
        return r[1]

    def contains(self, pt, tol):
        A = np.vstack([self.H, self.X])
        rlo = np.concatenate([np.full(len(self.h), -INF), np.asarray(pt) - self.off - tol])
        rhi = np.concatenate([self.h, np.asarray(pt) - self.off + tol])
        return Oracle(A, rlo, rhi).feasible()


class Ambiguous(Exception):
    """a feasibility question of this case is closer than the margin: the case decides nothing"""


class TooBig(Exception):
    """exploration larger than the configured bound"""


class Node:
    """one visit of one mode along one path"""
    __slots__ = ('mode', 'start', 'sets', 'path', 'concrete_path')

    def __init__(self, mode, start, path):
        self.mode, self.start, self.path = mode, start, path
        self.sets = {}  # step in mode -> RSet before trimming at that step (step 0: after trimming)


class Explorer:
    """full path enumeration of the step-synchronous semantics.

    opts: urgent (bool), skip_zero (bool)
    """

    def __init__(self, spec, delta=1e-4, max_nodes=60, urgent=False, skip_zero=True):
        self.spec, self.delta, self.max_nodes = spec, delta, max_nodes
        self.urgent, self.skip_zero = urgent, skip_zero
        self.nodes = []
        self.errors = []  # (abs step, trans index, RSet in guard, path)
        self.flows = {}
        self.min_margin = INF

    def flow(self, mi):
        if mi not in self.flows:
            m = self.spec['modes'][mi]
            self.flows[mi] = flow_matrices(m['A'], m.get('B'), self.spec['step'])
        return self.flows[mi]

    def decide(self, rset):
        """robust nonemptiness; raises Ambiguous inside the margin"""
        s = rset.slack()
        self.min_margin = min(self.min_margin, abs(s))
        if s > self.delta:
            return True
        if s < -self.delta:
            return False
        raise Ambiguous('feasibility margin %g' % s)

    def trim(self, rset, mi):
        """(set, nonempty) after intersecting the invariant of mode mi"""
        inv = self.spec['modes'][mi].get('inv') or []
        if not inv:
            return rset, True
        # a condition that never cuts needs no margin
        rows, rhs = [], []
        for row, r in inv:
            s = rset.sup(np.array(row, dtype=float))
            if s > r - 1e-9 * (1 + abs(r)):
                rows.append(row)
                rhs.append(r)
        if not rows:
            return rset, True
        t = rset.meet(rows, rhs)
        return t, self.decide(t)

    def init_sets(self):
        for ini in self.spec['init']:
            if ini['kind'] == 'box':
                s = RSet.box(ini['box'])
            elif ini['kind'] == 'cons':
                s = RSet.polyhedron(ini['C'], ini['r'])
            else:
                s = RSet.zono(ini['c'], ini['gens'])
            yield ini['mode'], s

    def run(self):
        work = []
        for idx, (mi, s) in enumerate(self.init_sets()):
            work.append((mi, 0, s, (('init', idx),)))
        while work:
            mi, start, s, path = work.pop(0)
            self.visit(mi, start, s, path, work)
        return self

    def guards(self, rset, mi, abs_step, k, path, work):
        for ti, t in enumerate(self.spec['trans']):
            if t['src'] != mi:
                continue
            gs = rset.meet(t['G'], t['g']) if len(t['g']) else rset
            if len(t['g']) and not self.decide(gs):
                continue
            dst = t['dst']
            npath = path + ((ti, k),)
            if self.spec['modes'][dst]['A'] is None:
                self.errors.append((abs_step, ti, gs, npath))
                continue
            work.append((dst, abs_step, self.apply_reset(gs, t), npath))

    @staticmethod
    def apply_reset(gs, t):
        R = np.eye(gs.dims) if t.get('R') is None else np.array(t['R'], dtype=float)
        if t.get('M') is None:
            return gs.linmap(R)
        return gs.linmap_plus(R, t['M'], t['Mc'], t['Mr'])

    def visit(self, mi, start, s, path, work):
        s, ok = self.trim(s, mi)
        if not ok:
            return
        node = Node(mi, start, path)
        self.nodes.append(node)
        if len(self.nodes) > self.max_nodes:
            raise TooBig()
        mode = self.spec['modes'][mi]
        E, G = self.flow(mi)
        k = 0
        N = self.spec['num_steps']
        node.sets[0] = s
        if self.urgent:
            self.guards(s, mi, start, 0, path, work)
        while start + k < N:
            if k > 0:
                s, ok = self.trim(s, mi)
                if not ok:
                    break
            if G is None:
                s = s.linmap(E)
            else:
                s = s.linmap_plus(E, G, mode['Uc'], mode['Ur'])
            k += 1
            node.sets[k] = s
            self.guards(s, mi, start + k, k, path, work)
            if self.skip_zero and G is None and not np.any(np.array(mode['A'], dtype=float)):
                break
