"""Independent LP oracle: HiGHS (as shipped inside scipy), nothing shared with GLPK.

An Oracle holds {x : rlo <= A x <= rhi, clo <= x <= chi} and answers support / feasibility
queries.  Every answer is one of ('opt', value, x), ('inf',), ('unb',); anything else raises
OracleTrouble, which callers turn into an inconclusive case, never into a verdict.
"""
import numpy as np
import scipy.optimize._highspy._core as _h

INF = float('inf')


class OracleTrouble(Exception):
    """the reference solver could not decide a query"""


class Oracle:
    def __init__(self, A, rlo, rhi, clo=None, chi=None, tol=1e-9):
        A = np.asarray(A, dtype=float)
        if A.ndim != 2:
            raise ValueError("2-d matrix expected")
        m, n = A.shape
        self.m, self.n = m, n
        self.A = A
        self.rlo = np.asarray(rlo, dtype=float)
        self.rhi = np.asarray(rhi, dtype=float)
        self.clo = np.full(n, -INF) if clo is None else np.asarray(clo, dtype=float)
        self.chi = np.full(n, INF) if chi is None else np.asarray(chi, dtype=float)
        hs = _h._Highs()
        hs.setOptionValue('output_flag', False)
        hs.setOptionValue('primal_feasibility_tolerance', tol)
        hs.setOptionValue('dual_feasibility_tolerance', tol)
        lp = _h.HighsLp()
        lp.num_col_ = n
        lp.num_row_ = m
        lp.col_cost_ = np.zeros(n)
        lp.col_lower_ = self.clo
        lp.col_upper_ = self.chi
        lp.row_lower_ = self.rlo
        lp.row_upper_ = self.rhi
        starts = [0]
        idx = []
        val = []
        for i in range(m):
            nz = np.nonzero(A[i])[0]
            idx.extend(nz.tolist())
            val.extend(A[i, nz].tolist())
            starts.append(len(idx))
        lp.a_matrix_.format_ = _h.MatrixFormat.kRowwise
        lp.a_matrix_.num_col_ = n
        lp.a_matrix_.num_row_ = m
        lp.a_matrix_.start_ = np.array(starts, dtype=np.int32)
        lp.a_matrix_.index_ = np.array(idx, dtype=np.int32)
        lp.a_matrix_.value_ = np.array(val, dtype=float)
        hs.passModel(lp)
        self.hs = hs
        self.queries = 0

    def minimize(self, c):
        """('opt', value, x) | ('inf',) | ('unb',)"""
        c = np.asarray(c, dtype=float)
        self.queries += 1
        if self.n == 0:
            ok = np.all(self.rlo <= 1e-9) and np.all(self.rhi >= -1e-9)
            return ('opt', 0.0, np.zeros(0)) if ok else ('inf',)
        self.hs.changeColsCost(self.n, np.arange(self.n, dtype=np.int32), c)
        for attempt in range(3):
            self.hs.run()
            st = self.hs.getModelStatus()
            S = _h.HighsModelStatus
            if st == S.kOptimal:
                x = np.array(self.hs.getSolution().col_value)
                return ('opt', float(np.dot(c, x)), x)
            if st == S.kInfeasible:
                return ('inf',)
            if st == S.kUnbounded:
                return ('unb',)
            if st == S.kModelEmpty:
                return ('opt', 0.0, np.zeros(self.n))
            self.hs.clearSolver()
            if attempt == 0:
                self.hs.setOptionValue('presolve', 'off')
        raise OracleTrouble("HiGHS status %s" % st)

    def maximize(self, c):
        r = self.minimize(-np.asarray(c, dtype=float))
        if r[0] == 'opt':
            return ('opt', -r[1], r[2])
        return r

    def feasible(self):
        r = self.minimize(np.zeros(self.n))
        return r[0] != 'inf'


def read_lpi(lpi):
    """Read an LpInstance straight out of GLPK.  Returns dict(A, rlo, rhi, clo, chi)."""
    import swiglpk as g
    lp = lpi.lp
    m = g.glp_get_num_rows(lp)
    n = g.glp_get_num_cols(lp)
    A = np.zeros((m, n))
    rlo = np.full(m, -INF)
    rhi = np.full(m, INF)
    ind = g.intArray(n + 1)
    val = g.doubleArray(n + 1)
    for i in range(m):
        k = g.glp_get_mat_row(lp, i + 1, ind, val)
        for j in range(1, k + 1):
            A[i, ind[j] - 1] = val[j]
        t = g.glp_get_row_type(lp, i + 1)
        lo, hi = g.glp_get_row_lb(lp, i + 1), g.glp_get_row_ub(lp, i + 1)
        if t in (g.GLP_LO, g.GLP_DB, g.GLP_FX):
            rlo[i] = lo
        if t in (g.GLP_UP, g.GLP_DB, g.GLP_FX):
            rhi[i] = hi
        if t == g.GLP_FX:
            rhi[i] = lo
    clo = np.full(n, -INF)
    chi = np.full(n, INF)
    for j in range(n):
        t = g.glp_get_col_type(lp, j + 1)
        lo, hi = g.glp_get_col_lb(lp, j + 1), g.glp_get_col_ub(lp, j + 1)
        if t in (g.GLP_LO, g.GLP_DB, g.GLP_FX):
            clo[j] = lo
        if t in (g.GLP_UP, g.GLP_DB):
            chi[j] = hi
        if t == g.GLP_FX:
            chi[j] = lo
    return dict(A=A, rlo=rlo, rhi=rhi, clo=clo, chi=chi)


class LpiView:
    """Read-only HiGHS view of the set of current-time states denoted by an LpInstance."""

    def __init__(self, lpi):
        d = read_lpi(lpi)
        self.dims = lpi.dims
        self.off = lpi.cur_vars_offset
        self.oracle = Oracle(d['A'], d['rlo'], d['rhi'], d['clo'], d['chi'])

    def support(self, d):
        c = np.zeros(self.oracle.n)
        c[self.off:self.off + self.dims] = d
        return self.oracle.maximize(c)

    def supports(self, dirs):
        return [self.support(d) for d in dirs]

    def feasible(self):
        return self.oracle.feasible()

    def contains(self, pt, tol):
        """is pt within an inf-norm tol-box of the set?"""
        o = self.oracle
        n = o.n
        clo, chi = o.clo.copy(), o.chi.copy()
        for i in range(self.dims):
            clo[self.off + i] = max(clo[self.off + i], pt[i] - tol)
            chi[self.off + i] = min(chi[self.off + i], pt[i] + tol)
        return Oracle(o.A, o.rlo, o.rhi, clo, chi).feasible()
