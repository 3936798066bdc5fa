"""Protocol monitor for the native LP library: every call that crosses from Python into GLPK is checked against
what the library documents (live program, row/column ranges, array lengths, no duplicate entries, finite numbers)
before it is let through.  A call that breaks the protocol is recorded and, where letting it through could abort or
corrupt the process, answered with an exception instead.

Installed on the swiglpk module itself, so it does not matter where or how the code under test imports it."""
import math
import swiglpk as g


class ProtocolError(Exception):
    """stands in for the crash or corruption the call could have caused"""


class Monitor:
    def __init__(self):
        self.live = {}      # address -> serial
        self.serial = 0
        self.created = self.deleted = 0
        self.calls = {}
        self.problems = []
        self.fault = None   # callable(name) -> exception to raise / None
        self.simplex_fault = None  # callable() -> error code or None

    def problem(self, msg):
        if len(self.problems) < 6:
            self.problems.append(msg)

    def count(self, name):
        self.calls[name] = self.calls.get(name, 0) + 1


MON = Monitor()
REAL = {}


def is_prob(x):
    return type(x).__name__ == 'SwigPyObject' and "glp_prob *" in repr(x)


def check_live(name, lp):
    if int(lp) not in MON.live:
        MON.problem('%s on a program which is not alive' % name)
        raise ProtocolError(name)


def rows(lp):
    return REAL['glp_get_num_rows'](lp)


def cols(lp):
    return REAL['glp_get_num_cols'](lp)


def in_range(name, what, i, lo, hi):
    if isinstance(i, bool) or not lo <= i <= hi:
        MON.problem('%s: %s %s outside %d..%d' % (name, what, i, lo, hi))
        raise ProtocolError(name)


def finite(name, v):
    if not math.isfinite(v):
        MON.problem('%s: number %s' % (name, v))


def length(arr):
    return getattr(arr, '_mon_len', None)


def check_vector(name, lp, n, ind, val, limit, what):
    if n < 0 or n > limit:
        MON.problem('%s: %d entries, only %d %ss' % (name, n, limit, what))
        raise ProtocolError(name)
    if n == 0:
        return
    for arr, nm in ((ind, 'index'), (val, 'value')):
        ln = length(arr)
        if ln is None:
            continue
        if ln < n + 1:
            MON.problem('%s: %s array has room for %d entries, %d are read' % (name, nm, ln - 1, n))
            raise ProtocolError(name)
    seen = set()
    for k in range(1, n + 1):
        i = ind.raw_get(k) if hasattr(ind, 'raw_get') else ind[k]
        in_range(name, what + ' index', i, 1, limit)
        if i in seen:
            MON.problem('%s: duplicate %s %d' % (name, what, i))
            raise ProtocolError(name)
        seen.add(i)
        finite(name, val.raw_get(k) if hasattr(val, 'raw_get') else val[k])


def check_out(name, n, ind, val):
    """arrays the library writes n entries into"""
    for arr in (ind, val):
        if arr is None:
            continue
        ln = length(arr)
        if ln is not None and ln < n + 1:
            MON.problem('%s: array has room for %d entries, %d are written' % (name, ln - 1, n))
            raise ProtocolError(name)


ROW_ARG = {'glp_set_row_bnds', 'glp_get_row_type', 'glp_get_row_lb', 'glp_get_row_ub', 'glp_get_row_stat', 'glp_set_row_stat',
           'glp_get_row_prim', 'glp_get_row_dual', 'glp_set_row_name', 'glp_get_row_name'}
COL_ARG = {'glp_set_col_bnds', 'glp_get_col_type', 'glp_get_col_lb', 'glp_get_col_ub', 'glp_get_col_stat', 'glp_set_col_stat',
           'glp_get_col_prim', 'glp_get_col_dual', 'glp_set_col_name', 'glp_get_col_name'}


def pre(name, args):
    lp = args[0]
    if name in ROW_ARG:
        in_range(name, 'row', args[1], 1, rows(lp))
    elif name in COL_ARG:
        in_range(name, 'column', args[1], 1, cols(lp))
    elif name in ('glp_set_obj_coef', 'glp_get_obj_coef'):
        in_range(name, 'column', args[1], 0, cols(lp))
        if len(args) > 2:
            finite(name, args[2])
    elif name in ('glp_add_rows', 'glp_add_cols'):
        if args[1] < 1:
            MON.problem('%s: %s' % (name, args[1]))
            raise ProtocolError(name)
    elif name == 'glp_set_mat_row':
        in_range(name, 'row', args[1], 1, rows(lp))
        check_vector(name, lp, args[2], args[3], args[4], cols(lp), 'column')
    elif name == 'glp_set_mat_col':
        in_range(name, 'column', args[1], 1, cols(lp))
        check_vector(name, lp, args[2], args[3], args[4], rows(lp), 'row')
    elif name == 'glp_get_mat_row':
        in_range(name, 'row', args[1], 1, rows(lp))
        check_out(name, REAL[name](lp, args[1], None, None), args[2], args[3])
    elif name == 'glp_get_mat_col':
        in_range(name, 'column', args[1], 1, cols(lp))
        check_out(name, REAL[name](lp, args[1], None, None), args[2], args[3])
    if name in ('glp_set_row_bnds', 'glp_set_col_bnds'):
        if args[2] in (g.GLP_LO, g.GLP_DB, g.GLP_FX):
            finite(name, args[3])
        if args[2] in (g.GLP_UP, g.GLP_DB):
            finite(name, args[4])


def wrap(name, real):
    def call(*args):
        MON.count(name)
        if MON.fault is not None and name != 'glp_delete_prob':
            e = MON.fault(name)
            if e is not None:
                raise e
        if name == 'glp_create_prob':
            lp = real(*args)
            MON.serial += 1
            MON.created += 1
            if int(lp) in MON.live:
                MON.problem('library handed out a live program')
            MON.live[int(lp)] = MON.serial
            return lp
        if args and is_prob(args[0]):
            check_live(name, args[0])
            if name == 'glp_delete_prob':
                del MON.live[int(args[0])]
                MON.deleted += 1
                return real(*args)
            if name == 'glp_copy_prob':
                check_live(name, args[1])
                if int(args[0]) == int(args[1]):
                    MON.problem('program copied onto itself')
                    raise ProtocolError(name)
            pre(name, args)
        if name == 'glp_simplex' and MON.simplex_fault is not None:
            code = MON.simplex_fault()
            if code:
                return code
        return real(*args)
    call.__name__ = name
    return call


def array_class(base, nm):
    class Arr(base):
        def __init__(self, n):
            if n < 1:
                MON.problem('%s of length %s' % (nm, n))
            base.__init__(self, n)
            self._mon_len = int(n)

        def __getitem__(self, i):
            if not 0 <= i < self._mon_len:
                MON.problem('%s: element %s of %d read' % (nm, i, self._mon_len))
                raise ProtocolError(nm)
            return base.__getitem__(self, i)

        def __setitem__(self, i, v):
            if not 0 <= i < self._mon_len:
                MON.problem('%s: element %s of %d written' % (nm, i, self._mon_len))
                raise ProtocolError(nm)
            return base.__setitem__(self, i, v)

        def raw_get(self, i):
            return base.__getitem__(self, i)
    Arr.__name__ = nm
    return Arr


def as_array(name, real):
    def call(lst):
        MON.count(name)
        arr = real(lst)
        arr._mon_len = len(lst) + 1
        return arr
    return call


def install():
    if REAL:
        return
    for name in dir(g):
        f = getattr(g, name)
        if name.startswith('glp_') and callable(f) and not isinstance(f, type):
            REAL[name] = f
            setattr(g, name, wrap(name, f))
    for name in ('intArray', 'doubleArray'):
        setattr(g, name, array_class(getattr(g, name), name))
    for name in ('as_intArray', 'as_doubleArray'):
        f = getattr(g, name)
        setattr(g, name, as_array(name, f))
