"""Direct HiGHS access: one function that solves a MILP given as columns and rows."""
import numpy as np
import highspy

INF = float('inf')


class LP:
    """min c x + offset; rl <= A x <= ru; lb <= x <= ub; some x integer."""

    def __init__(self):
        self.c, self.lb, self.ub, self.integ, self.names = [], [], [], [], []
        self.rows = []                      # (dict col->coef, lo, hi, name)
        self.offset = 0.0

    def var(self, lb=0.0, ub=INF, integer=False, name=''):
        self.lb.append(float(lb)); self.ub.append(float(ub)); self.c.append(0.0)
        self.integ.append(bool(integer)); self.names.append(name)
        return len(self.c) - 1

    def bin(self, name=''):
        return self.var(0, 1, True, name)

    def row(self, expr, lo=-INF, hi=INF, name=''):
        const = expr.get(None, 0.0) if None in expr else 0.0
        e = {k: float(v) for k, v in expr.items() if k is not None and v != 0}
        self.rows.append((e, lo - const, hi - const, name))

    def eq(self, expr, rhs=0.0, name=''):
        self.row(expr, rhs, rhs, name)

    def le(self, expr, rhs=0.0, name=''):
        self.row(expr, -INF, rhs, name)

    def ge(self, expr, rhs=0.0, name=''):
        self.row(expr, rhs, INF, name)


class Result:
    def __init__(self, status, x=None, obj=None, bound=None):
        self.status, self.x, self.obj, self.bound = status, x, obj, bound

    @property
    def ok(self):
        return self.status == 'optimal'


def solve(lp: LP, tol=1e-9, presolve=True, time_limit=60.0) -> Result:
    # rows without columns are decided here
    for e, lo, hi, name in lp.rows:
        if not e and (lo > 1e-9 or hi < -1e-9):
            return Result('infeasible')
    n = len(lp.c)
    if n == 0:
        return Result('optimal', np.zeros(0), lp.offset, lp.offset)
    for a, b in zip(lp.lb, lp.ub):
        if a > b + 1e-9:
            return Result('infeasible')
    h = highspy.Highs()
    h.setOptionValue('output_flag', False)
    h.setOptionValue('threads', 1)
    h.setOptionValue('mip_rel_gap', 0.0)
    h.setOptionValue('mip_abs_gap', 1e-9)
    h.setOptionValue('time_limit', float(time_limit))
    h.setOptionValue('primal_feasibility_tolerance', tol)
    h.setOptionValue('dual_feasibility_tolerance', tol)
    h.setOptionValue('mip_feasibility_tolerance', tol)
    if not presolve:
        h.setOptionValue('presolve', 'off')
    m = highspy.HighsLp()
    rows = [r for r in lp.rows if r[0]]
    m.num_col_ = n
    m.num_row_ = len(rows)
    m.col_cost_ = np.array(lp.c, float)
    m.col_lower_ = np.minimum(np.array(lp.lb, float), np.array(lp.ub, float))
    m.col_upper_ = np.array(lp.ub, float)
    m.row_lower_ = np.array([r[1] for r in rows], float)
    m.row_upper_ = np.array([r[2] for r in rows], float)
    m.offset_ = float(lp.offset)
    start, idx, val = [0], [], []
    for e, _, _, _ in rows:
        idx.extend(e.keys()); val.extend(e.values()); start.append(len(idx))
    m.a_matrix_.format_ = highspy.MatrixFormat.kRowwise
    m.a_matrix_.start_ = np.array(start, np.int32)
    m.a_matrix_.index_ = np.array(idx, np.int32)
    m.a_matrix_.value_ = np.array(val, float)
    if any(lp.integ):
        m.integrality_ = [highspy.HighsVarType.kInteger if b else highspy.HighsVarType.kContinuous for b in lp.integ]
    h.passModel(m)
    h.run()
    st = h.getModelStatus()
    S = highspy.HighsModelStatus
    if st == S.kOptimal:
        return Result('optimal', np.array(h.getSolution().col_value), h.getInfo().objective_function_value,
                      h.getInfo().objective_function_value)
    if st == S.kInfeasible:
        return Result('infeasible')
    if st == S.kUnbounded:
        return Result('unbounded')
    if st == S.kUnboundedOrInfeasible and presolve:
        return solve(lp, tol, presolve=False, time_limit=time_limit)
    return Result('unknown:' + str(st))
