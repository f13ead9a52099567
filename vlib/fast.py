"""A solver object for flixOpt that hands the translated model to HiGHS in-process.

It reads whatever modelling objects the code under test produced (the pyomo model), so everything up to the solver call
is the code under test.  If that fails in any way it falls back to flixOpt's own HighsSolver."""
import numpy as np
from . import env, hs
env.setup_path()
import pyomo.environ as pyo
from pyomo.repn import generate_standard_repn


class NoPlan(RuntimeError):
    """no feasible plan exists (solver says infeasible)"""


class SolverTrouble(RuntimeError):
    """the solver gave no answer (numerical trouble, unbounded): the case decides nothing"""


def read_pyomo(model):
    lp = hs.LP()
    col = {}
    vs = []
    for v in model.component_data_objects(pyo.Var, descend_into=True):
        if v.fixed:
            continue
        lb, ub = v.lb, v.ub
        i = lp.var(-hs.INF if lb is None else lb, hs.INF if ub is None else ub, not v.is_continuous(), v.name)
        col[id(v)] = i
        vs.append(v)
    for c in model.component_data_objects(pyo.Constraint, active=True, descend_into=True):
        rep = generate_standard_repn(c.body, quadratic=False)
        if not rep.is_linear():
            raise ValueError('nonlinear')
        e = {}
        for a, v in zip(rep.linear_coefs, rep.linear_vars):
            e[col[id(v)]] = e.get(col[id(v)], 0.0) + float(a)
        k = float(rep.constant)
        lo = -hs.INF if c.lower is None else float(pyo.value(c.lower)) - k
        hi = hs.INF if c.upper is None else float(pyo.value(c.upper)) - k
        lp.row(e, lo, hi, c.name)
    objs = list(model.component_data_objects(pyo.Objective, active=True, descend_into=True))
    assert len(objs) == 1
    rep = generate_standard_repn(objs[0].expr, quadratic=False)
    sign = 1.0 if objs[0].sense == pyo.minimize else -1.0
    for a, v in zip(rep.linear_coefs, rep.linear_vars):
        lp.c[col[id(v)]] += sign * float(a)
    lp.offset = sign * float(rep.constant)
    return lp, vs, sign


def make_solver_class():
    fx = env.import_flixopt()
    from flixOpt.math_modeling import Solver

    class DirectHighs(Solver):
        def __init__(self, tol=1e-9, presolve=True):
            super().__init__(0.0, False, 'direct.log')
            self.tol, self.presolve = tol, presolve
            self.used = None

        def solve(self, modeling_language):
            try:
                lp, vs, sign = read_pyomo(modeling_language.model)
            except Exception:
                self.used = 'appsi'
                s = fx.solvers.HighsSolver(mip_gap=0, threads=1, solver_output_to_console=False)
                s.logfile_name = self.logfile_name
                s.solve(modeling_language)
                self.objective, self.best_bound = s.objective, s.best_bound
                self.termination_message, self.log = s.termination_message, s.log
                return
            self.used = 'direct'
            self.lp = lp
            r = hs.solve(lp, self.tol, self.presolve)
            if r.status == 'infeasible':
                raise NoPlan('A feasible solution was not found')
            if not r.ok:
                raise SolverTrouble(r.status)
            for v, x in zip(vs, r.x):
                v.set_value(float(x), skip_validation=True)
            self.objective = sign * r.obj
            self.best_bound = sign * r.bound
            self.termination_message = 'optimal'
            self.log = 'direct'
    return DirectHighs
