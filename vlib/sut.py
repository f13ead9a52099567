"""Solving a spec with flixOpt and comparing with the reference."""
import hashlib, json
import numpy as np
from . import env
fx = env.import_flixopt()
from . import build as B_, fast, ref as R, oracle
from .run import Skip

DH = fast.make_solver_class()


def h8(case):
    return int(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)


def real_solver():
    return fx.solvers.HighsSolver(mip_gap=0, threads=1, solver_output_to_console=False)


class Out:
    """status 'optimal' | 'infeasible' | 'trouble', obj, results"""
    def __init__(self, status, obj=None, res=None, calc=None, B=None, solver=None):
        self.status, self.obj, self.res, self.calc, self.B, self.solver = status, obj, res, calc, B, solver


def do_solve(calc, mode='direct', save=False):
    """mode: direct | nopre | loose | real -> status"""
    kw = {'save_results': save} if save else {}
    try:
        if mode == 'real':
            calc.solve(real_solver(), **kw)
        else:
            calc.solve(DH(tol=1e-7 if mode == 'loose' else 1e-9, presolve=mode != 'nopre'), **kw)
        return 'optimal'
    except fast.NoPlan:
        return 'infeasible'
    except fast.SolverTrouble:
        return 'trouble'
    except RuntimeError as e:
        if 'feasible solution was not found' in str(e):
            return 'infeasible'
        raise


def solve_spec(spec, mode='direct', order=None, indices=None, B=None, cls=None):
    B = B or B_.build(spec, order=order)
    kw = {} if indices is None else {'time_indices': indices}
    calc = fx.FullCalculation('calc', B.fs, **kw)
    calc.do_modeling()
    return solve_calc(calc, mode, B)


def solve_calc(calc, mode='direct', B=None):
    st = do_solve(calc, mode)
    if st == 'trouble':
        for m in ('nopre', 'loose'):
            st = do_solve(calc, m)
            if st != 'trouble':
                break
    if st == 'optimal':
        res = calc.results()
        return Out(st, float(np.asarray(res['Objective'])), res, calc, B)
    return Out(st, None, None, calc, B)


def close(a, b, tol=2e-6):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def same(sa, oa, sb, ob, tol=2e-6):
    return sa == sb and (sa != 'optimal' or close(oa, ob, tol))


def resolve_again(calc, modes):
    """other answers of the same model (a fresh solve each)"""
    out = []
    for m in modes:
        st = do_solve(calc, m)
        obj = float(calc.system_model.result_of_objective) if st == 'optimal' else None
        out.append((st, obj, m))
    return out


def differ(out, rf, r, ctx, tol=2e-6):
    """None if flixOpt's answer is that of the reference (retried with other solver settings), else a message"""
    if same(out.status, out.obj, r.status, r.obj, tol):
        return None
    a = [(out.status, out.obj, 'first')]
    b = [(r.status, r.obj)]
    for kw in ({'presolve': False}, {'tol': 1e-7}):
        q = rf.solve(**kw)
        b.append((q.status, q.obj))
    a += resolve_again(out.calc, ('nopre', 'loose', 'direct'))
    for x in a:
        for y in b:
            if same(x[0], x[1], y[0], y[1], tol * 3):
                ctx.tag('solver_settings_disagree')
                return None
    if all(x[0] == 'trouble' for x in a) or all(y[0] not in ('optimal', 'infeasible') for y in b):
        raise Skip('solver')
    return f'flixOpt {out.status} {out.obj}, described problem {r.status} {r.obj} (retries {a[1:]} / {b[1:]})'
