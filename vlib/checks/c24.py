"""C24: summary and files of calculations, over histories of calculations that share one solver object."""
import json, os, pathlib, shutil, tempfile
import numpy as np
import yaml
from hypothesis import strategies as st
from .. import gen, sut, build, spectool, ref as R
from . import c15

fx = sut.fx
GAPS = (0, 0.01, 0.001, 0.2)
NAMES = ('calc', 'Calc 2', 'a.b', 'Übung', 'x_results', 'calc')
OP = st.fixed_dictionaries({'kind': st.sampled_from(['full', 'full', 'agg', 'seg']), 'save': st.integers(0, 4), 'name': st.integers(0, len(NAMES) - 1),
                            'all': st.booleans(), 'a': st.integers(0, 9), 'b': st.integers(0, 9), 'x': st.integers(0, 9), 'y': st.integers(0, 9),
                            'solver': st.integers(0, 1)})


def listing(d):
    return {str(p.relative_to(d)): (p.stat().st_mtime_ns, p.stat().st_size) for p in pathlib.Path(d).rglob('*') if p.is_file()}


def close(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))


def plain(x):
    if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    if isinstance(x, np.ndarray): return plain(x.tolist())
    if isinstance(x, np.datetime64): return str(x.astype('datetime64[us]'))
    if isinstance(x, np.generic): return x.item()
    return x if isinstance(x, (int, float, str)) or x is None else str(x)


def numbers(a, b, path=''):
    """first difference between the numbers of two nested structures (time stamps and texts are C18's)"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b): return f'{path}: keys {sorted(a)} / {sorted(b)}'
        return next((d for k in a for d in [numbers(a[k], b[k], f'{path}/{k}')] if d), None)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return f'{path}: {a} / {b}'
        return next((d for i in range(len(a)) for d in [numbers(a[i], b[i], f'{path}[{i}]')] if d), None)
    if isinstance(a, str) or isinstance(b, str):
        return None if type(a) is type(b) else f'{path}: {a!r} / {b!r}'
    if a is None or b is None:
        return None if a is b else f'{path}: {a!r} / {b!r}'
    return None if close(a, b, 1e-12) else f'{path}: {a!r} / {b!r}'


def main_results(spec, main, res, bad, what):
    """the section 'Main Results' against the results of the plan"""
    E = res['Effects']
    want = {f'{e["label"]} [u]': (E[e['label']]['operation']['operation_sum'], E[e['label']]['invest']['invest_sum'], E[e['label']]['all']['all_sum'])
            for e in spec['effects']}
    if set(main['Effects']) != set(want):
        bad.append(('main', f'{what}: effects {sorted(main["Effects"])}, expected {sorted(want)}'))
    else:
        for k, w in want.items():
            g = tuple(main['Effects'][k][x] for x in ('operation', 'invest', 'sum'))
            if not all(close(x, y) for x, y in zip(g, w)):
                bad.append(('main', f'{what}: effect {k} operation/invest/sum {g}, results {tuple(map(float, w))}'))
    if not close(main['penalty'], E['penalty']['penalty_sum']):
        bad.append(('main', f'{what}: penalty {main["penalty"]}, results {E["penalty"]["penalty_sum"]}'))
    if not close(main['Objective'], res['Objective']):
        bad.append(('main', f'{what}: objective {main["Objective"]}, results {res["Objective"]}'))
    used = {f['bus'] for _, f in spectool.all_flows(spec)}
    must, may = set(), set()
    for b in spec['buses']:
        if b['pen'] is None or b['label'] not in used:
            continue
        s = max(float(np.sum(res['Buses'][b['label']][k])) for k in ('excess_input', 'excess_output'))
        if s > 2e-3: must.add(b['label'])
        if s > 5e-4: may.add(b['label'])
    got = main['buses with excess']
    if len(set(got)) != len(got) or not must <= set(got) <= may:
        bad.append(('main', f'{what}: buses with excess {got}, expected {sorted(must)}'))
    sizes = {}
    for c in spec['comps']:
        for f in sum(R.flows_of(c), []):
            if R.invest_of_flow(c, f) is not None:
                sizes[f'{c["label"]}__{f["label"]}'] = res['Components'][c['label']][f['label']]['Investment']['size']
        if c['kind'] == 'storage' and isinstance(c['cap'], dict):
            sizes[c['label']] = res['Components'][c['label']]['Investment']['size']
    inv = main['Invest-Decisions']
    both = {**inv['invested'], **inv['not invested']}
    if set(both) != set(sizes) or len(inv['invested']) + len(inv['not invested']) != len(sizes):
        bad.append(('main', f'{what}: investments {inv}, expected {sorted(sizes)}'))
        return
    for k, s in sizes.items():
        s = float(s)
        if not close(both[k], s) or (s > 2e-3 and k not in inv['invested']) or (s < 5e-4 and k in inv['invested']):
            bad.append(('main', f'{what}: investment {k} of size {s} listed as {inv}'))


def model_size(calc, info, bad, what):
    """'Model Size' against the model handed to the solver"""
    import pyomo.environ as pyo
    m = calc.system_model.model.model
    nv = sum(1 for _ in m.component_data_objects(pyo.Var))
    cs = list(m.component_data_objects(pyo.Constraint))
    eq = sum(1 for c in cs if c.equality)
    g = info['Model Size']
    if (g['No. of Vars. (single)'], g['No. of Eqs. (single)'], g['No. of Ineqs. (single)']) != (nv, eq, len(cs) - eq):
        bad.append(('size', f'{what}: model size {g}, the model solved has {nv} variables, {eq} equations, {len(cs) - eq} inequations'))


class Check:
    id = 'C24'
    rule = ('histories of 1-4 full, aggregated and segmented calculations of generated systems, solved by HighsSolver objects they share, saved '
            '(to a name, a nested folder, a Path, the default) or not; the files in the working directory are compared before and after each, the '
            'info file with the results of the very calculation; non-trivial: a plan was saved')
    assumptions = ['the log of a segmented calculation is not judged beyond not appearing elsewhere than the folder or the file of the solver',
                   'sums of excess and sizes between 0.0005 and 0.002 may be listed either way (the listing threshold is 0.001)']
    quick, thorough = 800, 20000
    profiles = [dict(n=(4, 8), irreg=0, arr=70, last=0, extra=(0, 2), effects=60, share=40, invest=35, cap_invest=40, pen_none=8, tr_inv=40, pen_small=40),
                dict(n=(4, 8), irreg=0, arr=60, last=0, extra=(0, 2), onoff=25, effects=40, pen_small=30, pen_none=8),
                dict(n=(3, 7), irreg=60, extra=(0, 3), invest=25, effects=40, cap_invest=40, inv_seg=15, pen_small=20, res=0)]

    def strategy(self, tier):
        return st.one_of([st.tuples(gen.specs(**p), st.lists(OP, min_size=1, max_size=4)).map(list) for p in self.profiles])

    def run(self, case, ctx):
        spec, ops = case
        cwd = os.getcwd()
        d = tempfile.mkdtemp(dir=cwd)
        os.chdir(d)
        try:
            return self.history(spec, ops, ctx, d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    def history(self, spec, ops, ctx, d):
        n = len(spec['time']['dt'])
        inv = c15.R_inv(spec)
        even = len(set(spec['time']['dt'])) == 1 and spec['time'].get('last') in (None, spec['time']['dt'][0])
        if any(o['kind'] == 'agg' for o in ops):
            spec = c15.scalar_bounds(spec)
        B = build.build(spec)
        gap = GAPS[ops[0]['y'] % len(GAPS)]
        solvers = [fx.solvers.HighsSolver(mip_gap=gap, threads=1, solver_output_to_console=False, logfile_name=lf) for lf in ('own.log', 'second log.txt')]
        bad = []
        for k, o in enumerate(ops):
            kind = o['kind']
            lo = 4 if kind != 'full' else 2
            a = o['a'] % max(1, n - lo + 1)
            b = min(n, a + lo + o['b'] % max(1, n - a - lo + 1))
            if o['all']: a, b = 0, n
            if kind == 'seg' and (inv or b - a < 4): kind = 'full'
            if kind == 'agg' and (not even or b - a < 4 or not c15.varies(spec, a, b)): kind = 'full'
            name = NAMES[o['name']]
            solver = solvers[o['solver']]
            own = ('own.log', 'second log.txt')[o['solver']]
            save, folder = [(False, None), ('out', 'out'), ('deep/er', 'deep/er'), (pathlib.Path('p'), 'p'), (True, 'results')][o['save']]
            idx = {} if o['all'] else {'time_indices': list(range(a, b)) if o['x'] % 2 else range(a, b)}
            what = f'calculation {k} ({kind} {a}..{b - 1}, {name!r}, save_results={save})'
            before = listing(d)
            try:
                if kind == 'seg':
                    L = 3 + o['x'] % (b - a - 3)
                    calc = fx.SegmentedCalculation(name, B.fs, L, o['y'] % (b - a - L + 1), **idx)
                    calc.do_modeling_and_solve(solver, save_results=save)
                else:
                    if kind == 'agg':
                        h = spec['time']['dt'][0]
                        P = -(-(b - a) // 2)
                        calc = fx.AggregatedCalculation(name, B.fs, fx.AggregationParameters(
                            hours_per_period=2 * h, nr_of_periods=1 + o['y'] % P, fix_storage_flows=False, aggregate_data_and_fix_non_binary_vars=o['y'] % 2 > 0), **idx)
                    else:
                        calc = fx.FullCalculation(name, B.fs, **idx)
                    calc.do_modeling()
                    if o['save'] == 0 and o['y'] % 2:
                        calc.solve(solver)
                    else:
                        calc.solve(solver, save_results=save)
                status = 'plan'
            except RuntimeError as e:
                if 'feasible solution was not found' not in str(e):
                    raise
                status = 'infeasible'
            ctx.tag(status, 'kind:' + kind, 'saved' if save else 'not saved')
            after = listing(d)
            fresh = {f for f in after if after[f] != before.get(f)}
            if kind == 'agg': fresh.discard('temp-plot.html')  # the plot that an aggregated calculation shows
            gone = set(before) - set(after)
            pre = f'{folder}/{name}_'
            must = set()
            allowed = {own} if not save or kind == 'seg' else {pre + 'solver.log'}
            if kind == 'seg' and save: allowed.add(pre + 'solver.log')
            if kind != 'seg': must |= allowed
            if save and status == 'plan':
                must |= {pre + x for x in ('results.json', 'data.json', 'infos.yaml')}
                if kind == 'seg': must.add(pre + 'results_extra.json')
            if gone or not must <= fresh <= must | allowed:
                bad.append(('files', f'{what}: {status}, written {sorted(fresh)}, deleted {sorted(gone)}, expected {sorted(must)}'))
                break
            if status != 'plan':
                continue
            if kind != 'seg':
                ob, lb = float(calc.results()['Objective']), float(calc.system_model.solver.best_bound)
                if lb > ob + 1e-6 * (1 + abs(ob)) or ob - lb > gap * abs(ob) + 1e-6 * (1 + abs(ob)):
                    bad.append(('gap', f'{what}: objective {ob}, bound {lb}, asked for a gap of {gap}'))
            if not save:
                continue
            ctx.nontrivial = True
            info = yaml.safe_load(open(pre + 'infos.yaml', encoding='utf-8'))
            c = info['Calculation']
            typ = {'full': 'FullCalculation', 'agg': 'AggregatedCalculation', 'seg': 'SegmentedCalculation'}[kind]
            if (c.get('Name'), c.get('Number of indices'), c.get('Calculation Type')) != (name, 'all' if o['all'] else b - a, typ):
                bad.append(('calculation', f'{what}: described as {c}'))
            du = c.get('Durations') or {}
            if set(du) - {'aggregation'} != {'modeling', 'solving', 'saving'} or any(not isinstance(v, (int, float)) or v < 0 for v in du.values()):
                bad.append(('calculation', f'{what}: durations {du}'))
            if kind == 'seg':
                sub = calc.sub_calculations[0]
                main_results(spec, info['Model']['Main Results'], sub.results(), bad, what + ' first segment')
                model_size(sub, info['Model'], bad, what + ' first segment')
                extra = json.load(open(pre + 'results_extra.json', encoding='utf-8'))
                diff = numbers(extra, plain({'Individual Results': calc.results(individual_results=True), 'Skalar Results': calc.results(combined_scalars=True)}))
                if diff:
                    bad.append(('extra', f'{what}: {diff}'))
                saved = calc.results(combined_arrays=True)
            else:
                main_results(spec, info['Model']['Main Results'], calc.results(), bad, what)
                if not close(info['Model']['Main Results']['lower bound'], calc.system_model.solver.best_bound):
                    bad.append(('main', f'{what}: lower bound'))
                model_size(calc, info['Model'], bad, what)
                saved = calc.results()
            diff = numbers(json.load(open(pre + 'results.json', encoding='utf-8')), plain(saved))
            if diff:
                bad.append(('results', f'{what}: results file {diff}'))
            if bad:
                break
        return bad[:5]

    def matches_known(self, k, case, bad):
        return False
