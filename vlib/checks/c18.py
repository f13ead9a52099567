"""C18: saved results against the results in memory; tables against the flows of the description."""
import copy, json, os, pathlib
import numpy as np
import yaml
from hypothesis import strategies as st
from .. import gen, sut, build, spectool, ref as R
from ..run import Skip
from . import c16

fx = sut.fx
from flixOpt import results as RES

NAMES = ['Wärme', 'Strom Netz', 'a.b', 'Null', '1e5', 'yes', '2020-01-01', "it's", '"q"', '100%', '#1', 'ä: b', '- x', '~', 'x|y', 'X|Y', 'n0', 'b0', 'NULL', 'a.B', '{k}',
         '[0]', '*', '&a', '!b', 'No', '3', 'Q(th)', 'A+B', 'a/b', 'a\\b', 'CO2 [kg]', '€', '=', '?', 'time', 'Buses', 'label', 'N0', 'B0',
         'on', 'size', 'é', '日本', 'a_b', 'a, b', '<b>', 'x' * 40]
FNAMES = ['in', 'Q_th', 'P el', '1', 'null', 'Null', 'x.y', 'ä', 'f', 'F', 'flow', 'Flow', 'time', "o'", '%', '2', 'Q_fu', 'true', 'bus', 'label', 'N0', 'B0', 'a b']


@st.composite
def fancy(draw, specs):
    """[spec, labels]: labels = None or {'comps':.., 'buses':.., 'effects':.., 'flows': [[comp, old, new], ..]}"""
    spec = draw(specs)
    m = draw(st.integers(0, 3))
    if m == 0:
        return [spec, None]
    k = draw(st.lists(st.integers(0, len(NAMES) - 1), unique=True, min_size=12, max_size=12))
    fk = draw(st.integers(0, len(FNAMES) - 1))
    pool = [NAMES[i] for i in k]
    out = {'comps': {}, 'buses': {}, 'effects': {}, 'flows': []}
    i = 0
    for kind, els in (('comps', spec['comps']), ('buses', spec['buses']), ('effects', spec['effects'])):
        for e in els:
            if i < len(pool):
                out[kind][e['label']] = pool[i]
                i += 1
    if m >= 2:
        for j, c in enumerate(spec['comps']):
            for q, f in enumerate(sum(R.flows_of(c), [])):
                s = fk + q if m == 2 else fk + 3 * j + q        # m == 2: the same labels in every component
                out['flows'].append([c['label'], f['label'], FNAMES[s % len(FNAMES)]])
    return [spec, out]


def relabeled(case):
    spec, lb = case
    if lb is None:
        return copy.deepcopy(spec)
    return spectool.relabel(spec, lb['comps'], {(c, o): n for c, o, n in lb['flows']}, lb['buses'], lb['effects'])


def plain(x):
    return x.tolist() if isinstance(x, (np.ndarray, np.generic)) else x


def same_data(mem, got, path, bad):
    """got (reloaded) against mem (in memory): same structure, same numbers"""
    if isinstance(mem, dict):
        if not isinstance(got, dict) or {str(k) for k in mem} != {str(k) for k in got}:
            bad.append(('values', f'{path}: {sorted(map(str, got)) if isinstance(got, dict) else got!r} expected {sorted(map(str, mem))}'))
            return
        for k in mem:
            same_data(mem[k], got[str(k)], f'{path}/{k}', bad)
        return
    m, g = plain(mem), plain(got)
    if isinstance(m, (list, tuple)):
        if not isinstance(g, list) or len(m) != len(g):
            bad.append(('values', f'{path}: {g!r} expected {m!r}'))
            return
        for i, (x, y) in enumerate(zip(m, g)):
            same_data(x, y, f'{path}[{i}]', bad)
        return
    if hasattr(m, 'isoformat'):
        m = m.isoformat()
    if isinstance(m, (int, float)) and isinstance(g, (int, float)) and not isinstance(g, bool):
        ok = float(m) == float(g)
    else:
        ok = type(m) is type(g) and m == g
    if not ok:
        bad.append(('values', f'{path}: {g!r} expected {m!r}'))


def stamps(spec, a, b):
    t = spec['time']
    s = build.stamps(t, t['dt'])
    if t.get('last') is not None:
        s[-1] = s[-2] + np.timedelta64(int(round(t['last'] * 3600 * 1e6)), 'us')
    return s[a:b + 1]


class Check:
    id = 'C18'
    rule = ('random systems (every component kind, odd labels, 1 us to 1 day resolution of the time stamps) calculated full, on a '
            'window, segmented or aggregated and saved to a folder; the reloaded results compared value by value with those in memory, '
            'every table of every flow, component and bus with the flows the description lists, for random factors and thresholds; '
            'non-trivial: a plan was saved and reloaded')
    profiles = [dict(n=(2, 8), irreg=40, arr=50, excess_only=0, extra=(0, 3)),
                dict(n=(3, 8), invest=50, cap_invest=50, effects=60, share=60, extra=(0, 3), onoff=40),
                dict(n=(3, 9), onoff=60, con_onoff=40, kinds=dict(source=1, conv=3, seg=2, named=2, storage=3, trans=2, sas=2), extra=(1, 3)),
                dict(n=(4, 9), irreg=0, arr=80, kinds=dict(storage=3, conv=1, named=1), extra=(1, 2))]
    quick, thorough = 900, 30000

    def strategy(self, tier):
        ok = [{k: v for k, v in p.items() if k in gen.DEF} for p in self.profiles]
        ok = ok * 4 + [dict(n=(47, 56), extra=(0, 1), arr=15, buses=(1, 2))]        # written in another layout from 50 steps on
        specs = st.one_of([gen.specs(**p) for p in ok])
        tab = st.tuples(st.sampled_from([-1, 1, None]), st.sampled_from([-1, 1, None]),
                        st.sampled_from([None, 1e-5, 0.0, 1.0, 3.0, 12.0]), st.booleans()).map(list)
        how = st.fixed_dictionaries({
            'kind': st.sampled_from(['full', 'full', 'window', 'seg', 'segwin', 'agg']), 'a': st.integers(0, 9), 'b': st.integers(0, 9),
            'name': st.sampled_from(['Calc', 'Sim 1', 'Fall Ä', 'x.y', 'v1_2', 'a-b', "it's", '100%', 'results']),
            'where': st.sampled_from(['str', 'abs', 'true', 'sub', 'path']),
            'fine': st.sampled_from([None, None, 's', 'ms', 'us']), 'res': st.sampled_from(['us', 'us', 'ns', 's', 'ms', 'm', 'h', 'D']),
            'start': st.sampled_from([None, '1999-12-31T22:00', '2024-02-28T20:00', '2021-03-28T00:00']),
            'tabs': st.lists(tab, min_size=2, max_size=4), 'two': st.booleans()})
        return st.tuples(fancy(specs), how).map(list)

    def run(self, case, ctx):
        from contextlib import suppress
        (spec, lb), h = copy.deepcopy(case)
        spec = relabeled([spec, lb])
        t = spec['time']
        n = len(t['dt'])
        if h['start']:
            t['start'] = h['start']
        t['res'] = h['res']
        if h['res'] == 'D':              # one step per day
            t['dt'] = [24.0] * n
            t.pop('last', None); t.pop('prev', None)
            t['start'] = t.get('start', '2020-01-01T00:00')[:10]
        elif h.get('fine') and h['kind'] != 'agg':
            build.finer(t, h['fine'])
            if ('ns', 'us', 'ms', 's', 'm', 'h').index(h['res']) > ('ns', 'us', 'ms', 's').index(h['fine']): t['res'] = h['fine']
        sec = [round(x * 3600 * 10**6) / 10**6 for x in t['dt']]
        if t['res'] == 'm' and any(s % 60 for s in sec) or t['res'] == 'h' and any(s % 3600 for s in sec):
            t['res'] = 's'
        kind = h['kind']
        if kind == 'agg' and (len(set(t['dt'])) > 1 or n < 4):
            kind = 'full'
        if kind == 'segwin' and n < 5 or kind == 'seg' and n < 3 or kind == 'window' and n < 2:
            kind = 'full'
        a, b, idx = 0, n, None
        if kind in ('window', 'segwin'):
            lo = 2 if kind == 'window' else 4
            if n - lo < 0: lo = n
            a = h['a'] % (n - lo + 1)
            b = a + lo + h['b'] % (n - a - lo + 1)
            idx = list(range(a, b)) if h['b'] % 2 else range(a, b)
        B = build.build(spec)
        base = pathlib.Path('save')
        where = {'str': 'save/r', 'abs': str(pathlib.Path.cwd() / 'save' / 'abs'), 'true': True, 'sub': 'save/a/b/c', 'path': pathlib.Path('save') / 'p'}[h['where']]
        folder = pathlib.Path('results') if where is True else pathlib.Path(where)
        name = h['name']
        calc, status = self.calculate(kind, B, spec, name, idx, a, b, h, where)
        ctx.tag(kind, status, t['res'])
        if status == 'trouble':
            raise Skip('solver')
        if status != 'optimal':
            return []
        if lb: ctx.tag('odd labels')
        seg = kind in ('seg', 'segwin')
        mem = calc.results(combined_arrays=True) if seg else calc.results()
        keep = copy.deepcopy(mem)
        if h['two'] and not seg:          # a second calculation in the same folder
            other = fx.FullCalculation(name + ' 2', B.fs, time_indices=range(0, max(2, n // 2)))
            other.do_modeling()
            sut.do_solve(other, save=where)
        cr = RES.CalculationResults(name, folder if h['a'] % 2 else str(folder))
        bad = []
        same_data(mem, cr.all_results, '', bad)
        if bad: return bad[:5]
        bad += self.axis(cr, spec, a, b)
        bad += self.elements(cr, spec, mem)
        if not bad: bad += self.tables(cr, spec, mem, h['tabs'], a, b)
        if not bad: bad += self.helpers(cr, spec, mem)
        if not bad and seg: bad += self.extra(calc, folder, name)
        if not bad: bad += self.info_file(cr, calc, spec, folder, name, kind)
        c16.compare(mem, keep, '', bad, 'altered')
        same_data(keep, cr.all_results, 'after use', bad)
        ctx.nontrivial = True
        return bad[:6]

    def calculate(self, kind, B, spec, name, idx, a, b, h, where):
        n = b - a
        if kind in ('seg', 'segwin'):
            L = 3 + h['a'] % max(1, n - 3)
            O = h['b'] % (n - L + 1)
            for mode in ('direct', 'nopre', 'loose'):
                c, s = c16.run_segmented(B.fs, L, O, idx, mode, where, name)
                if s != 'trouble':
                    break
            return c, s
        if kind == 'agg':
            k = 2 + h['a'] % 2
            P = -(-n // k)
            par = fx.AggregationParameters(hours_per_period=spec['time']['dt'][0] * k, nr_of_periods=1 + h['b'] % P, fix_storage_flows=True,
                                           aggregate_data_and_fix_non_binary_vars=bool(h['b'] % 2))
            c = fx.AggregatedCalculation(name, B.fs, par)
            B.fs.transform_data()
            if not any(ts.is_array for ts in B.fs.all_time_series) or any(ts.is_array and len(ts.data) != n for ts in B.fs.all_time_series):
                c = fx.FullCalculation(name, B.fs)
        else:
            c = fx.FullCalculation(name, B.fs, time_indices=idx)
        c.do_modeling()
        for mode in ('direct', 'nopre', 'loose'):
            s = sut.do_solve(c, mode, where)
            if s != 'trouble':
                break
        return c, s

    def axis(self, cr, spec, a, b):
        bad = []
        s = stamps(spec, a, b)
        if len(cr.time_with_end) != len(s) or not np.all(np.array(cr.time_with_end).astype('datetime64[us]') == s):
            bad.append(('time', f'{cr.time_with_end} expected {s}'))
        if len(cr.time) != len(s) - 1 or not np.all(np.array(cr.time).astype('datetime64[us]') == s[:-1]):
            bad.append(('time', f'{cr.time} expected {s[:-1]}'))
        dt = np.diff(s) / np.timedelta64(3600 * 10**6, 'us')
        if len(cr.time_intervals_in_hours) != len(dt) or not np.allclose(cr.time_intervals_in_hours, dt, rtol=1e-12, atol=0):
            bad.append(('time', f'step lengths {cr.time_intervals_in_hours} expected {dt}'))
        return bad

    def elements(self, cr, spec, mem):
        bad = []

        def names(what, got, want):
            if set(got) != set(want):
                bad.append(('elements', f'{what}: {sorted(got)} expected {sorted(want)}'))
        names('components', cr.component_results, [c['label'] for c in spec['comps']])
        names('buses', cr.bus_results, [x['label'] for x in spec['buses']])
        names('effects', set(cr.effect_results) - {'Penalty', 'penalty'}, [e['label'] for e in spec['effects']])
        fl = {f'{c["label"]}__{f["label"]}': (c, f, f in R.flows_of(c)[0]) for c, f in spectool.all_flows(spec)}
        fr = cr.flow_results()
        names('flows', fr, fl)
        if bad: return bad
        for q, (c, f, inp) in fl.items():
            x = fr[q]
            got = (x.label, x.label_full, x.component_label, x.bus_label, x.is_input_in_component)
            if got != (f['label'], q, c['label'], f['bus'], inp):
                bad.append(('elements', f'{q}: {got} expected {(f["label"], q, c["label"], f["bus"], inp)}'))
            same_data(mem['Components'][c['label']][f['label']], x.variables, q, bad)
            self.flat(mem['Components'][c['label']][f['label']], x, q, bad)
        for c in spec['comps']:
            x = cr.component_results[c['label']]
            ins, outs = R.flows_of(c)
            if ([f.label for f in x.inputs], [f.label for f in x.outputs]) != ([f['label'] for f in ins], [f['label'] for f in outs]):
                bad.append(('elements', f'{c["label"]}: flows {[f.label for f in x.inputs]} {[f.label for f in x.outputs]}'))
            for k, v in mem['Components'][c['label']].items():
                same_data(v, x.variables.get(k), f'{c["label"]}/{k}', bad)
            self.flat(mem['Components'][c['label']], x, c['label'], bad)
        for z in spec['buses']:
            x = cr.bus_results[z['label']]
            for got, inp in ((x.inputs, False), (x.outputs, True)):
                want = sorted(q for q, (c, f, i) in fl.items() if f['bus'] == z['label'] and i is inp)
                if sorted(f.label_full for f in got) != want:
                    bad.append(('elements', f'bus {z["label"]}: {[f.label_full for f in got]} expected {want}'))
            for k, v in mem.get('Buses', {}).get(z['label'], {}).items():
                same_data(v, x.variables.get(k), f'{z["label"]}/{k}', bad)
        for e in spec['effects']:
            same_data(mem['Effects'][e['label']], cr.effect_results[e['label']].all_results, e['label'], bad)
            self.flat(mem['Effects'][e['label']], cr.effect_results[e['label']], e['label'], bad)
        return bad

    def flat(self, d, x, what, bad):
        def rec(d, p):
            for k, v in d.items():
                if isinstance(v, dict):
                    yield from rec(v, p + [str(k)])
                else:
                    yield '__'.join(p + [str(k)]), v
        want = list(rec(d, []))
        got = x.variables_flat
        if len(got) != len(want):
            bad.append(('flat', f'{what}: {len(got)} values, {len(want)} expected: {sorted(got)} {sorted(k for k, _ in want)}'))
            return
        keys = [k for k, _ in want]
        for k, v in want:
            if keys.count(k) == 1:
                if k not in got:
                    bad.append(('flat', f'{what}: {k} missing'))
                else:
                    same_data(v, got[k], f'flat {what}/{k}', bad)

    def tables(self, cr, spec, mem, tabs, a, b):
        bad = []
        s = stamps(spec, a, b).astype('datetime64[ns]')
        n = b - a
        els = []
        for c in spec['comps']:
            ins, outs = R.flows_of(c)
            q = lambda f: (f'{c["label"]}__{f["label"]}', np.array(mem['Components'][c['label']][f['label']]['flow_rate'], float) * np.ones(n))
            els.append((c['label'], [q(f) for f in ins], [q(f) for f in outs]))
            for f in ins + outs:
                els.append((f'{c["label"]}__{f["label"]}', None, [('flow_rate', q(f)[1])]))
        for z in spec['buses']:
            ins, outs = [], []
            for c, f in spectool.all_flows(spec):
                if f['bus'] == z['label']:
                    e = (f'{c["label"]}__{f["label"]}', np.array(mem['Components'][c['label']][f['label']]['flow_rate'], float) * np.ones(n))
                    (outs if f in R.flows_of(c)[0] else ins).append(e)
            for key, nm, l in (('excess_input', 'Excess Input', ins), ('excess_output', 'Excess Output', outs)):
                if key in mem.get('Buses', {}).get(z['label'], {}):
                    l.append((nm, np.array(mem.get('Buses', {}).get(z['label'], {})[key], float)))
                elif R.raw(z.get('pen')) is not None and np.any(np.asarray(R.raw(z['pen'])) != 0):
                    bad.append(('tables', f'bus {z["label"]} allows excess, but its results lack {key}: {list(mem["Buses"][z["label"]])}'))
            els.append((z['label'], ins, outs))
        for lab, ins, outs in els:
            for fi, fo, th, last in tabs:
                if ins is None:           # a flow: neither factor applies
                    want = dict(outs)
                else:
                    want = {k: v * fi for k, v in ins} if fi is not None else {}
                    if fo is not None:
                        want.update({k: v * fo for k, v in outs})
                if th is not None:
                    if any(abs(np.max(np.abs(v)) - th) < 1e-9 for v in want.values()):
                        th = th + 0.01
                    want = {k: v for k, v in want.items() if np.max(np.abs(v)) > th}
                df = cr.to_dataframe(lab, 'flow_rate', fi, fo, th, last)
                what = f'table of {lab} ({fi}, {fo}, {th}, {last})'
                if list(df.columns) != list(want) and sorted(df.columns) != sorted(want):
                    bad.append(('tables', f'{what}: columns {list(df.columns)} expected {list(want)}'))
                    return bad
                if not want:
                    if len(df.index) and df.size:
                        bad.append(('tables', f'{what}: not empty'))
                    continue
                ix = s if last else s[:-1]
                if len(df) != len(ix) or not np.all(df.index.values.astype('datetime64[ns]') == ix):
                    bad.append(('tables', f'{what}: index {df.index.values} expected {ix}'))
                    return bad
                for k, v in want.items():
                    w = np.append(v, v[-1]) if last else v
                    if not np.array_equal(df[k].values, w):
                        bad.append(('tables', f'{what}: {k} is {df[k].values} expected {w}'))
                        return bad
        for lab, var in (('no such element', 'flow_rate'), (spec['comps'][0]['label'], 'no such variable'),
                         (els[1][0], 'no such variable'), (spec['buses'][0]['label'], 'no such variable')):
            try:
                cr.to_dataframe(lab, var)
                bad.append(('tables', f'to_dataframe({lab!r}, {var!r}) gives a table'))
            except ValueError:
                pass
        # the defaults: inputs negative, outputs positive, columns without values above 1e-5 left out
        d1, d2 = cr.to_dataframe(els[0][0]), cr.to_dataframe(els[0][0], 'flow_rate', -1, 1, 1e-5, True)
        if not d1.equals(d2):
            bad.append(('tables', f'defaults of to_dataframe for {els[0][0]}: {d1.to_dict()} expected {d2.to_dict()}'))
        return bad

    def helpers(self, cr, spec, mem):
        bad = []
        c = spec['comps'][0]
        f = sum(R.flows_of(c), [])[0]['label']
        paths = [[f, 'flow_rate'], ['charge_state'], [f], ['OnOff', 'on'], ['nothing'], [f, 'flow_rate', 'x'], [], ['OnOff']]
        for p in paths:
            want = {}
            for k, d in mem['Components'].items():
                for x in p:
                    d = d.get(x) if isinstance(d, dict) else None
                want[k] = d
            got = RES.extract_results(cr.all_results['Components'], p, keep_none=True)
            same_data(want, got, f'extract {p}', bad)
            got = RES.extract_results(cr.all_results['Components'], p)
            same_data({k: v for k, v in want.items() if v is not None}, got, f'extract {p}', bad)
            same_data(want[c['label']], RES.extract_single_result(cr.all_results['Components'], [c['label']] + p), f'extract one {p}', bad)
        return bad

    def extra(self, calc, folder, name):
        bad = []
        with open(folder / f'{name}_results_extra.json', encoding='utf-8') as f:
            x = json.load(f)
        same_data({'Individual Results': calc.results(individual_results=True), 'Skalar Results': calc.results(combined_scalars=True)},
                  x, 'extra', bad)
        return bad

    def info_file(self, cr, calc, spec, folder, name, kind):
        bad = []
        with open(folder / f'{name}_infos.yaml', encoding='utf-8') as f:
            x = yaml.safe_load(f)
        if x['Calculation']['Name'] != name or x['Calculation']['Calculation Type'] != type(calc).__name__:
            bad.append(('infos', f'{x["Calculation"]}'))
        for k, want in (('Components', spec['comps']), ('Buses', spec['buses']), ('Effects', spec['effects'])):
            if {str(q) for q in x['FlowSystem'][k]} != {q['label'] for q in want}:
                bad.append(('infos', f'{k}: {list(x["FlowSystem"][k])}'))
        with open(folder / f'{name}_data.json', encoding='utf-8') as f:
            d = json.load(f)
        for k, want in (('Components', spec['comps']), ('Buses', spec['buses']), ('Effects', spec['effects'])):
            if set(d[k]) != {q['label'] for q in want} or any(v['label'] != q for q, v in d[k].items()):
                bad.append(('infos', f'data {k}: {list(d[k])}'))
        n, e = x['Network']['Nodes'], x['Network']['Edges']
        if set(n) != {q['label'] for q in spec['comps'] + spec['buses']}:
            bad.append(('infos', f'network nodes {list(n)}'))
        if set(e) != {f'{c["label"]}__{f["label"]}' for c, f in spectool.all_flows(spec)}:
            bad.append(('infos', f'network edges {list(e)}'))
        return bad

    def matches_known(self, k, case, bad):
        return False
