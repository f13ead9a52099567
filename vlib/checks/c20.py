"""C20: exported descriptions against a record of what the user passed."""
import ast, copy, datetime, inspect, json, os
import numpy as np
import yaml
from hypothesis import strategies as st
from .. import gen, sut, build, spectool, ref as R
from ..run import Skip
from . import c19
from .c18 import fancy, relabeled      # labels of every kind

fx = sut.fx
from flixOpt import structure as S, core, interface
from flixOpt.structure import copy_and_convert_datatypes, get_compact_representation

# ------------------------------------------------------------------ nested data
NUM = st.one_of(st.integers(-10**6, 10**6).map(lambda v: ['i', v]), st.integers(-4000, 4000).map(lambda v: ['f', v / 8]),
                st.floats(allow_nan=False, allow_infinity=False, width=32).map(lambda v: ['f', v]))
# no control characters or exotic line breaks: PyYAML itself does not bring them back
TXT = st.one_of(st.text(st.one_of(st.characters(exclude_categories=['Cs', 'Cc', 'Zl', 'Zp'], exclude_characters='\ufeff'), st.sampled_from('\n\t ')), max_size=8), st.sampled_from(['', 'null', '1e5', 'yes', '2020-01-01', 'a: b', '- x', '€/kWh', 'ä\nb', '[red]x[/red]',
                                                      '{}', '#', ':smile:', "it's", '"q"', '~', '=', '%', '\t']))
ISO = st.integers(0, 10**6).map(lambda m: str(np.datetime64('2020-01-01T00:00', 'm') + m))


def leaf():
    return st.one_of(
        NUM, TXT.map(lambda v: ['s', v]), st.just(['n']), st.booleans().map(lambda v: ['b', v]),
        st.tuples(st.integers(-128, 127), st.sampled_from(['int8', 'int32', 'int64', 'uint8'])).map(
            lambda t: ['npi', abs(t[0]) if t[1][0] == 'u' else t[0], t[1]]),
        st.tuples(st.integers(-800, 800), st.sampled_from(['float32', 'float64', 'float16'])).map(lambda t: ['npf', t[0] / 8, t[1]]),
        st.booleans().map(lambda v: ['npb', v]), ISO.map(lambda v: ['dt', v]), ISO.map(lambda v: ['date', v[:10]]),
        st.lists(st.integers(-9000, 9000).map(lambda v: v / 128), min_size=1, max_size=6).map(lambda v: ['a', v, 'float64']),
        st.lists(st.integers(-9000, 9000), min_size=1, max_size=6).map(lambda v: ['a', v, 'int64']),
        st.tuples(st.one_of(st.integers(51, 80), st.integers(20, 52)), st.integers(-20, 20), st.integers(1, 7)).map(
            lambda t: ['a', [t[1] + (k * t[2] % 11) / 4 for k in range(t[0])], 'float64']),
        st.lists(st.booleans(), min_size=1, max_size=4).map(lambda v: ['a', v, 'bool']),
        st.lists(TXT.filter(lambda s: '\0' not in s), min_size=1, max_size=3).map(lambda v: ['a', v, 'str']),
        st.lists(ISO, min_size=1, max_size=3).map(lambda v: ['adt', v, 's']),
        st.tuples(st.integers(1, 12), st.integers(1, 8)).map(lambda t: ['a2', [[(i * 7 + j) / 4 for j in range(t[1])] for i in range(t[0])]]),
        st.lists(st.integers(-20, 20).map(lambda v: v / 4), min_size=2, max_size=5).map(lambda v: ['tsd', v]),
        st.lists(st.integers(-20, 20).map(lambda v: v / 4), min_size=2, max_size=5).map(lambda v: ['ts', v]),
        st.integers(-20, 20).map(lambda v: ['tsd', v / 4]), st.sampled_from([['el', 'costs'], ['ip', 3.5], ['oo', 2]]))


KEY = st.one_of(TXT.map(lambda v: ['s', v]), st.integers(-5, 99).map(lambda v: ['i', v]), st.just(['el', 'costs']),
                st.integers(0, 9).map(lambda v: ['npi', v, 'int64']))


def trees():
    def grow(x):
        return st.one_of(st.lists(x, max_size=4).map(lambda v: ['l', v]), st.lists(x, max_size=3).map(lambda v: ['t', v]),
                         st.lists(NUM, min_size=1, max_size=5).map(lambda v: ['l', v]),
                         st.lists(st.integers(0, 50), max_size=4, unique=True).map(lambda v: ['set', v]),
                         st.lists(st.tuples(KEY, x).map(list), max_size=4, unique_by=lambda t: str(t[0][1])).map(lambda v: ['d', v]))
    return st.recursive(leaf(), grow, max_leaves=8)


def make(t):
    """the Python object a tree stands for"""
    k = t[0]
    if k in ('i', 'f', 's', 'b'): return t[1]
    if k == 'n': return None
    if k in ('npi', 'npf'): return getattr(np, t[2])(t[1])
    if k == 'npb': return np.bool_(t[1])
    if k == 'dt': return datetime.datetime.fromisoformat(t[1])
    if k == 'date': return datetime.date.fromisoformat(t[1])
    if k == 'a': return np.array(t[1], dtype=t[2])
    if k == 'a2': return np.array(t[1], dtype=float)
    if k == 'adt': return np.array(t[1], dtype=f'datetime64[{t[2]}]')
    if k == 'tsd': return fx.TimeSeriesData(np.array(t[1]) if isinstance(t[1], list) else t[1])
    if k == 'ts': return core.TimeSeries('x', np.array(t[1]))
    if k == 'el': return fx.Effect(t[1], 'u', 'd')
    if k == 'ip': return fx.InvestParameters(fixed_size=t[1])
    if k == 'oo': return fx.OnOffParameters(switch_on_total_max=t[1])
    if k == 'l': return [make(x) for x in t[1]]
    if k == 't': return tuple(make(x) for x in t[1])
    if k == 'set': return set(t[1])
    if k == 'd': return {make(a): make(b) for a, b in t[1]}
    raise ValueError(k)


class Arr(list):
    """numbers that may come out as an array or as a list"""


def want(t, lab):
    """what the export must contain (plain data)"""
    k = t[0]
    if k in ('i', 'f', 's', 'b'): return t[1]
    if k == 'n': return None
    if k in ('npi', 'npf'): return make(t).item()
    if k == 'npb': return bool(t[1])
    if k in ('dt', 'date'): return make(t).isoformat()
    if k == 'a': return Arr(t[1])
    if k == 'a2': return [Arr(x) for x in t[1]]
    if k == 'adt': return Arr([datetime.datetime.fromisoformat(x).isoformat() for x in t[1]])
    if k == 'tsd': return Arr(t[1]) if isinstance(t[1], list) else t[1]
    if k == 'ts':
        return t[1][0] if len(set(t[1])) == 1 else Arr(t[1])
    if k == 'el': return t[1] if lab else {'label': t[1]}
    if k == 'ip': return {'fixed_size': t[1]}
    if k == 'oo': return {'switch_on_total_max': t[1]}
    if k in ('l', 't'): return [want(x, lab) for x in t[1]]
    if k == 'set': return {'set': sorted(t[1])}
    if k == 'd': return {'d': {b: want(v, lab) for (a, b, *r), v in t[1]}}
    raise ValueError(k)


def near(a, b, dec):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    return a == b if dec is None else abs(a - b) <= 0.5 * 10**-dec + 1e-9


def match(got, w, path, bad, np_ok, dec=None, keystr=False):
    """got: export; w: from want().  dec: number of decimals kept in arrays (None: exact)"""
    if isinstance(got, np.ndarray):
        if not np_ok:
            bad.append((path, 'array in plain data'))
            return
        got = got.tolist()
    if isinstance(w, dict):
        if 'set' in w:
            if not isinstance(got, list) or sorted(got) != w['set']:
                bad.append((path, f'{got!r} expected the set {w["set"]}'))
            return
        exact = 'd' in w
        w = w['d'] if exact else w
        if not isinstance(got, dict):
            bad.append((path, f'{got!r} expected a mapping {w!r}'))
            return
        ks = {jkey(k) if keystr else k: v for k, v in w.items()}
        if exact and set(got) != set(ks) or not set(ks) <= set(got):
            bad.append((path, f'keys {list(got)} expected {list(ks)}'))
            return
        for k, v in ks.items():
            match(got[k], v, f'{path}/{k}', bad, np_ok, dec, keystr)
        return
    if isinstance(w, list):
        flat = flatten(w)
        if dec is not None and isinstance(got, str) and len(flat) > 50:
            if not described(got, np.array(flat, float), len(w)):
                bad.append((path, f'{got!r} does not describe {w!r}'))
            return
        if not isinstance(got, list) or len(got) != len(w):
            bad.append((path, f'{got!r} expected {list(w)!r}'))
            return
        nums = isinstance(w, Arr) or all(isinstance(x, (int, float)) for x in w)
        for i, (a, b) in enumerate(zip(got, w)):
            if nums and not isinstance(b, (list, dict)):
                if not near(a, b, dec):
                    bad.append((path, f'[{i}] {a!r} expected {b!r}'))
            else:
                match(a, b, f'{path}[{i}]', bad, np_ok, dec, keystr)
        return
    if type(got) not in (int, float, str, bool, type(None)):
        bad.append((path, f'{got!r} of type {type(got)}'))
    elif not near(got, w, None) or isinstance(w, str) != isinstance(got, str):
        bad.append((path, f'{got!r} expected {w!r}'))


def flatten(w):
    return [y for x in w for y in (flatten(x) if isinstance(x, list) else [x])]


def jkey(k):
    return k if isinstance(k, str) else json.dumps(k)


def described(s, a, n):
    """'Array (min=.., max=.., mean=.., median=.., std=.., len=.., center=..)' fits the numbers"""
    try:
        p = dict(x.split('=') for x in s[s.index('(') + 1:s.rindex(')')].split(', '))
        ok = all(abs(float(p[k]) - f(a)) <= 0.00501 + 1e-9 * abs(f(a)) for k, f in
                 (('min', np.min), ('max', np.max), ('mean', np.mean), ('median', np.median), ('std', np.std)))
        return s.startswith('Array (') and ok and int(p['len']) == n
    except (ValueError, KeyError):
        return False


# ------------------------------------------------------------------ record of what the user passes
class Recorder:
    """stands for the flixOpt namespace while a system is built and notes every constructor call"""
    def __init__(self, metas):
        self.calls = []
        self.metas = metas
        self.k = 0
        self.linear_converters = _NS(self, fx.linear_converters)

    def __getattr__(self, name):
        return self.wrap(getattr(fx, name))

    def wrap(self, cls):
        if not (inspect.isclass(cls) and issubclass(cls, S.Interface)):
            return cls

        def call(*a, **kw):
            sig = inspect.signature(cls.__init__)
            if 'meta_data' in sig.parameters and self.metas:
                t = self.metas[self.k % len(self.metas)]
                self.k += 1
                if t is not None:
                    kw['meta_data'] = make(t)
            b = sig.bind(None, *a, **kw)
            args = dict(b.arguments)
            args.pop('self')
            keep = {k: snap(v) for k, v in args.items()}
            o = cls(*a, **kw)
            if not self.metas:          # can be described as soon as it exists
                str(o), o.infos(False, True)
            meta = t if 'meta_data' in args and self.metas and args['meta_data'] is not None else None
            self.calls.append((o, cls, args, keep, sig, meta))
            return o
        return call


class _NS:
    def __init__(self, rec, mod):
        self.rec, self.mod = rec, mod

    def __getattr__(self, name):
        return self.rec.wrap(getattr(self.mod, name))


def snap(v):
    """comparable copy: elements by identity"""
    if isinstance(v, S.Interface):
        return ('obj', id(v))
    if isinstance(v, core.TimeSeriesData):
        return ('tsd', snap(v.data), v.agg_group, v.agg_weight)
    if isinstance(v, core.TimeSeries):
        return ('ts', snap(v.data))
    if isinstance(v, np.ndarray):
        return ('arr', v.dtype.str, v.shape, tuple(v.ravel().tolist()))
    if isinstance(v, dict):
        return ('dict', tuple((snap(a), snap(b)) for a, b in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(snap(x) for x in v))
    if isinstance(v, set):
        return ('set', tuple(sorted(v)))
    return (type(v).__name__, v)


EFFECT_ARGS = ('effects_per_flow_hour', 'effects_per_switch_on', 'effects_per_running_hour', 'fix_effects', 'specific_effects',
               'divest_effects')


def number_like(v):
    if isinstance(v, core.TimeSeriesData):
        v = v.data
    return isinstance(v, (int, float, np.number, np.ndarray, np.bool_)) and not isinstance(v, bool) or isinstance(v, bool)


def fits(got, v, lab, stage, win, std, np_ok, dec=None):
    """does the exported value got state the value v the user gave?"""
    if isinstance(got, np.ndarray):
        if not np_ok:
            return False
        got = got.tolist()
    if isinstance(v, core.TimeSeriesData):
        v = v.data
    if isinstance(v, core.TimeSeries):
        v = v.data
    if isinstance(v, S.Element) and lab:
        return got == v.label
    if isinstance(v, S.Interface):
        return isinstance(got, dict) and same(got, v.infos(np_ok, lab)) and got['class'].split(':')[0] == type(v).__name__
    if v is None or isinstance(v, (str, bool)):
        return type(got) is type(v) and got == v
    if isinstance(v, (int, float, np.number)):
        return isinstance(got, (int, float)) and not isinstance(got, bool) and got == v
    if isinstance(v, np.ndarray):
        alts = [v]
        if stage != 'fresh':
            a, b = win
            alts += [v[a:b], v[a:b + 1]]
            for x in list(alts):
                if len(set(x.tolist())) == 1 and isinstance(got, (int, float)) and got == x[0]:
                    return True
        return isinstance(got, list) and any(len(got) == len(x) and all(near(float(g), float(y), dec) for g, y in zip(got, x)) for x in alts)
    if isinstance(v, dict):
        if not isinstance(got, dict):
            return False
        want = {(k.label if isinstance(k, S.Element) else k): x for k, x in v.items()}
        return set(got) == set(want) and all(fits(got[k], x, lab, stage, win, std, np_ok, dec) for k, x in want.items())
    if isinstance(v, (list, tuple)):
        return isinstance(got, list) and len(got) == len(v) and all(
            fits(g, x, lab, stage, win, std, np_ok, dec) for g, x in zip(got, v))
    raise ValueError(type(v))


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(np.asarray(a), np.asarray(b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def compact_ok(full, got, path, bad):
    """got is the compact form (arrays rounded or described) of full"""
    if isinstance(full, np.ndarray):
        match(got, [Arr(x) for x in full.tolist()] if full.ndim > 1 else Arr(full.tolist()), path, bad, False, dec=2)
    elif isinstance(full, dict):
        if not isinstance(got, dict) or {jkey(k) for k in full} != {jkey(k) for k in got}:
            bad.append((path, f'{got if not isinstance(got, dict) else list(got)} expected {list(full)}'))
            return
        gj = {jkey(k): v for k, v in got.items()}
        for k, v in full.items():
            compact_ok(v, gj[jkey(k)], f'{path}/{k}', bad)
    elif isinstance(full, list):
        if full and all(isinstance(x, (int, float)) for x in full):
            match(got, Arr(full), path, bad, False, dec=2)
        elif not isinstance(got, list) or len(got) != len(full):
            bad.append((path, f'{got} expected {full}'))
        else:
            for i, (a, b) in enumerate(zip(full, got)):
                compact_ok(a, b, f'{path}[{i}]', bad)
    elif got != full or type(got) is not type(full):
        bad.append((path, f'{got!r} expected {full!r}'))


@st.composite
def cases(draw):
    k = draw(st.integers(0, 7))
    if k == 2:
        return {'kind': 'math', 'model': draw(c19.models().filter(lambda c: not c.get('fault')))}
    if k <= 1:
        return {'kind': 'data', 'tree': draw(trees()), 'np': draw(st.booleans()), 'lab': draw(st.booleans())}
    spec = draw(gen.specs(n=(2, 6), arr=40, tsd=25, effects=60, share=50, pen_arr=30, onoff=25, con_onoff=20, dur=30, invest=25,
                          inv_seg=30, st_bounds=50, st_final=30, limits=40, extra=(0, 3), sas_noprevent=50, fh=15, lf=15))
    case = {'kind': 'system', 'spec': draw(fancy(st.just(spec))),
            'metas': draw(st.lists(st.one_of(st.none(), st.lists(st.tuples(KEY, trees()).map(list), max_size=3, unique_by=lambda t: str(t[0][1])).map(lambda v: ['d', v])),
                                   max_size=4)),
            'stage': draw(st.sampled_from(['fresh', 'fresh', 'modelled', 'window', 'solved']))}
    n = len(spec['time']['dt'])
    a = draw(st.integers(0, max(0, n - 2)))
    case['win'] = [a, draw(st.integers(min(a + 2, n), n))] if case['stage'] == 'window' else [0, n]
    return case


class Check:
    id = 'C20'
    rule = ('nested data of at least two nodes, or a system of at least three components whose every constructor call was '
            'recorded and looked up in the exports')
    quick, thorough = 1600, 100000
    assumptions = ['numbers are finite; mapping keys are strings, integers, None or elements',
                   'arrays are rounded to two decimals or summarised in the compact form, as documented',
                   'a constant array may be stated as its one value, a window of a calculation as the data of that window']

    def strategy(self, tier):
        return cases()

    def run(self, case, ctx):
        return getattr(self, case['kind'])(case, ctx)

    def math(self, case, ctx):
        """the text of each row of a constraint states its constant and, per summand, one of its products"""
        import re
        m = case['model']
        _, V, E, o = c19.Check().build(m)
        ctx.tag('math')
        bad = []
        for e, c in list(zip(E, m['cons'])) + [(o, {'terms': m['obj'], 'consts': [], 'order': range(len(m['obj'])), 'kind': 'eq'})]:
            terms = [c['terms'][p] for p in c['order'] if p < len(c['terms'])]
            n = max([c19.len_of(t, m['vars']) for t in terms] + [len(k['v']) if isinstance(k['v'], list) else 1 for k in c['consts']])
            ctx.nontrivial = ctx.nontrivial or n > 1
            for i in range(n):
                text = e.description(i) if i or len(E) % 2 else e.description()
                head, rest = text.split(': ', 1)
                const, prods = rest.split(' = ' if c['kind'] == 'eq' else ' >= ', 1)
                want = sum(c19.vec(k['v'], n)[i] for k in c['consts'])
                if f' {e.label} ' not in head or (f'[{i + 1}/{n}]' not in head) or abs(float(const) - want) > 1e-9:
                    bad.append(('math', f'{text!r}: row {i + 1} of {n}, constant {want}'))
                got = re.findall(r'(-?[0-9.]+(?:e[-+][0-9]+)?) \* (v\d+)\[(\d+)\]', prods)
                if len(got) != len(terms):
                    bad.append(('math', f'{text!r}: {len(terms)} summands'))
                    continue
                for (a, v, j), t in zip(got, terms):
                    ix = c19.idx_of(t, m['vars'])
                    L = max(len(ix), len(t['f']) if isinstance(t['f'], list) else 1)
                    all_ = list(zip(c19.vec(t['f'], L), ix if len(ix) == L else ix * L))
                    ok = all_ if t.get('sum') else [all_[i if L > 1 else 0]]
                    if v != f'v{t["v"]}' or (float(a), int(j)) not in ok:
                        bad.append(('math', f'{text!r}: {a} * {v}[{j}] is not of {ok} of v{t["v"]}'))
        for q, v in zip(V, m['vars']):
            text = q.description()
            if f'"{q.label}"' not in text or f'x {v["L"]} ' not in text or ('bin' in text) is not v['bin']:
                bad.append(('math', text))
        return bad[:5]

    def data(self, case, ctx):
        t = case['tree']
        o = make(t)
        before = snap_any(o)
        ctx.tag('data')
        ctx.nontrivial = len(json.dumps(t)) > 12
        bad = []
        keys = []
        collect(t, keys)
        plain = copy_and_convert_datatypes(o, use_numpy=False, use_element_label=case['lab'])
        match(plain, want(t, case['lab']), 'plain', bad, False)
        match(copy_and_convert_datatypes(o, use_numpy=True, use_element_label=case['lab']), want(t, case['lab']), 'numpy', bad, True)
        text = json.dumps(plain)
        if not keys:
            match(json.loads(text), want(t, case['lab']), 'json', bad, False, None, True)
        comp = get_compact_representation(o)
        match(comp, want(t, False), 'compact', bad, False, 2)
        json.dumps(comp)
        back = yaml.safe_load(yaml.dump(comp, allow_unicode=True, sort_keys=False, width=1000))
        if not same(back, comp):
            bad.append(('yaml', f'{back!r} expected {comp!r}'))
        if snap_any(o) != before:
            bad.append(('altered', f'{o!r}'))
        return [('data', f'{p}: {m}') for p, m in bad[:5]]

    # ------------------------------------------------------------------
    def system(self, case, ctx):
        spec = relabeled(case['spec'])
        rec = Recorder(case['metas'])
        build.fx, old = rec, build.fx
        try:
            B = build.build(spec)
        finally:
            build.fx = old
        fs = B.fs
        stage, win = case['stage'], case['win']
        if stage == 'fresh':            # most likely an accident, but no reason to fail: only a warning is given
            fx.Flow('no size', next(iter(B.buses.values())), fixed_relative_profile=np.array([0.5, 1.0]))
        ctx.tag('system ' + stage)
        std = next((e['label'] for e in spec['effects'] if e.get('std')), None)
        calc = None
        bad = []
        if stage != 'fresh':
            kw = {'time_indices': range(*win)} if stage == 'window' else {}
            calc = fx.FullCalculation('calc', fs, **kw)
            calc.do_modeling()
            if stage == 'solved':
                s = sut.do_solve(calc)
                if s != 'optimal':
                    ctx.tag('unsolved')
        ctx.nontrivial = len(spec['comps']) >= 3
        snaps = {id(o): {k: id(v) for k, v in vars(o).items()} for o, *_ in rec.calls}
        for o, cls, args, keep, sig, meta in rec.calls:
            for np_ok in (True, False):
                for lab in (True, False):
                    self.one(o, cls, args, sig, meta, np_ok, lab, stage, win, std, bad, spec)
            if bad:
                break
        if not bad:
            self.whole(fs, spec, B, stage, bad)
        if not bad and calc is not None and stage == 'solved' and calc.system_model.result_of_objective is not None:
            self.model(calc, bad)
            ctx.tag('model description')
        for o, cls, args, keep, sig, meta in rec.calls:
            for k, v in args.items():
                if snap(v) != keep[k]:
                    bad.append(('altered', f'{cls.__name__} {k}: {v!r} was {keep[k]!r}'))
            now = {k: id(v) for k, v in vars(o).items()}
            if now != snaps[id(o)]:
                bad.append(('altered', f'{cls.__name__}: attributes {[k for k in now if now[k] != snaps[id(o)].get(k)]}'))
        return [('export', f'{p}: {m}') for p, m in bad[:5]]

    def one(self, o, cls, args, sig, meta, np_ok, lab, stage, win, std, bad, spec):
        got = o.infos(np_ok, lab)
        where = f'{cls.__name__} {getattr(o, "label", "")}'
        if got.get('class', '').split(':')[0] != cls.__name__:
            bad.append((where, f'class {got.get("class")}'))
        for name, v in args.items():
            d = sig.parameters[name].default
            if v is None or isinstance(v, (dict, list)) and len(v) == 0:
                if not (v is None and d is not None and d is not inspect.Parameter.empty):
                    continue
            elif default(v, d):
                continue
            if cls is fx.InvestParameters and name in ('minimum_size', 'maximum_size') and args.get('fixed_size') is not None:
                continue        # replaced by the fixed size
            if stage != 'fresh' and cls is fx.Flow and name in ('size', 'on_off_parameters') and self.by_transmission(o):
                continue        # completed by the transmission
            if name not in got:
                bad.append((where, f'{name}={v!r} is missing in {list(got)}'))
                continue
            g = got[name]
            if name == 'meta_data':
                b = []
                match(g, want(meta, lab), 'meta', b, np_ok)
                bad += [(f'{where} meta_data {p}', m) for p, m in b]
                continue
            if name in EFFECT_ARGS or name.startswith('specific_share'):
                g = g if isinstance(g, dict) else {None: g}
                v = v if isinstance(v, dict) else {None: v}
            if name in ('inputs', 'outputs'):
                ok = same(strip(g), strip([f.infos(np_ok, lab) for f in v]))
            else:
                ok = fits(g, v, lab, stage, win, std, np_ok)
            if not ok:
                bad.append((where, f'{name}: {g!r} for {v!r}'))
        if isinstance(o, fx.Flow):
            if got.get('is_input_in_component') is not (o in o.comp.inputs):
                bad.append((where, f'direction {got.get("is_input_in_component")}'))
            b = got.get('bus')
            if (b if lab else b['label']) != args['bus'].label:
                bad.append((where, f'bus {b}'))
        if isinstance(o, S.Element) and not np_ok:
            json.dumps(got)

    def by_transmission(self, f):
        return isinstance(f.comp, fx.Transmission)

    def whole(self, fs, spec, B, stage, bad):
        for np_ok in (True, False):
            for lab in (True, False):
                g = fs.infos(np_ok, lab)
                want = {'Components': {c['label']: B.comps[c['label']] for c in spec['comps']},
                        'Buses': {b['label']: B.buses[b['label']] for b in spec['buses']},
                        'Effects': {e['label']: B.effects[e['label']] for e in spec['effects']}}
                if list(g) != list(want):
                    bad.append(('flow system', f'{list(g)}'))
                    return
                for k in want:
                    if set(g[k]) != set(want[k]):
                        bad.append(('flow system', f'{k}: {list(g[k])} expected {list(want[k])}'))
                        return
                    for x, o in want[k].items():
                        if not same(g[k][x], o.infos(np_ok, lab)):
                            bad.append(('flow system', f'{k}: {x}: {g[k][x]} expected {o.infos(np_ok, lab)}'))
        c = spec['comps'][0]
        objs = [fs, B.comps[c['label']], B.flows[c['label'], R.flows_of(c)[0][0]['label'] if R.flows_of(c)[0] else R.flows_of(c)[1][0]['label']],
                B.effects[spec['effects'][-1]['label']]]
        for o in objs:
            full = o.infos(True, True)
            o.to_json('x.json')
            with open('x.json', encoding='utf-8') as f:
                got = json.load(f)
            b = []
            compact_ok(full, got, 'to_json', b)
            text = str(o)
            try:
                obj = ast.literal_eval(text.replace('│', ' ').strip())
            except (SyntaxError, ValueError) as e:
                b.append(('str', f'{e} {text[:300]}'))
            else:
                compact_ok(full, obj, 'str', b)
            bad += b
        # network
        nodes, edges = fs.network_infos()
        wn = {x['label']: 'Component' for x in spec['comps']}
        wn.update({x['label']: 'Bus' for x in spec['buses']})
        if {k: v['class'] for k, v in nodes.items()} != wn or any(v['label'] != k for k, v in nodes.items()):
            bad.append(('network', f'{ {k: v["class"] for k, v in nodes.items()} } expected {wn}'))
        we = {}
        for c in spec['comps']:
            ins, outs = R.flows_of(c)
            for f in ins:
                we[f'{c["label"]}__{f["label"]}'] = (f['label'], f['bus'], c['label'])
            for f in outs:
                we[f'{c["label"]}__{f["label"]}'] = (f['label'], c['label'], f['bus'])
        ge = {k: (v['label'], v['start'], v['end']) for k, v in edges.items()}
        if ge != we:
            bad.append(('network', f'{ge} expected {we}'))
        for k, v in list(nodes.items())[:2]:
            o = B.comps.get(k) or B.buses.get(k)
            if v['infos'] != str(o):
                bad.append(('network', f'infos of {k}'))
        net = fs.visualize_network(path=False, show=False)
        if net is not None:
            if set(net.get_nodes()) != set(wn):
                bad.append(('network', f'nodes shown: {net.get_nodes()}'))
            if sorted((e['from'], e['to']) for e in net.edges) != sorted((a, b) for _, a, b in we.values()):
                bad.append(('network', f'edges shown: {net.edges}'))

    def model(self, calc, bad):
        m = calc.system_model
        inf = m.infos
        back = yaml.safe_load(yaml.dump(inf, allow_unicode=True, sort_keys=False, width=1000))
        if not same(back, inf):
            bad.append(('model', 'infos do not survive YAML'))
        for kind, every in (('Variables', {v.label: v for v in m.variables}), ('Constraints', {c.label: c for c in m.equations + m.inequations})):
            texts = flat(inf[kind])
            want = len(every)
            if kind == 'Constraints':
                texts = texts[:]
                want += 0 if any(c is m.objective for c in every.values()) else 1
            if len(texts) != want:
                bad.append(('model', f'{len(texts)} {kind} described, {want} in the model'))
            for lb, v in every.items():
                n = [t for t in texts if (f'"{lb}"' if kind == 'Variables' else f' {lb} ') in t]
                if not n:
                    bad.append(('model', f'{kind}: {lb} is not described'))
                    break
                if kind == 'Variables' and not any(t.split('x ')[1].split()[0] == str(v.length) for t in n):
                    bad.append(('model', f'{lb} of length {v.length}: {n}'))
            f = flat(m.description_of_variables(False) if kind == 'Variables' else m.description_of_constraints(False))
            if sorted(f) != sorted(texts):
                bad.append(('model', f'{kind}: flat description lists {len(f)}, structured one {len(texts)}'))
        sz = inf['Model Size']
        if sz['No. of Vars.'] != len(m.variables) or sz['No. of Eqs.'] + sz['No. of Ineqs.'] != len(m.equations) + len(m.inequations):
            bad.append(('model', f'{sz}'))
        for c in m.component_models:
            o = c.overview_of_model_size
            vs, cs = c.all_variables, c.all_constraints
            if o['no of Variables'] != len(vs) or o['no of Euations'] + o['no of Inequations'] != len(cs) or \
               o['no of Variables single'] != sum(v.length for v in vs.values()) or \
               o['no of Equations single'] + o['no of Inequations single'] != sum(x.length for x in cs.values()):
                bad.append(('model', f'{c.element.label}: {o}'))
                break

    def matches_known(self, k, case, bad):
        return False


def flat(d):
    if isinstance(d, dict):
        return [x for v in d.values() for x in flat(v)]
    if isinstance(d, list):
        return [x for v in d for x in flat(v)]
    return [d]


def strip(x):
    return x


def default(v, d):
    """v says the same as the default d"""
    if d is inspect.Parameter.empty:
        return False
    if isinstance(v, (core.TimeSeriesData,)):
        return False
    try:
        return bool(np.all(v == d))
    except Exception:
        return False


def snap_any(o):
    if isinstance(o, S.Interface):
        return ('iface', tuple(sorted((k, repr(snap(v))) for k, v in vars(o).items())))
    if isinstance(o, dict):
        return ('dict', tuple((snap_any(a), snap_any(b)) for a, b in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(snap_any(x) for x in o))
    return repr(snap(o))


def collect(t, out):
    """trees in which JSON text cannot tell the keys apart (numbers or elements as keys next to each other)"""
    if t[0] in ('l', 't'):
        for x in t[1]:
            collect(x, out)
    elif t[0] == 'd':
        ks = [(k[1] if k[0] != 'n' else None) for k, _ in t[1]]
        js = [jkey(k) for k in ks]
        if len(set(js)) != len({(type(k), k) for k in ks}) or len(set(map(str, ks))) != len(ks):
            out.append(t)
        for _, x in t[1]:
            collect(x, out)
