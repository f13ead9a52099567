"""C21: one contradiction is injected into a valid system; it must be rejected, the system without it accepted."""
import copy, inspect, os, sys, traceback
import numpy as np
from hypothesis import strategies as st
from .. import gen, sut, build, spectool, ref as R
from ..run import Skip
from . import c19

fx = sut.fx
PKG = os.path.dirname(os.path.abspath(fx.__file__))
COMPS = ['Source', 'Sink', 'SourceAndSink', 'Storage', 'Transmission', 'LinearConverter']
NAMED = ['Boiler', 'Power2Heat', 'HeatPump', 'HeatPumpWithSource', 'CHP', 'CoolingTower']
# arguments that take one value per time step
TIMED = {'Flow': ['relative_minimum', 'relative_maximum', 'fixed_relative_profile', 'effects_per_flow_hour'],
         'Bus': ['excess_penalty_per_flow_hour'],
         'Effect': ['minimum_operation_per_hour', 'maximum_operation_per_hour', 'specific_share_to_other_effects_operation'],
         'Storage': ['relative_minimum_charge_state', 'relative_maximum_charge_state', 'eta_charge', 'eta_discharge', 'relative_loss_per_hour'],
         'Transmission': ['relative_losses', 'absolute_losses'],
         'OnOffParameters': ['effects_per_switch_on', 'effects_per_running_hour', 'consecutive_on_hours_min', 'consecutive_on_hours_max',
                             'consecutive_off_hours_min', 'consecutive_off_hours_max'],
         'Boiler': ['eta'], 'Power2Heat': ['eta'], 'HeatPump': ['COP'], 'HeatPumpWithSource': ['COP'], 'CHP': ['eta_th', 'eta_el'],
         'CoolingTower': ['specific_electricity_demand'], 'LinearConverter': ['conversion_factors', 'segmented_conversion_factors']}


class Tweak:
    """stands for the flixOpt namespace: counts constructor calls and changes the arguments of one"""
    def __init__(self, at=None, edit=None):
        self.calls, self.at, self.edit = [], at, edit
        self.linear_converters = _NS(self, fx.linear_converters)

    def __getattr__(self, name):
        return self.wrap(getattr(fx, name))

    def wrap(self, cls):
        if not inspect.isclass(cls):
            return cls

        def call(*a, **kw):
            b = inspect.signature(cls.__init__).bind(None, *a, **kw)
            args = dict(b.arguments)
            args.pop('self')
            args.update(args.pop('kwargs', {}))
            if self.at == len(self.calls):
                args = self.edit(args, self)
            o = cls(**args)
            self.calls.append((cls.__name__, o, args))
            return o
        return call


class _NS:
    def __init__(self, rec, mod):
        self.rec, self.mod = rec, mod

    def __getattr__(self, name):
        return self.rec.wrap(getattr(self.mod, name))


def make(spec, order, tweak):
    old, build.fx = build.fx, tweak
    try:
        return build.build(spec, order=order)
    finally:
        build.fx = old


def comps(calls):
    return [i for i, c in enumerate(calls) if c[0] in COMPS + NAMED]


def of(calls, *names):
    return [i for i, c in enumerate(calls) if c[0] in names]


def setarg(k, v):
    return lambda args, t: {**args, k: v}


# Every fault: (calls of the valid build, parameters, n) -> (index of the call, edit) or None where it does not fit
def dup(kind):
    def f(calls, p, n):
        s = {'comp': comps(calls), 'bus': of(calls, 'Bus'), 'effect': of(calls, 'Effect')}
        own, other = s[kind[0]], s[kind[1]]
        if not own: return
        i = own[p['i'] % len(own)]
        others = [j for j in other if j != i]
        if not others: return
        return i, setarg('label', calls[others[p['j'] % len(others)]][2]['label'])
    return f


def dup_flow(calls, p, n):
    s = [i for i in comps(calls) if len(calls[i][1].inputs + calls[i][1].outputs) > 1]
    if not s: return
    fl = calls[s[p['i'] % len(s)]][1]
    fl = fl.inputs + fl.outputs
    a, b = fl[p['j'] % len(fl)], fl[(p['j'] + 1 + p['k'] % (len(fl) - 1)) % len(fl)]
    return [j for j, c in enumerate(calls) if c[1] is a][0], setarg('label', b.label)


def flag(name):
    def f(calls, p, n):
        s = [i for i in of(calls, 'Effect') if not calls[i][2].get(name)]
        if not s: return
        return s[p['i'] % len(s)], setarg(name, True)
    return f


def reserved(calls, p, n):
    s = of(calls, 'Effect')
    return s[p['i'] % len(s)], setarg('label', ['penalty', 'Penalty', 'PENALTY'][p['j'] % 3])


def bounds(d):
    """relative minimum exceeds relative maximum by d (0: still valid)"""
    def f(calls, p, n):
        s = of(calls, 'Flow')
        i = s[p['i'] % len(s)]
        top = (1 + p['j'] % 4) / 4
        step = p['k'] % n
        lo, hi = [0.0, top, top / 2][p['v'] // 4 % 3], top

        def arr(base, x):
            a = np.full(n, float(base))
            a[step] = x
            return a
        v = p['v'] % 4
        if v == 0: a = top + d, hi
        if v == 1: a = arr(lo, top + d), hi
        if v == 2: a = top, arr(top + lo, top - d)
        if v == 3: a = arr(lo, top), arr(hi, top - d)
        wrap = lambda x, on: fx.TimeSeriesData(x) if on else x
        a = wrap(a[0], p['t'] % 2), wrap(a[1], p['t'] // 2 % 2)
        return i, lambda args, t: {**args, 'relative_minimum': a[0], 'relative_maximum': a[1]}
    return f


def linear(calls, cond=lambda a: True):
    return [i for i in of(calls, 'LinearConverter') if cond(calls[i][2])]


def all_flows(a):
    return a['inputs'] + a['outputs']


def overdetermined(extra):
    """as many conversion factors as flows (extra=0: one less, which is valid)"""
    def f(calls, p, n):
        s = linear(calls, lambda a: a.get('conversion_factors'))
        if not s: return
        i = s[p['i'] % len(s)]

        def edit(args, t):
            fl = all_flows(args)
            have = list(args['conversion_factors'])
            want = len(fl) + p['j'] % 3 if extra else len(fl) - 1
            while len(have) < want:
                a, b = fl[len(have) % len(fl)], fl[(len(have) + 1) % len(fl)]
                have.append({a: 1.0, b: 1.0 + len(have)})
            return {**args, 'conversion_factors': have[:want] if extra else have}
        return i, edit
    return f


def foreign_flow(kind):
    def f(calls, p, n):
        s = linear(calls, lambda a: a.get(kind))
        if not s: return
        i = s[p['i'] % len(s)]

        def edit(args, t):
            fl = all_flows(args)
            own = fl[p['j'] % len(fl)]
            others = [c[1] for c in t.calls if c[0] == 'Flow' and c[1] not in fl]
            other = others[p['k'] % len(others)] if others and p['v'] % 2 else fx.Flow(own.label, own.bus)
            if kind == 'conversion_factors':
                have = [dict(d) for d in args[kind]]
                d = have[p['k'] % len(have)]
                if p['t'] % 2: d[other] = 1.0
                else: d[other] = d.pop(list(d)[p['j'] % len(d)])
                return {**args, kind: have}
            have = dict(args[kind])
            first = list(have)[0]
            if p['t'] % 2: have[other] = [tuple(x) for x in have[first]]
            else: have[other] = have.pop(list(have)[p['j'] % len(have)])
            return {**args, kind: have}
        return i, edit
    return f


def both(calls, p, n):
    s = linear(calls)
    if not s: return
    i = s[p['i'] % len(s)]

    def edit(args, t):
        fl = all_flows(args)
        a, b = fl[0], fl[-1]
        if args.get('conversion_factors'):
            return {**args, 'segmented_conversion_factors': {x: [(0, 1), (1, 2)] for x in fl}}
        return {**args, 'conversion_factors': [{a: 1.0, b: 1.0}]}
    return i, edit


def neither(calls, p, n):
    s = linear(calls)
    if not s: return
    none = [None, []][p['j'] % 2], [None, {}][p['k'] % 2]
    return s[p['i'] % len(s)], lambda args, t: {**args, 'conversion_factors': none[0], 'segmented_conversion_factors': none[1]}


def segment_size(fixed):
    """a flow of a segmented converter with a size to be chosen (fixed: InvestParameters of one size, which is valid)"""
    def f(calls, p, n):
        s = []
        for i in linear(calls, lambda a: a.get('segmented_conversion_factors')):
            for x in all_flows(calls[i][2]):
                s += [j for j, c in enumerate(calls) if c[1] is x]
        if not s: return
        k = dict(fixed_size=10.0) if fixed else [dict(maximum_size=20.0), dict(minimum_size=5.0, maximum_size=20.0, optional=False), {}][p['j'] % 3]
        return s[p['i'] % len(s)], lambda args, t: {**args, 'size': fx.InvestParameters(**k)}
    return f


def pieces(calls, p, n):
    s = linear(calls, lambda a: a.get('segmented_conversion_factors'))
    if not s: return
    i = s[p['i'] % len(s)]

    def edit(args, t):
        have = {k: list(v) for k, v in args['segmented_conversion_factors'].items()}
        k = list(have)[p['j'] % len(have)]
        if p['k'] % 2 and len(have[k]) > 1: have[k].pop()
        else: have[k].append((90.0, 95.0))
        return {**args, 'segmented_conversion_factors': have}
    return i, edit


def invest_pieces(calls, p, n):
    s = of(calls, 'InvestParameters')
    if not s: return
    eff = [calls[i][1] for i in of(calls, 'Effect')]

    def edit(args, t):
        a, b = 1 + p['j'] % 3, 1 + p['k'] % 3
        if a == b: b += 1
        seg = lambda m: [(10.0 * x, 10.0 * x + 10) for x in range(m)]
        es = [c[1] for c in t.calls if c[0] == 'Effect']
        es = es[p['v'] % len(es):] + es[:p['v'] % len(es)]
        return {**args, 'effects_in_segments': (seg(a), {e: seg(b if x == p['t'] % len(es) else a) for x, e in enumerate(es)})}
    return s[p['i'] % len(s)], edit


def start(calls, p, n):
    s = of(calls, 'Storage')
    if not s: return
    return s[p['i'] % len(s)], setarg('initial_charge_state', p['txt'])


def tr_bus(calls, p, n):
    """the way back does not connect the same buses"""
    s = [i for i in of(calls, 'Transmission') if calls[i][2].get('in2') is not None]
    if not s: return
    which = ['in2', 'out2', 'out1', 'in1'][p['j'] % 4]

    def edit(args, t):
        f = args[which]
        buses = [c[1] for c in t.calls if c[0] == 'Bus' and c[1] is not f.bus] or [fx.Bus('elsewhere')]
        return {**args, which: fx.Flow(f.label, buses[p['k'] % len(buses)], size=f.size)}
    return s[p['i'] % len(s)], edit


def tr_size(calls, p, n):
    s = of(calls, 'Transmission')
    if not s: return
    i = s[p['i'] % len(s)]
    which = [w for w in ('out1', 'in2', 'out2') if calls[i][2].get(w) is not None]
    which = which[p['j'] % len(which)]

    def edit(args, t):
        f = args[which]
        return {**args, which: fx.Flow(f.label, f.bus, size=fx.InvestParameters(maximum_size=10.0))}
    return i, edit


def unknown_effect(calls, p, n):
    s = [(i, k) for i in of(calls, 'Flow') for k in ('effects_per_flow_hour',)]
    s += [(i, k) for i in of(calls, 'OnOffParameters') for k in ('effects_per_switch_on', 'effects_per_running_hour')]
    s += [(i, k) for i in of(calls, 'InvestParameters') for k in ('fix_effects', 'specific_effects', 'divest_effects')]
    s += [(i, k) for i in of(calls, 'Effect') for k in ('specific_share_to_other_effects_operation', 'specific_share_to_other_effects_invest')]
    i, k = s[p['i'] % len(s)]
    if k == 'divest_effects' and not calls[i][2].get('optional', True):
        return
    e = calls[of(calls, 'Effect')[0]][1]
    return i, setarg(k, {fx.Effect([e.label, 'another'][p['j'] % 2], 'u', 'd'): 1.0 + p['k']})


def bad_length(calls, p, n):
    s = [(i, k) for i, c in enumerate(calls) for k in TIMED.get(c[0], []) if c[2].get(k) is not None]
    # arguments nobody set
    s += [(i, k) for i, c in enumerate(calls) for k in {'Flow': ['relative_minimum', 'relative_maximum', 'fixed_relative_profile', 'effects_per_flow_hour'],
          'Storage': TIMED['Storage'], 'Bus': TIMED['Bus'], 'Effect': TIMED['Effect'][:2], 'Transmission': ['relative_losses']}.get(c[0], [])]
    i, k = s[p['i'] % len(s)]
    m = n + [-1, 1, 2, n][p['j'] % 4]
    if k.endswith('charge_state') and m == n + 1:
        m = n + 2
    if m < 2: return
    if calls[i][0] == 'Flow' and k == 'fixed_relative_profile' and calls[i][2].get(k) is None and calls[i][2].get('on_off_parameters') is not None:
        return
    up = k in ('relative_maximum', 'relative_maximum_charge_state', 'maximum_operation_per_hour', 'consecutive_on_hours_max', 'consecutive_off_hours_max')
    a = np.array([(0.75 if up else 0.25) + (0.25 if x % 3 == p['k'] % 3 else 0) for x in range(m)])
    if len(set(a)) == 1: a[0] += 0.125
    if k.startswith('consecutive'): a = a * 8
    if p['t'] % 4 == 0: a = fx.TimeSeriesData(a)

    def edit(args, t):
        v = args.get(k)
        if k == 'conversion_factors':
            have = [dict(d) for d in v or []]
            if not have: return args
            d = have[p['k'] % len(have)]
            d[list(d)[p['v'] % len(d)]] = a
            return {**args, k: have}
        if k == 'segmented_conversion_factors':
            have = {x: list(y) for x, y in (v or {}).items()}
            if not have: return args
            x = list(have)[p['v'] % len(have)]
            q = p['k'] % len(have[x])
            have[x][q] = (a, have[x][q][1]) if p['v'] % 2 else (have[x][q][0], a)
            return {**args, k: have}
        if isinstance(v, dict) and v:
            v = dict(v)
            v[list(v)[p['v'] % len(v)]] = a
            return {**args, k: v}
        if k == 'specific_share_to_other_effects_operation':
            return args
        return {**args, k: a}
    return i, edit


def tsd_both(calls, p, n):
    s = of(calls, 'Flow')
    return s[p['i'] % len(s)], lambda args, t: {**args, 'relative_maximum': fx.TimeSeriesData(np.linspace(.5, 1, n), agg_group='g', agg_weight=0.5)}


FAULTS = {
    'two components': dup(('comp', 'comp')), 'two buses': dup(('bus', 'bus')), 'two effects': dup(('effect', 'effect')), 'two flows of a component': dup_flow,
    'bus like component': dup(('bus', 'comp')), 'component like effect': dup(('comp', 'effect')), 'effect like bus': dup(('effect', 'bus')),
    'two standard': flag('is_standard'), 'two objectives': flag('is_objective'), 'reserved label': reserved,
    'min over max': bounds(0.125), 'overdetermined': overdetermined(True), 'foreign flow': foreign_flow('conversion_factors'),
    'foreign segmented flow': foreign_flow('segmented_conversion_factors'), 'both kinds': both, 'neither kind': neither,
    'segments of free size': segment_size(False), 'pieces': pieces, 'invest pieces': invest_pieces, 'start option': start, 'way back': tr_bus, 'transmission size': tr_size,
    'unknown effect': unknown_effect, 'length': bad_length, 'length ': bad_length, 'length  ': bad_length, 'group and weight': tsd_both,
}
VALID = {'equal bounds': bounds(0.0), 'fully determined': overdetermined(False), 'segments of fixed size': segment_size(True)}
LATE = ['circular', 'again', 'not an element', 'backwards', 'aggregate uneven', 'aggregate period', 'segment too long', 'segment too short',
        'index beyond', 'no objective', 'group and weight']
VALID_LATE = ['shares without circle', 'largest segment', 'whole horizon']
TXT = st.one_of(st.sampled_from(['lastvalueofsim', 'lastValueOfSim ', 'last', 'x', '', 'firstValue', 'lastValue']),
                st.text('abcdxyz_ -', max_size=8)).filter(lambda s: s != 'lastValueOfSim')
PAR = st.fixed_dictionaries({**{k: st.integers(0, 11) for k in 'ijkvt'}, 'txt': TXT, 'calc': st.sampled_from(['full', 'full', 'window', 'seg']),
                             'ord': st.integers(0, 10**6), 'when': st.booleans()})


def circle(B, p, closed):
    """shares between the effects after they were made (closed: in a circle; else a chain with a shortcut)"""
    e = [x for x in B.effects.values()]
    k = 1 + p['i'] % len(e) if closed else len(e)
    e = e[p['j'] % len(e):] + e[:p['j'] % len(e)]
    e = e[:k]
    if not closed:
        for x in e:         # any order of the effects, no way back
            x.specific_share_to_other_effects_operation, x.specific_share_to_other_effects_invest = {}, {}
        pairs = [(a, b) for a in range(k) for b in range(a + 1, k)]
    else:
        pairs = [(a, (a + 1) % k) for a in range(k)]
    for a, b in pairs:
        for attr in (['specific_share_to_other_effects_operation'], ['specific_share_to_other_effects_invest'])[p['v'] % 2]:
            d = dict(getattr(e[a], attr) or {})
            d[e[b]] = 0.25 * (1 + p['k'] % 4)
            setattr(e[a], attr, d)


def in_package(tb):
    return any(os.path.abspath(f.filename).startswith(PKG) for f in traceback.extract_tb(tb))


class Check:
    id = 'C21'
    rule = ('one contradiction of a chosen kind put at a random place of a valid system (duplicate labels, second standard or objective '
            'effect, bounds, conversion factors, segments, circular shares, wrong lengths, time stamps, start options, aggregation and '
            'segment parameters), built and calculated completely; flixOpt must raise before a result exists, and must accept the same '
            'system without it or with a valid value next to it; non-trivial: the contradiction could be placed')
    assumptions = ['arrays of wrong length are not constant: flixOpt reads an array of equal values as one value',
                   'where the place chosen for the contradiction does not exist in the system, only the acceptance is checked']
    base = dict(n=(3, 6), extra=(1, 3), effects=100, share=30, effdict=40, arr=40, objother=30)
    groups = [(base, ['two components', 'two buses', 'two effects', 'bus like component', 'component like effect', 'effect like bus',
                      'two standard', 'two objectives', 'reserved label', 'unknown effect', 'circular', 'shares without circle', 'again',
                      'not an element', 'no objective', 'group and weight']),
              (base, ['min over max', 'min over max', 'equal bounds', 'backwards', 'index beyond', 'whole horizon', 'segment too short']),
              (dict(base, n=(3, 6), irreg=0, last=0), ['aggregate period', 'aggregate period', 'aggregate uneven']),
              (dict(base, n=(3, 6), irreg=70, last=30), ['aggregate uneven']),
              (dict(base, n=(4, 8), invest=0, cap_invest=0, tr_inv=0), ['segment too long', 'largest segment']),
              (dict(base, kinds=dict(conv=1), extra=(1, 2)), ['overdetermined', 'fully determined', 'foreign flow', 'both kinds', 'neither kind']),
              (dict(base, kinds=dict(seg=1), extra=(1, 2)), ['segments of free size', 'segments of fixed size', 'pieces', 'both kinds', 'two flows of a component',
                                                             'neither kind', 'foreign segmented flow']),
              (dict(base, kinds=dict(trans=1), tr_bi=100, extra=(1, 2)), ['way back', 'transmission size', 'two flows of a component']),
              (dict(base, kinds=dict(storage=2, sas=1, conv=1, named=1), extra=(1, 2)), ['start option', 'two flows of a component']),
              (dict(base, invest=90, cap_invest=90), ['invest pieces']),
              (dict(base, kinds=dict(storage=3, trans=4, conv=2, sas=1, seg=2, named=4), onoff=30, con_onoff=20, dur=30), ['length', 'length ', 'length  '])]
    quick, thorough = 4000, 60000

    def strategy(self, tier):
        return st.one_of([st.tuples(gen.specs(**p), st.sampled_from(kinds), PAR).map(list) for p, kinds in self.groups
                          for _ in range(-(-len(kinds) // 3))])

    def calc(self, B, n, p):
        k = p['calc']
        if k == 'seg' and n >= 4:
            return fx.SegmentedCalculation('c', B.fs, 3, p['k'] % (n - 2))
        if k == 'window' and n >= 3:
            a = p['j'] % (n - 1)
            return fx.FullCalculation('c', B.fs, time_indices=range(a, min(n, a + 2 + p['k'] % n)))
        return fx.FullCalculation('c', B.fs)

    def go(self, spec, order, tweak, p, kind, fault):
        """everything from the description to the result; -> 'result' or 'infeasible'"""
        n = len(spec['time']['dt'])
        if kind == 'backwards' and fault:
            d = list(spec['time']['dt'])
            q = p['i'] % n
            d[q] = -d[q] / [1, 2, 4][p['j'] % 3]
            last = spec['time'].get('last')
            spec = {**spec, 'time': {**spec['time'], 'dt': d, 'res': 's', **({'last': -d[-2] if n == 2 else d[-1]} if q == n - 1 else
                                                                  {'last': last or 1.0})}}
        B = make(spec, order, tweak)
        if kind == 'circular' and fault or kind == 'shares without circle':
            circle(B, p, kind == 'circular')
        if kind == 'again' and fault:
            els = list(B.comps.values()) + list(B.effects.values())
            B.fs.add_elements(els[p['i'] % len(els)])
        if kind == 'not an element' and fault:
            B.fs.add_elements([list(B.buses.values())[0], list(B.flows.values())[0], 'L1', None, B.fs][p['i'] % 5])
        if kind == 'no objective' and fault:
            for e in B.effects.values():
                e.is_objective = False
        win = range(0, n)
        if kind in ('aggregate uneven', 'aggregate period'):
            h = spec['time']['dt'][0]
            hp = 2 * h
            if kind == 'aggregate period' and fault:
                hp = h * [1.5, 0.5, 2.25, 1.75][p['i'] % 4]
            calc = fx.AggregatedCalculation('c', B.fs, fx.AggregationParameters(hours_per_period=hp, nr_of_periods=1, fix_storage_flows=True,
                                                                               aggregate_data_and_fix_non_binary_vars=bool(p['t'] % 2)))
        elif kind in ('segment too long', 'largest segment'):
            L = 3 + p['i'] % max(1, n - 2)
            O = n - L + (1 + p['j'] % 3 if fault else 0)
            idx = None
            if p['v'] % 2 and n > 4:      # of a window
                a = p['k'] % (n - 4)
                idx = list(range(a, n))
                L, O = min(L, n - a), None
                O = n - a - L + (1 + p['j'] % 3 if fault else 0)
            calc = fx.SegmentedCalculation('c', B.fs, L, O, time_indices=idx)
        elif kind == 'segment too short' and fault:
            calc = fx.SegmentedCalculation('c', B.fs, [2, 1, 0][p['i'] % 3], 0)
        elif kind == 'index beyond' and fault:
            a = p['i'] % n
            calc = fx.FullCalculation('c', B.fs, time_indices=[range(a, n + 1 + p['j'] % 3), list(range(a, n + 1 + p['j'] % 3))][p['k'] % 2])
        elif kind == 'whole horizon':
            calc = fx.FullCalculation('c', B.fs, time_indices=list(range(n)))
        else:
            calc = self.calc(B, n, p)
        if isinstance(calc, fx.SegmentedCalculation):
            calc.do_modeling_and_solve(sut.DH(), save_results=False)
            calc.results(combined_arrays=True)
            return 'result'
        calc.do_modeling()
        st = sut.do_solve(calc)
        if st == 'optimal':
            calc.results()
            return 'result'
        return st

    def fits(self, spec, kind):
        n = len(spec['time']['dt'])
        dt = spec['time']['dt']
        even = len(set(dt)) == 1 and spec['time'].get('last') in (None, dt[0])
        if kind.startswith('segment') or kind == 'largest segment':
            return n >= 4
        if kind == 'aggregate uneven':
            return not even
        if kind == 'aggregate period':
            return even
        return True

    def run(self, case, ctx):
        spec, kind, p = copy.deepcopy(case)
        n = len(spec['time']['dt'])
        m = len(spec['effects']) + len(spec['comps'])
        order = [int(x) for x in np.random.RandomState(p['ord']).permutation(m)]
        if p['calc'] == 'seg' and any(isinstance(f.get('size'), dict) for c, f in spectool.all_flows(spec)):
            p['calc'] = 'full'
        name = kind.strip()
        if not self.fits(spec, kind):
            ctx.tag('not placed')
            return []
        from ..fast import NoPlan, SolverTrouble
        valid = kind in VALID or kind in VALID_LATE
        if valid:
            t = Tweak()
            make(spec, order, t)
            at = VALID[kind](t.calls, p, n) if kind in VALID else (None, None)
            if at is None:
                ctx.tag('not placed')
                return []
            ctx.tag('valid: ' + name)
            ctx.nontrivial = True
            try:
                self.go(spec, order, Tweak(*at), p, kind, False)
            except (NoPlan, SolverTrouble):
                pass
            except Exception as e:
                return [('accepted', f'{kind}: rejected with {type(e).__name__}: {str(e)[:200]}')]
            return []
        # without the contradiction
        t = Tweak()
        try:
            if kind in ('aggregate uneven', 'segment too short'):
                make(spec, order, t)
            elif kind == 'aggregate period':
                make(spec, order, t)
            else:
                self.go(spec, order, t, p, kind, False)
        except (NoPlan, SolverTrouble):
            pass
        except Exception as e:
            return [('accepted', f'without {kind}: rejected with {type(e).__name__}: {str(e)[:200]}')]
        at = (None, None)
        if kind in FAULTS:
            at = FAULTS[kind](t.calls, p, n)
            if at is None:
                ctx.tag('not placed')
                return []
        ctx.tag(name)
        ctx.nontrivial = True
        t2 = Tweak(*at)
        try:
            out = self.go(spec, order, t2, p, kind, True)
        except (NoPlan, SolverTrouble):
            out = 'infeasible'
        except Exception as e:
            if not in_package(e.__traceback__):
                raise
            return []
        if at[0] is not None and self.same_args(t, t2, at[0]):
            ctx.tag('not placed')
            ctx.nontrivial = False
            return []
        where = f'{t2.calls[at[0]][0]} {t2.calls[at[0]][2].get("label", "")}' if at[0] is not None else ''
        return [('rejected', f'{name} {where}: no error, {out} ({p["calc"]} calculation)')]

    def same_args(self, t, t2, i):
        return t2.calls[i][2] is not None and repr(sorted(t.calls[i][2])) == repr(sorted(t2.calls[i][2])) and \
            all(t.calls[i][2][k] is t2.calls[i][2][k] for k in t.calls[i][2])

    def matches_known(self, k, case, bad):
        return False
