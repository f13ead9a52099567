"""spec (plain JSON) -> flixOpt objects.  Public API only."""
import numpy as np
from . import env
fx = env.import_flixopt()


SHARED = {}


def val(v):
    """JSON value -> what a user would write: number | list -> array | {'tsd': x} -> TimeSeriesData | None"""
    if v is None or isinstance(v, (int, float, bool, str)):
        return v
    if isinstance(v, list):
        whole = all(x is not None and float(x).is_integer() for x in v) and sum(v) % 3 == 1      # as a user may write it, too
        return np.array(v, dtype=int if whole else float)
    if isinstance(v, dict) and 'one' in v:          # one object used in several places
        k = v['one']
        if k not in SHARED:
            SHARED[k] = val(v['of'])
        return SHARED[k]
    if isinstance(v, dict) and 'npf' in v:
        return np.float64(v['npf'])
    if isinstance(v, dict) and 'npi' in v:
        return np.int64(v['npi'])
    if isinstance(v, dict) and 'tsd' in v and v.get('key') is not None:      # kept to look up its label
        SHARED['tsd', v['key']] = o = val({k: x for k, x in v.items() if k != 'key'})
        return o
    if isinstance(v, dict) and 'tsd' in v:
        return fx.TimeSeriesData(val(v['tsd']), agg_group=v.get('group'), agg_weight=v.get('weight'))
    if isinstance(v, dict) and 'intarr' in v:
        return np.array(v['intarr'], dtype=int)
    raise ValueError(v)


def tres(res):
    return {'us': 'datetime64[us]', 'ns': 'datetime64[ns]', 's': 'datetime64[s]', 'm': 'datetime64[m]',
            'h': 'datetime64[h]', 'ms': 'datetime64[ms]', 'D': 'datetime64[D]'}[res]


def time_array(t):
    return stamps(t, t['dt'][:-1]).astype(tres(t.get('res', 'us')))


def stamps(t, dt):
    start = np.datetime64(t.get('start', '2020-01-01T00:00'), 'us')
    sec = np.concatenate([[0], np.cumsum(np.array(dt, float))]) * 3600.0
    return start + np.round(sec * 1e6).astype('timedelta64[us]')


FINE = {'s': 1.01, 'ms': 1.0101, 'us': 1.010101}


def finer(t, unit):
    """step lengths that are no whole minutes (seconds, milliseconds)"""
    f = FINE[unit]
    t['dt'] = [round(x * 3600 * f, 6) / 3600 for x in t['dt']]
    if t.get('last') is not None: t['last'] = t['dt'][-1]
    if t.get('prev') is not None: t['prev'] = [x * f for x in t['prev']] if isinstance(t['prev'], list) else t['prev'] * f


class Built:
    def __init__(self):
        self.fs = None
        self.effects, self.buses, self.comps, self.flows = {}, {}, {}, {}


def build(spec, order=None):
    B = Built()
    SHARED.clear()
    t = spec['time']
    kw = {}
    if t.get('last') is not None:
        kw['last_time_step_hours'] = t['last']
    if t.get('prev') is not None:
        kw['previous_dt_in_hours'] = np.array(t['prev'], float) if isinstance(t['prev'], list) else t['prev']
    B.fs = fx.FlowSystem(time_array(t), **kw)
    # effects: targets of shares first
    todo = list(spec['effects'])
    while todo:
        for e in todo:
            tg = set((e.get('share_op') or {})) | set((e.get('share_inv') or {}))
            if tg <= set(B.effects):
                break
        else:
            raise ValueError('circular shares in spec')
        todo.remove(e)
        k = {}
        for a, b in (('min_op', 'minimum_operation'), ('max_op', 'maximum_operation'), ('min_inv', 'minimum_invest'),
                     ('max_inv', 'maximum_invest'), ('min_tot', 'minimum_total'), ('max_tot', 'maximum_total'),
                     ('min_ph', 'minimum_operation_per_hour'), ('max_ph', 'maximum_operation_per_hour')):
            if e.get(a) is not None:
                k[b] = val(e[a])
        if e.get('share_op'):
            k['specific_share_to_other_effects_operation'] = {B.effects[x]: val(v) for x, v in e['share_op'].items()}
        if e.get('share_inv'):
            k['specific_share_to_other_effects_invest'] = {B.effects[x]: val(v) for x, v in e['share_inv'].items()}
        B.effects[e['label']] = fx.Effect(e['label'], 'u', 'effect ' + e['label'], is_standard=bool(e.get('std')),
                                          is_objective=bool(e.get('obj')), meta_data=e.get('meta'), **k)
    for b in spec['buses']:
        B.buses[b['label']] = fx.Bus(b['label'], excess_penalty_per_flow_hour=val(b.get('pen')),
                                     meta_data=b.get('meta'))
    shared = {}

    def effv(v):
        if isinstance(v, dict) and 'fx' in v:
            d = {(None if a == '' else B.effects[a]): val(x) for a, x in v['fx'].items()}
            if v.get('share') is not None:
                return shared.setdefault(('eff', v['share']), d)
            return d
        return val(v)

    def invest(p):
        if not isinstance(p, dict):
            return p
        k = {}
        for a, b in (('fixed', 'fixed_size'), ('min', 'minimum_size'), ('max', 'maximum_size'),
                     ('optional', 'optional')):
            if p.get(a) is not None:
                k[b] = p[a]
        for a, b in (('fix', 'fix_effects'), ('spec', 'specific_effects'), ('div', 'divest_effects')):
            if p.get(a) is not None:
                k[b] = effv(p[a])
        if p.get('seg') is not None:
            k['effects_in_segments'] = ([tuple(s) for s in p['seg'][0]],
                                        {B.effects[x]: [tuple(s) for s in v] for x, v in p['seg'][1].items()})
        o = fx.InvestParameters(**k)
        if p.get('share') is not None:
            return shared.setdefault(('inv', p['share']), o)
        return o

    def onoff(p):
        if p is None:
            return None
        k = {}
        for a, b in (('sw', 'effects_per_switch_on'), ('run', 'effects_per_running_hour')):
            if p.get(a) is not None:
                k[b] = effv(p[a])
        for a, b in (('on_min', 'on_hours_total_min'), ('on_max', 'on_hours_total_max'),
                     ('con_min', 'consecutive_on_hours_min'), ('con_max', 'consecutive_on_hours_max'),
                     ('coff_min', 'consecutive_off_hours_min'), ('coff_max', 'consecutive_off_hours_max'),
                     ('sw_max', 'switch_on_total_max'), ('force', 'force_switch_on')):
            if p.get(a) is not None:
                k[b] = val(p[a])
        o = fx.OnOffParameters(**k)
        if p.get('share') is not None:
            return shared.setdefault(('onoff', p['share']), o)
        return o

    def flow(f, comp):
        k = {}
        if f.get('size') is not None:
            k['size'] = invest(f['size'])
        for a, b in (('rmin', 'relative_minimum'), ('rmax', 'relative_maximum'), ('prof', 'fixed_relative_profile'),
                     ('fh_max', 'flow_hours_total_max'), ('fh_min', 'flow_hours_total_min'),
                     ('lf_min', 'load_factor_min'), ('lf_max', 'load_factor_max'), ('prev', 'previous_flow_rate')):
            if f.get(a) is not None:
                k[b] = val(f[a])
        if f.get('eff') is not None:
            k['effects_per_flow_hour'] = effv(f['eff'])
        if f.get('onoff') is not None:
            k['on_off_parameters'] = onoff(f['onoff'])
        if f.get('meta') is not None:
            k['meta_data'] = f['meta']
        o = fx.Flow(f['label'], B.buses[f['bus']], **k)
        B.flows[(comp, f['label'])] = o
        return o

    for c in spec['comps']:
        B.comps[c['label']] = make_comp(B, c, flow, onoff, invest)
    els = [B.effects[e['label']] for e in spec['effects']] + list(B.comps.values())
    if order is not None:
        els = [els[i] for i in order]
    B.fs.add_elements(*els)
    return B


def make_comp(B, c, flow, onoff, invest):
    L = c['label']
    k = {}
    if c.get('meta') is not None:
        k['meta_data'] = c['meta']
    kind = c['kind']
    if kind == 'source':
        return fx.Source(L, flow(c['flow'], L), **k)
    if kind == 'sink':
        return fx.Sink(L, flow(c['flow'], L), **k)
    if kind == 'sas':
        if c.get('prevent') is not None:
            k['prevent_simultaneous_flows'] = c['prevent']
        return fx.SourceAndSink(L, source=flow(c['source'], L), sink=flow(c['sink'], L), **k)
    if kind == 'storage':
        for a, b in (('cmin', 'relative_minimum_charge_state'), ('cmax', 'relative_maximum_charge_state'),
                     ('fmin', 'minimal_final_charge_state'), ('fmax', 'maximal_final_charge_state'),
                     ('eta_c', 'eta_charge'), ('eta_d', 'eta_discharge'), ('loss', 'relative_loss_per_hour'),
                     ('prevent', 'prevent_simultaneous_charge_and_discharge')):
            if c.get(a) is not None:
                k[b] = val(c[a])
        if 'init' in c:
            k['initial_charge_state'] = c['init']      # may be None (= free)
        return fx.Storage(L, charging=flow(c['charging'], L), discharging=flow(c['discharging'], L),
                          capacity_in_flow_hours=invest(c['cap']), **k)
    if kind == 'trans':
        k.pop('meta_data', None)
        for a, b in (('rel', 'relative_losses'), ('abs', 'absolute_losses')):
            if c.get(a) is not None:
                k[b] = val(c[a])
        if c.get('onoff') is not None:
            k['on_off_parameters'] = onoff(c['onoff'])
        if c.get('prevent') is not None:
            k['prevent_simultaneous_flows_in_both_directions'] = c['prevent']
        if c.get('in2') is not None:
            k['in2'], k['out2'] = flow(c['in2'], L), flow(c['out2'], L)
        return fx.Transmission(L, flow(c['in1'], L), flow(c['out1'], L), **k)
    if c.get('onoff') is not None:
        k['on_off_parameters'] = onoff(c['onoff'])
    if kind == 'comp':
        ins, outs = [flow(f, L) for f in c['ins']], [flow(f, L) for f in c['outs']]
        byl = {f['label']: o for f, o in zip(c['ins'] + c['outs'], ins + outs)}
        if c.get('excl') is not None:
            k['prevent_simultaneous_flows'] = [byl[a] for a in c['excl']]
        return fx.elements.Component(L, inputs=ins, outputs=outs, **k)
    if kind == 'conv':
        ins, outs = [flow(f, L) for f in c['ins']], [flow(f, L) for f in c['outs']]
        byl = {f['label']: o for f, o in zip(c['ins'] + c['outs'], ins + outs)}
        if c.get('factors') is not None:
            k['conversion_factors'] = [{byl[a]: val(v) for a, v in d.items()} for d in c['factors']]
        if c.get('segs') is not None:
            k['segmented_conversion_factors'] = {byl[a]: [(val(s[0]), val(s[1])) for s in v]
                                                 for a, v in c['segs'].items()}
        return fx.LinearConverter(L, ins, outs, **k)
    lc = fx.linear_converters
    if kind == 'boiler':
        return lc.Boiler(L, eta=val(c['eta']), Q_fu=flow(c['fu'], L), Q_th=flow(c['th'], L), **k)
    if kind == 'p2h':
        return lc.Power2Heat(L, eta=val(c['eta']), P_el=flow(c['el'], L), Q_th=flow(c['th'], L), **k)
    if kind == 'hp':
        return lc.HeatPump(L, COP=val(c['cop']), P_el=flow(c['el'], L), Q_th=flow(c['th'], L), **k)
    if kind == 'hps':
        return lc.HeatPumpWithSource(L, COP=val(c['cop']), P_el=flow(c['el'], L), Q_ab=flow(c['ab'], L),
                                     Q_th=flow(c['th'], L), **k)
    if kind == 'chp':
        return lc.CHP(L, eta_th=val(c['eta_th']), eta_el=val(c['eta_el']), Q_fu=flow(c['fu'], L),
                      P_el=flow(c['el'], L), Q_th=flow(c['th'], L), **k)
    if kind == 'ct':
        return lc.CoolingTower(L, specific_electricity_demand=val(c['sed']), P_el=flow(c['el'], L),
                               Q_th=flow(c['th'], L), **k)
    raise ValueError(kind)
