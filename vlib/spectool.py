"""Structured rewriting of specs: every value that may depend on time, windows, references to labels."""
import copy
from . import ref as R


def map_values(spec, fn):
    """new spec in which every time-dependent value v (of n or n+1 numbers) became fn(v, extra, where)"""
    s = copy.deepcopy(spec)

    def on(d, k, extra=0, where=None):
        if d.get(k) is not None:
            d[k] = fn(d[k], extra, where or k)

    def effv(d, k):
        v = d.get(k)
        if v is None:
            return
        if isinstance(v, dict) and 'fx' in v:
            for e in v['fx']:
                v['fx'][e] = fn(v['fx'][e], 0, k)
        else:
            d[k] = fn(v, 0, k)

    def onoff(o):
        if o is None:
            return
        effv(o, 'sw'); effv(o, 'run')
        for k in ('con_min', 'con_max', 'coff_min', 'coff_max'):
            on(o, k)

    for b in s['buses']:
        on(b, 'pen')
    for e in s['effects']:
        for x in (e.get('share_op') or {}):
            e['share_op'][x] = fn(e['share_op'][x], 0, 'share_op')
        on(e, 'min_ph'); on(e, 'max_ph')
    for c in s['comps']:
        for k in ('eta', 'cop', 'eta_th', 'eta_el', 'sed', 'eta_c', 'eta_d', 'loss', 'rel', 'abs'):
            on(c, k)
        on(c, 'cmin', 1); on(c, 'cmax', 1)
        for d in c.get('factors') or []:
            for a in d:
                d[a] = fn(d[a], 0, 'factor')
        for a, v in (c.get('segs') or {}).items():
            for p in v:
                p[0] = fn(p[0], 0, 'seg'); p[1] = fn(p[1], 0, 'seg')
        onoff(c.get('onoff'))
        ins, outs = R.flows_of(c)
        for f in ins + outs:
            on(f, 'prof'); on(f, 'rmin'); on(f, 'rmax')
            effv(f, 'eff')
            onoff(f.get('onoff'))
    return s


def on_raw(v, g):
    """applies g to the list inside a value (scalars stay)"""
    if isinstance(v, dict):
        for k in ('tsd', 'intarr'):
            if k in v:
                return {**v, k: on_raw(v[k], g)}
        raise ValueError(v)
    if isinstance(v, list):
        return g(v)
    return v


def window(spec, a, b):
    """the spec of the steps a..b-1 only"""
    s = map_values(spec, lambda v, extra, w: on_raw(v, lambda x: x[a:b + extra]))
    t = dict(spec['time'])
    dt = t['dt']
    if t.get('prev') is None:
        t['prev'] = dt[0]
    t['offset'] = sum(dt[:a]) + t.get('offset', 0.0)
    t['dt'] = dt[a:b]
    t['last'] = dt[b - 1]
    s['time'] = t
    return s


def all_onoff(spec):
    for c in spec['comps']:
        if c.get('onoff') is not None:
            yield c, None, c['onoff']
        ins, outs = R.flows_of(c)
        for f in ins + outs:
            if f.get('onoff') is not None:
                yield c, f, f['onoff']


def all_flows(spec):
    for c in spec['comps']:
        ins, outs = R.flows_of(c)
        for f in ins + outs:
            yield c, f


def relabel(spec, comps=None, flows=None, buses=None, effects=None):
    """new spec with other labels: comps/buses/effects {old: new}, flows {(comp, old): new} (old component labels)"""
    s = copy.deepcopy(spec)
    comps, flows, buses, effects = comps or {}, flows or {}, buses or {}, effects or {}

    def E(d):
        return {effects.get(k, k): v for k, v in d.items()}

    def effv(o, k):
        v = o.get(k)
        if isinstance(v, dict) and 'fx' in v:
            v['fx'] = E(v['fx'])

    def onoff(o):
        if o:
            effv(o, 'sw'); effv(o, 'run')

    def invest(p):
        if isinstance(p, dict):
            for k in ('fix', 'spec', 'div'):
                effv(p, k)
            if p.get('seg') is not None:
                p['seg'][1] = E(p['seg'][1])

    for b in s['buses']:
        b['label'] = buses.get(b['label'], b['label'])
    for e in s['effects']:
        e['label'] = effects.get(e['label'], e['label'])
        for k in ('share_op', 'share_inv'):
            if e.get(k):
                e[k] = E(e[k])
    for c in s['comps']:
        L = c['label']
        ins, outs = R.flows_of(c)
        for f in ins + outs:
            f['label'] = flows.get((L, f['label']), f['label'])
            f['bus'] = buses.get(f['bus'], f['bus'])
            effv(f, 'eff')
            onoff(f.get('onoff'))
            invest(f.get('size'))
        if c.get('factors') is not None:
            c['factors'] = [{flows.get((L, a), a): v for a, v in d.items()} for d in c['factors']]
        if c.get('excl') is not None:
            c['excl'] = [flows.get((L, a), a) for a in c['excl']]
        if c.get('segs') is not None:
            c['segs'] = {flows.get((L, a), a): v for a, v in c['segs'].items()}
        onoff(c.get('onoff'))
        invest(c.get('cap'))
        c['label'] = comps.get(L, L)
    return s
