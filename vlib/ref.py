"""Independent reference: the documented meaning of a spec as a MILP (never imports flixOpt)."""
import numpy as np
from . import hs

EPS = 1e-5        # documented CONFIG.modeling.EPSILON: 'on' means at least this much flow
BIG = 1e7         # documented CONFIG.modeling.BIG: default size
TOL = 1e-9


def raw(v):
    while isinstance(v, dict):
        if 'tsd' in v:
            v = v['tsd']
        elif 'intarr' in v:
            v = v['intarr']
        elif 'npf' in v:
            v = v['npf']
        elif 'npi' in v:
            v = v['npi']
        elif 'one' in v:
            v = v['of']
        else:
            raise ValueError(v)
    return v


def vec(v, n, default=None):
    """value -> vector of n numbers (None -> default or None)"""
    v = raw(v)
    if v is None:
        if default is None:
            return None
        v = default
    if isinstance(v, (list, tuple, np.ndarray)):
        a = np.array(v, float)
        assert len(a) == n, (len(a), n)
        return a
    return np.full(n, float(v))


def add(e, f, k=1.0):
    for a, b in f.items():
        e[a] = e.get(a, 0.0) + k * b
    return e


def flows_of(c):
    k = c['kind']
    if k == 'source': return [], [c['flow']]
    if k == 'sink': return [c['flow']], []
    if k == 'sas': return [c['sink']], [c['source']]
    if k == 'storage': return [c['charging']], [c['discharging']]
    if k == 'trans':
        return [f for f in (c['in1'], c.get('in2')) if f], [f for f in (c['out1'], c.get('out2')) if f]
    if k in ('conv', 'comp'): return c['ins'], c['outs']
    if k == 'boiler': return [c['fu']], [c['th']]
    if k == 'p2h': return [c['el']], [c['th']]
    if k == 'hp': return [c['el']], [c['th']]
    if k == 'hps': return [c['el'], c['ab']], [c['th']]
    if k == 'chp': return [c['fu']], [c['th'], c['el']]
    if k == 'ct': return [c['el'], c['th']], []
    raise ValueError(k)


def factor_equations(c, n):
    """list of {flow label: vector}; sum over inputs f*rate - sum over outputs f*rate = 0"""
    k = c['kind']
    one = np.ones(n)
    if k == 'conv':
        return [{a: vec(v, n) for a, v in d.items()} for d in (c.get('factors') or [])]
    if k == 'boiler': return [{c['fu']['label']: vec(c['eta'], n), c['th']['label']: one}]
    if k == 'p2h': return [{c['el']['label']: vec(c['eta'], n), c['th']['label']: one}]
    if k == 'hp': return [{c['el']['label']: vec(c['cop'], n), c['th']['label']: one}]
    if k == 'hps':
        cop = vec(c['cop'], n)      # Q_th = COP * P_el and Q_th = P_el + Q_ab
        return [{c['el']['label']: cop, c['th']['label']: one},
                {c['el']['label']: one, c['ab']['label']: one, c['th']['label']: one}]
    if k == 'chp':
        return [{c['fu']['label']: vec(c['eta_th'], n), c['th']['label']: one},
                {c['fu']['label']: vec(c['eta_el'], n), c['el']['label']: one}]
    if k == 'ct': return [{c['el']['label']: one, c['th']['label']: -vec(c['sed'], n)}]
    return []


def prevent_group(c):
    k = c['kind']
    if k == 'comp':
        return c.get('excl') or []
    if k == 'sas' and c.get('prevent', True) is not False:
        return [c['sink']['label'], c['source']['label']]
    if k == 'storage' and c.get('prevent', True) is not False:
        return [c['charging']['label'], c['discharging']['label']]
    if k == 'trans' and c.get('in2') is not None and c.get('prevent', True) is not False:
        return [c['in1']['label'], c['in2']['label']]
    return []


def effective_onoff(c, n):
    """flow label -> on/off parameter dict ({} = plain) or None"""
    ins, outs = flows_of(c)
    out = {}
    force = c.get('onoff') is not None
    if c['kind'] == 'trans' and c.get('abs') is not None and np.any(vec(c['abs'], n) != 0):
        force = True
    grp = prevent_group(c)
    for f in ins + outs:
        o = f.get('onoff')
        if o is None and (force or f['label'] in grp):
            o = {}
        out[f['label']] = o
    return out


def invest_of_flow(c, f):
    """invest dict of a flow (transmission: in2 takes over an investment with the same maximum)"""
    s = f.get('size')
    if isinstance(s, dict):
        return s
    if c['kind'] == 'trans' and c.get('in2') is f and isinstance(c['in1'].get('size'), dict):
        p = c['in1']['size']
        return {'max': inv_rng(p)[1], 'twin': True}
    return None


def inv_rng(p):
    fixed = p.get('fixed')
    if fixed is not None:
        return fixed, fixed
    return (p.get('min') or 0.0), (BIG if p.get('max') is None else p['max'])


def size_of(f):
    return BIG if f.get('size') is None else float(f['size'])


def effd(v, std):
    """effect values -> {effect label: value}"""
    if v is None:
        return {}
    if isinstance(v, dict) and 'fx' in v:
        out = {}
        for a, x in v['fx'].items():
            if x is None:
                continue
            out[a or std] = x
        return out
    return {std: v}


def time_info(t):
    dt = np.array(t['dt'], float)
    prev = t.get('prev')
    if prev is None:
        prev = dt[0]
    return dt, prev


def prev_states(prevs):
    """list of previous values (None|number|list) of the flows of an element -> list of 0/1 or None"""
    p = [x for x in prevs if x is not None]
    if not p:
        return [0]
    p = [np.atleast_1d(np.array(x, float)) for x in p]
    m = max(len(x) for x in p)
    p = [np.concatenate([np.zeros(m - len(x)), x]) for x in p]
    return [int(b) for b in np.any(np.abs(np.array(p)) > EPS, axis=0)]


def prev_duration(states, prev_dt, value=1):
    """hours the element has already been in `value` before the first step"""
    k = 0
    for s in reversed(states):
        if s != value:
            break
        k += 1
    if k == 0:
        return 0.0
    if isinstance(prev_dt, (list, tuple, np.ndarray)):
        return float(np.sum(np.array(prev_dt, float)[-k:])) if len(states) > 1 or k > 1 else float(prev_dt[-1])
    return float(k * prev_dt)


class Ref:
    def __init__(self, spec, relax=()):
        self.spec = spec
        self.relax = set(relax)
        t = spec['time']
        self.dt, self.prev_dt = time_info(t)
        self.n = len(self.dt)
        self.lp = hs.LP()
        self.rate, self.on, self.size, self.inv = {}, {}, {}, {}
        self.con = {}
        self.cs = {}
        self.swv = {}
        self.segv = []
        self.segz = {}
        self.exin, self.exout = {}, {}
        self.effects = [e['label'] for e in spec['effects']]
        self.std = next((e['label'] for e in spec['effects'] if e.get('std')), None)
        self.obj = next(e['label'] for e in spec['effects'] if e.get('obj'))
        self.op = {e: [dict() for _ in range(self.n)] for e in self.effects}     # own contributions
        self.ivc = {e: dict() for e in self.effects}
        self.pen = {}
        self.build()

    # ---- helpers
    def share_op(self, v, exprs, factor=None):
        for e, x in effd(v, self.std).items():
            a = vec(x, self.n)
            for t in range(self.n):
                add(self.op[e][t], exprs[t], a[t] * (1.0 if factor is None else factor[t]))

    def share_inv(self, v, expr):
        for e, x in effd(v, self.std).items():
            add(self.ivc[e], expr, float(raw(x)))

    def build(self):
        n, dt, lp = self.n, self.dt, self.lp
        for c in self.spec['comps']:
            ins, outs = flows_of(c)
            eo = effective_onoff(c, n)
            for f in ins + outs:
                self.flow(c, f, eo[f['label']])
            self.component(c, ins, outs)
        for b in self.spec['buses']:
            bal = [dict() for _ in range(n)]
            for c in self.spec['comps']:
                ins, outs = flows_of(c)
                for f, s in [(f, -1) for f in ins] + [(f, 1) for f in outs]:
                    if f['bus'] == b['label']:
                        for t in range(n):
                            add(bal[t], {self.rate[c['label'], f['label']][t]: s})
            p = vec(b.get('pen'), n)
            if not any(bal):
                continue                                  # nobody connected: not part of the system
            if p is not None:
                xi = [lp.var(0, name=f'{b["label"]}.xi{t}') for t in range(n)]
                xo = [lp.var(0, name=f'{b["label"]}.xo{t}') for t in range(n)]
                self.exin[b['label']], self.exout[b['label']] = xi, xo
                for t in range(n):
                    add(bal[t], {xi[t]: 1, xo[t]: -1})
                    add(self.pen, {xi[t]: p[t] * dt[t], xo[t]: p[t] * dt[t]})
            for t in range(n):
                lp.eq(bal[t], 0, f'balance {b["label"]} {t}')
        self.effect_totals()

    def flow(self, c, f, oo):
        n, dt, lp = self.n, self.dt, self.lp
        key = (c['label'], f['label'])
        nm = '.'.join(key)
        inv = invest_of_flow(c, f)
        prof = vec(f.get('prof'), n)
        lo = vec(f.get('rmin'), n, 0.0) if prof is None else prof
        hi = vec(f.get('rmax'), n, 1.0) if prof is None else prof
        S = None
        if inv is None:
            S = size_of(f)
            smin = smax = S
        else:
            s = self.investment(nm, inv)
            self.size[key] = s
            smin, smax = inv_rng(inv)
        r = [lp.var(-hs.INF if (prof is not None and np.any(prof < 0)) else 0.0, hs.INF, name=f'{nm}.rate{t}') for t in range(n)]
        self.rate[key] = r
        on = None
        if oo is not None:
            on = [lp.bin(f'{nm}.on{t}') for t in range(n)]
            self.on[key] = on
        for t in range(n):
            if inv is None:
                if on is None:
                    lp.lb[r[t]], lp.ub[r[t]] = lo[t] * S, hi[t] * S
                else:
                    lp.ge({r[t]: 1, on[t]: -max(EPS, lo[t] * S)}, 0)
                    lp.le({r[t]: 1, on[t]: -hi[t] * S}, 0)
            elif prof is not None:
                lp.eq({r[t]: 1, s: -prof[t]}, 0)
                if on is not None:
                    lp.ge({r[t]: 1, on[t]: -EPS}, 0)
                    lp.le({r[t]: 1, on[t]: -hi[t] * smax}, 0)
            else:
                lp.le({r[t]: 1, s: -hi[t]}, 0)
                if on is None:
                    lp.ge({r[t]: 1, s: -lo[t]}, 0)
                else:
                    M = hi[t] * smax
                    lp.ge({r[t]: 1, on[t]: -EPS}, 0)
                    lp.le({r[t]: 1, on[t]: -M}, 0)
                    lp.ge({r[t]: 1, s: -lo[t], on[t]: -lo[t] * smax}, -lo[t] * smax)
        tot = {r[t]: dt[t] for t in range(n)}
        if f.get('fh_min') is not None: lp.ge(tot, f['fh_min'])
        # a sum of flow hours is a non-negative quantity by default
        if f.get('fh_max') is not None: lp.le(tot, f['fh_max'])
        T = float(np.sum(dt))
        for a, sgn in (('lf_max', 1), ('lf_min', -1)):
            if f.get(a) is not None:
                e = {k: sgn * v for k, v in tot.items()}
                if inv is None:
                    lp.le(e, sgn * f[a] * S * T)
                else:
                    e[s] = e.get(s, 0) - sgn * f[a] * T
                    lp.le(e, 0)
        self.share_op(f.get('eff'), [{r[t]: 1} for t in range(n)], dt)
        if oo is not None:
            self.onoff(key, oo, on, prev_states([f.get('prev')]))

    def investment(self, nm, p):
        lp = self.lp
        smin, smax = inv_rng(p)
        opt = p.get('optional', True) is not False
        if p.get('fixed'):
            s = lp.var(0 if opt else smin, smax, name=nm + '.size')
        else:
            s = lp.var(0 if opt else smin, smax, name=nm + '.size')
        b = None
        if opt:
            b = lp.bin(nm + '.inv')
            self.inv[nm] = b
            lp.le({s: 1, b: -smax}, 0)
            lp.ge({s: 1, b: -(smin if p.get('fixed') is not None else max(EPS, smin))}, 0)
        if p.get('fix') is not None:
            self.share_inv(p['fix'], {b: 1.0} if opt else {None: 1.0})
        if p.get('div') is not None and opt:
            self.share_inv(p['div'], {None: 1.0, b: -1.0})
        if p.get('spec') is not None:
            self.share_inv(p['spec'], {s: 1.0})
        if p.get('seg') is not None:
            segs, costs = p['seg']
            cv = {e: lp.var(-hs.INF, name=f'{nm}.seg.{e}') for e in costs}
            self.segv.append((s, b, segs, cv, costs))
            self.pieces([(s, segs)] + [(cv[e], costs[e]) for e in costs], b)
            for e in costs:
                add(self.ivc[e], {cv[e]: 1.0})
        return s

    def pieces(self, items, on):
        """items: (variable, [(a, b), ..]); all on the same point of one segment; on None: must be on one"""
        lp = self.lp
        m = len(items[0][1])
        z = [lp.bin() for _ in range(m)]
        w = [lp.var(0, 1) for _ in range(m)]          # position weight towards the end point
        for k in range(m):
            lp.le({w[k]: 1, z[k]: -1}, 0)
        lp.eq({**{x: 1.0 for x in z}, **({on: -1.0} if on is not None else {})}, 0 if on is not None else 1)
        for v, seg in items:
            e = {v: -1.0}
            for k in range(m):
                a, b = seg[k]
                add(e, {z[k]: a, w[k]: b - a})
            lp.eq(e, 0)
        return z

    def onoff(self, key, p, on, states):
        n, dt, lp = self.n, self.dt, self.lp
        tot = {on[t]: dt[t] for t in range(n)}
        if p.get('on_min') is not None: lp.ge(tot, p['on_min'])
        if p.get('on_max') is not None: lp.le(tot, p['on_max'])
        sw = [lp.var(0, 1, name=f'sw{t}') for t in range(n)]
        self.swv[key] = sw
        for t in range(n):
            before = {on[t - 1]: 1.0} if t else {None: float(states[-1])}
            lp.ge(add({sw[t]: 1.0, on[t]: -1.0}, before), 0)
            lp.le({sw[t]: 1.0, on[t]: -1.0}, 0)
            lp.le(add({sw[t]: 1.0}, before), 1)
        if p.get('sw_max') is not None:
            lp.le({x: 1.0 for x in sw}, p['sw_max'])
        self.share_op(p.get('sw'), [{x: 1.0} for x in sw])
        self.share_op(p.get('run'), [{x: 1.0} for x in on], dt)
        for val_, mn, mx in ((1, p.get('con_min'), p.get('con_max')), (0, p.get('coff_min'), p.get('coff_max'))):
            if mn is None and mx is None:
                continue
            mn, mx = vec(mn, n), vec(mx, n)
            pd = prev_duration(states, self.prev_dt, val_)
            inb = (lambda t: {on[t]: 1.0}) if val_ else (lambda t: {None: 1.0, on[t]: -1.0})       # 1 if in state
            notb = (lambda t: {None: 1.0, on[t]: -1.0}) if val_ else (lambda t: {on[t]: 1.0})
            if mn is not None and 0 < pd < mn[0] - TOL:
                lp.ge(inb(0), 1)
            for s in range(n):
                d = 0.0
                for e in range(s, n):
                    d += dt[e]
                    dur = d + (pd if s == 0 else 0.0)
                    cut = {}
                    for t in range(s, e + 1):
                        add(cut, notb(t))
                    if s > 0:
                        add(cut, inb(s - 1))
                    if mx is not None and dur > mx[e] + TOL:
                        lp.ge(dict(cut), 1)
                    if mn is not None and e < n - 1 and dur < mn[e] - TOL:
                        lp.ge(add(dict(cut), inb(e + 1)), 1)

    def component(self, c, ins, outs):
        n, dt, lp = self.n, self.dt, self.lp
        L = c['label']
        R = {f['label']: self.rate[L, f['label']] for f in ins + outs}
        con = None
        if c.get('onoff') is not None:
            con = [lp.bin(f'{L}.on{t}') for t in range(n)]
            self.con[L] = con
            for t in range(n):
                fo = [self.on[L, f['label']][t] for f in ins + outs]
                for x in fo:
                    lp.ge({con[t]: 1.0, x: -1.0}, 0)
                lp.le(add({con[t]: 1.0}, {x: -1.0 for x in fo}), 0)
            self.onoff(L, c['onoff'], con, prev_states([f.get('prev') for f in ins + outs]))
        grp = prevent_group(c)
        if grp:
            for t in range(n):
                lp.le({self.on[L, g][t]: 1.0 for g in grp}, 1)
        for eqn in factor_equations(c, n):
            inl = {f['label'] for f in ins}
            for t in range(n):
                lp.eq({R[a][t]: (v[t] if a in inl else -v[t]) for a, v in eqn.items()}, 0)
        if c['kind'] == 'conv' and c.get('segs') is not None:
            sg = {a: [(vec(s[0], n), vec(s[1], n)) for s in v] for a, v in c['segs'].items()}
            for t in range(n):
                self.segz[L, t] = self.pieces([(R[a][t], [(x[t], y[t]) for x, y in v]) for a, v in sg.items()],
                                              con[t] if con is not None else None)
        if c['kind'] == 'storage':
            self.storage(c, R)
        if c['kind'] == 'trans':
            rel, ab = vec(c.get('rel'), n, 0.0), vec(c.get('abs'), n, 0.0)
            for i, o in (('in1', 'out1'), ('in2', 'out2')):
                if c.get(i) is None:
                    continue
                a, b = c[i]['label'], c[o]['label']
                for t in range(n):
                    e = {R[a][t]: 1 - rel[t], R[b][t]: -1.0}
                    if ab[t] != 0:
                        e[self.on[L, a][t]] = -ab[t]
                    lp.eq(e, 0)
            if c.get('in2') is not None and isinstance(c['in1'].get('size'), dict):
                lp.eq({self.size[L, c['in1']['label']]: 1, self.size[L, c['in2']['label']]: -1}, 0)

    def storage(self, c, R):
        n, dt, lp = self.n, self.dt, self.lp
        L = c['label']
        lo = vec(c.get('cmin'), n + 1, 0.0)
        hi = vec(c.get('cmax'), n + 1, 1.0)
        cap = c['cap']
        cs = [lp.var(0, hs.INF, name=f'{L}.cs{t}') for t in range(n + 1)]
        self.cs[L] = cs
        if isinstance(cap, dict):
            s = self.investment(L, cap)
            self.size[L] = s
        for t in range(n + 1):
            if isinstance(cap, dict):
                lp.le({cs[t]: 1, s: -hi[t]}, 0)
                lp.ge({cs[t]: 1, s: -lo[t]}, 0)
            else:
                lp.lb[cs[t]], lp.ub[cs[t]] = lo[t] * cap, hi[t] * cap
        ec, ed, ls = vec(c.get('eta_c'), n, 1.0), vec(c.get('eta_d'), n, 1.0), vec(c.get('loss'), n, 0.0)
        ch, di = R[c['charging']['label']], R[c['discharging']['label']]
        for t in range(n):
            lp.eq({cs[t + 1]: 1, cs[t]: -(1 - ls[t] * dt[t]), ch[t]: -ec[t] * dt[t], di[t]: dt[t] / ed[t]}, 0)
        init = c.get('init', 0)
        if init == 'lastValueOfSim':
            lp.eq({cs[0]: 1, cs[n]: -1}, 0)
        elif init is not None:
            lp.eq({cs[0]: 1}, init)
        if c.get('fmin') is not None: lp.ge({cs[n]: 1}, c['fmin'])
        if c.get('fmax') is not None: lp.le({cs[n]: 1}, c['fmax'])

    def effect_totals(self):
        n, dt, lp = self.n, self.dt, self.lp
        es = {e['label']: e for e in self.spec['effects']}
        V = {e: [lp.var(-hs.INF, name=f'{e}.op{t}') for t in range(n)] for e in es}
        I = {e: lp.var(-hs.INF, name=f'{e}.inv') for e in es}
        self.V, self.I = V, I
        for e in es:
            own, iv = self.op[e], dict(self.ivc[e])
            for o, eo in es.items():
                so = eo.get('share_op') or {}
                if e in so:
                    a = vec(so[e], n)
                    for t in range(n):
                        add(own[t], {V[o][t]: a[t]})
                si = eo.get('share_inv') or {}
                if e in si:
                    add(iv, {I[o]: float(raw(si[e]))})
            for t in range(n):
                lp.eq(add(dict(own[t]), {V[e][t]: -1.0}), 0)
            lp.eq(add(iv, {I[e]: -1.0}), 0)
            d = es[e]
            tot = {V[e][t]: 1.0 for t in range(n)}
            al = add(dict(tot), {I[e]: 1.0})
            for ex, mn, mx in ((tot, 'min_op', 'max_op'), ({I[e]: 1.0}, 'min_inv', 'max_inv'), (al, 'min_tot', 'max_tot')):
                if d.get(mn) is not None: lp.ge(dict(ex), d[mn])
                if d.get(mx) is not None: lp.le(dict(ex), d[mx])
            a, b = vec(d.get('min_ph'), n), vec(d.get('max_ph'), n)
            for t in range(n):
                if a is not None: lp.lb[V[e][t]] = a[t] * dt[t]
                if b is not None: lp.ub[V[e][t]] = b[t] * dt[t]
        o = add({**{V[self.obj][t]: 1.0 for t in range(n)}, I[self.obj]: 1.0}, self.pen)
        for k, v in o.items():
            if k is None:
                lp.offset += v
            else:
                lp.c[k] += v

    def solve(self, **kw):
        return hs.solve(self.lp, **kw)
