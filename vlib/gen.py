"""Hypothesis generators for specs.  All random choices go through `draw`; values lie on coarse grids."""
from . import env
env.setup_path()
from hypothesis import strategies as st

DEF = dict(
    n=(3, 6), irreg=35, res=10, last=25, prevdt=15, arr=35, tsd=12,
    effects=25, share=40, objother=5, effdict=30, effect_neg=10,
    buses=(1, 3), pen_none=12, pen_arr=15, extra=(1, 3),
    onoff=10, con_onoff=8, dur=0, starts=30, run=30, on_tot=15, prev=20,
    invest=8, inv_profile=20, optional=60, fixed=35, inv_seg=0, div=25, cap_invest=10,
    rmin=15, rmax=20, prof=10, fh=5, lf=5,
    kinds=dict(source=2, sink=2, conv=3, named=3, storage=3, trans=1, sas=1, seg=1, comp=1),
    st_init=60, st_final=20, st_bounds=25, st_eta=50, st_noprevent=25,
    tr_abs=40, tr_rel=60, tr_bi=50, tr_inv=20, tr_noprevent=20, tr_onoff=15,
    limits=0, sas_noprevent=25, zero=4, pen_zero=6, neg_fac=6, pen_small=8, drive=0, grp=0, wide=5, samelab=15, odd=8,
)
LONG = 9        # longest history of a flow


class D:
    def __init__(self, draw, w):
        self.draw, self.w = draw, w
        self.k = 0
        self.odd = False

    def p(self, pct):
        if pct <= 0: return False
        if pct >= 100: return True
        return self.draw(st.integers(0, 99)) >= 100 - pct

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, xs):
        return self.draw(st.sampled_from(list(xs)))

    def wpick(self, d):
        items = [k for k, v in d.items() for _ in range(v)]
        return self.draw(st.sampled_from(items))

    def grid(self, a, b, step=0.25):
        """number on a grid, a..b (shrinks to a); in some systems off the grid, with many decimals"""
        x = a + step * self.draw(st.integers(0, int(round((b - a) / step))))
        return x * 0.9992743 if self.odd and self.k % 2 else x

    def ts(self, f, n=None, parr=None):
        """scalar, array or TimeSeriesData of values drawn by f()"""
        n = n or self.n
        if self.p(self.w['arr'] if parr is None else parr):
            v = [f() for _ in range(n)]
        else:
            v = f()
        if self.p(self.w['tsd']):
            o = {'tsd': v}
            if self.p(self.w['grp']):       # only matters for aggregated calculations
                if self.p(60): o['group'] = self.pick(['g1', 'g2'])
                else: o['weight'] = self.pick([0.5, 2.0, 1.5])
            return o
        return v

    def label(self, base):
        self.k += 1
        return f'{base}{self.k}'


def time_axis(d):
    w = d.w
    n = d.n = d.int(*w['n'])
    if d.p(w['irreg']):
        dt = [d.pick([1.0, 0.5, 2.0, 1.5, 0.25, 3.0]) for _ in range(n)]
    else:
        dt = [d.pick([1.0, 1.0, 0.5, 2.0, 0.25])] * n
    t = {'dt': dt}
    if d.p(w['res']):
        t['res'] = d.pick(['ns', 's', 'm', 'ms'])
    if dt[-1] != dt[-2] or d.p(w['last']):
        t['last'] = dt[-1] if d.p(70) or dt[-1] != int(dt[-1]) else int(dt[-1])
    if d.p(w['prevdt']):
        t['prev'] = d.pick([1.0, 2.0, 0.5]) if d.p(50) else [d.pick([1.0, 0.5, 2.0]) for _ in range(LONG)]
    return t


def effects(d):
    w = d.w
    es = [{'label': 'costs', 'std': True, 'obj': True}]
    if d.p(w['effects']):
        es.append({'label': 'CO2'})
        if d.p(w['share']):
            es[1]['share_op'] = {'costs': d.ts(lambda: d.grid(0.5, 4, 0.5))}
        if d.p(w['share']):
            es[1]['share_inv'] = {'costs': d.grid(0.5, 3, 0.5)}
        if d.p(40):
            es.append({'label': 'PE'})
            if d.p(w['share']):
                es[2]['share_op'] = {x: d.ts(lambda: d.grid(0.5, 2, 0.5)) for x in (['CO2', 'costs'] if d.p(40) else ['CO2'])}
            if d.p(w['share']):
                es[2]['share_inv'] = {'CO2': d.grid(0.5, 2, 0.5)}
        if d.p(w['objother']):
            o = es[0]; o['obj'] = False
            es[0].pop('obj')
            es[-1]['obj'] = True
    d.eff = [e['label'] for e in es]
    return es


def effvals(d, f, arr=True, noneok=True):
    """effect values in one of the notations; f() draws a number"""
    g = (lambda: d.ts(f)) if arr else f
    if d.p(d.w['effdict']) or (len(d.eff) > 1 and d.p(60)):
        keys = []
        for e in d.eff:
            if d.p(60): keys.append(e)
        if 'costs' not in keys and d.p(50): keys.insert(0, '')
        if not keys: keys = ['']
        return {'fx': {k: g() for k in keys}}
    return g()


def onoff(d, comp=False, dur=None):
    w = d.w
    o = {}
    dur = w['dur'] if dur is None else dur
    if d.p(w['starts']): o['sw'] = effvals(d, lambda: d.grid(1, 20, 1))
    if d.p(w['run']): o['run'] = effvals(d, lambda: d.grid(0.5, 5, 0.5))
    H = sum(d.dt)
    if d.p(w['on_tot']): o['on_max'] = d.grid(0.5, max(1.0, H), 0.5) if not d.p(7) else 0
    if d.p(w['on_tot'] // 2): o['on_min'] = d.grid(0.5, max(0.5, H / 2), 0.5)
    if d.p(w['on_tot']): o['sw_max'] = d.int(0, 3)
    if d.p(10): o['force'] = True
    hv = lambda: d.pick([1.0, 2.0, 1.5, 3.0, 0.5, 2.5, 4.0])
    mx = lambda: d.pick([2.0, 1.0, 3.0, 1.5, 4.0, 5.0])
    if d.p(dur): o['con_min'] = d.ts(hv, parr=15)
    if d.p(dur // 2): o['con_max'] = d.ts(mx, parr=15)
    if d.p(dur): o['coff_min'] = d.ts(hv, parr=15)
    if d.p(dur // 3): o['coff_max'] = d.ts(mx, parr=15)
    return o


def invest(d, lo=1, hi=40, storage=False, seg=None):
    w = d.w
    p = {}
    p['optional'] = d.p(w['optional'])
    if d.p(w['zero']):
        p[d.pick(['fixed', 'max'])] = 0
    elif d.p(w['fixed']):
        p['fixed'] = d.grid(lo, hi, 1)
    else:
        a = d.grid(0, hi / 2, 1)
        b = a + d.grid(1, hi, 1)
        if a: p['min'] = a
        p['max'] = b
    neg = d.p(w['effect_neg'])      # e.g. a subsidy
    g = lambda a, b, c: (lambda: d.grid(a, b, c) * (-1 if neg and d.p(60) else 1))
    if d.p(40): p['fix'] = effvals(d, g(1, 60, 1), arr=False)
    if d.p(50): p['spec'] = effvals(d, g(0.5, 8, 0.5), arr=False)
    if d.p(w['div']): p['div'] = effvals(d, g(1, 60, 1), arr=False)
    if 'fixed' not in p and p['max'] and d.p(w['inv_seg'] if seg is None else seg):
        m = d.int(1, 3)
        pts, x = [], max(p.get('min', 0.0), 0.0)
        if d.p(50): x = max(x, 1.0)
        for _ in range(m):
            y = x + d.grid(1, 15, 1)
            pts.append([x, y])
            x = y + (d.grid(0, 4, 1) if d.p(40) else 0.0)
        p['max'] = max(p['max'], pts[-1][1]) if d.p(70) else p['max']
        cost = {}
        for e in d.eff:
            if e == d.eff[0] or d.p(40):
                cs, c = [], d.grid(0, 20, 1)
                for _ in range(m):
                    c2 = c + d.grid(0, 30, 1) - (10 if d.p(20) else 0)
                    cs.append([c, c2])
                    c = c2 + (d.grid(0, 10, 1) if d.p(30) else 0)
                cost[e] = cs
        p['seg'] = [pts, cost]
    return p


def flow(d, bus, base='f', need_size=False, may=('rmin', 'rmax', 'prof', 'onoff', 'invest', 'fh', 'lf', 'eff'),
         cost=None, prev=None, hi=40, price=(0, 12)):
    w = d.w
    f = {'label': d.label(base), 'bus': bus}
    oo = 'onoff' in may and d.p(w['onoff'])
    inv = 'invest' in may and d.p(w['invest'])
    prof = 'prof' in may and d.p(w['inv_profile'] if inv else w['prof'])
    if inv:
        f['size'] = invest(d, hi=hi)
        if prof: f['size'].pop('seg', None) if False else None
    elif need_size or oo or prof or d.p(60):
        f['size'] = d.grid(2, hi, 1) if not d.p(w['zero']) else 0
        if d.p(8) and f['size'] == int(f['size']): f['size'] = int(f['size'])
    if prof:
        f['prof'] = d.ts(lambda: d.grid(0, 1, 0.125), parr=80)
    else:
        if f.get('size') is not None and 'rmin' in may and 'rmax' in may and d.p(w['wide'] * (3 if oo else 1)):
            wide_bounds(d, f)
            return flow_rest(d, f, w, oo, may, cost, price)
        if f.get('size') is not None and 'rmin' in may and d.p(w['rmin']):
            f['rmin'] = d.ts(lambda: d.grid(0, 0.5, 0.125))
        if f.get('size') is not None and 'rmax' in may and d.p(w['rmax']):
            f['rmax'] = d.ts(lambda: d.grid(0.5, 1, 0.125))
    return flow_rest(d, f, w, oo, may, cost, price)


def wide_bounds(d, f):
    """bounds anywhere in 0..1: maximum below the minimum of other steps, both equal, maximum 0"""
    top = [d.pick([1.0, 0.5, 0.25, 0.75, 0.0, 0.125]) for _ in range(d.n)] if d.p(75) else d.pick([0.5, 1.0, 0.25])
    tops = top if isinstance(top, list) else [top] * d.n
    if d.p(70): low = [t * d.pick([0.0, 0.5, 1.0, 0.25]) for t in tops]
    else: low = min(tops) * d.pick([0.5, 1.0, 0.0])
    f['rmax'] = {'tsd': top} if d.p(d.w['tsd']) else top
    if d.p(85): f['rmin'] = {'tsd': low} if d.p(d.w['tsd']) else low


def flow_rest(d, f, w, oo, may, cost, price):
    if oo: f['onoff'] = onoff(d)
    H = sum(d.dt)
    if 'fh' in may and d.p(w['fh']): f['fh_max'] = d.grid(5, 20 * H, 5) if not d.p(7) else 0
    if 'fh' in may and d.p(w['fh'] // 2 + (1 if w['fh'] > 30 else 0)): f['fh_min'] = d.grid(1, 5 * H, 1)
    if f.get('fh_min') is not None and f.get('fh_max') is not None and f['fh_min'] > f['fh_max']:
        f['fh_min'] = f['fh_max']
    if f.get('size') is not None and 'lf' in may:
        if d.p(w['lf']): f['lf_max'] = d.grid(0.25, 1, 0.125) if not d.p(7) else 0
        if d.p(w['lf'] // 2): f['lf_min'] = d.grid(0.0625, 0.25, 0.0625)
    if 'eff' in may and (cost if cost is not None else d.p(35)):
        neg = f.get('size') is not None and d.p(w['effect_neg'])
        f['eff'] = effvals(d, lambda: (d.grid(price[0], price[1], 0.5) - (4 if neg else 0)))
    return f


def set_prev(d, flows, pct=None):
    if not d.p(d.w['prev'] if pct is None else pct):
        return
    mode = d.pick(['list', 'scalar'])
    if mode == 'list':
        k = d.int(1, 4) if not d.p(12) else d.int(5, LONG)
        for f in flows:
            if d.p(80): f['prev'] = [d.pick([0.0, 3.0, 0.0, 5.5]) for _ in range(k if not d.p(15) else d.int(1, k))]
    else:
        for f in flows:
            if d.p(80): f['prev'] = d.pick([0.0, 4.0, 7.5])


def drive(d, flows):
    """demand some flow hours of one flow, so that the component has to run"""
    if flows and d.p(d.w['drive']):
        f = d.pick(flows)
        H = sum(d.dt)
        f['fh_min'] = d.grid(0.5, 3 * H, 0.5)
        if f.get('fh_max') is not None: f['fh_max'] = max(f['fh_max'], f['fh_min'])


def has_onoff(c):
    from .ref import flows_of
    ins, outs = flows_of(c)
    return c.get('onoff') is not None or any(f.get('onoff') is not None for f in ins + outs)


ALLF = ('rmin', 'rmax', 'prof', 'onoff', 'invest', 'fh', 'lf', 'eff')
NOP = ('rmin', 'rmax', 'onoff', 'invest', 'fh', 'lf', 'eff')


def source(d, bus, **k):
    k.setdefault('cost', True)
    f = flow(d, bus, 'src', **k)
    c = {'kind': 'source', 'label': d.label('S'), 'flow': f}
    set_prev(d, [f]) if f.get('onoff') is not None else None
    return c


def demand(d, bus):
    """a sink with a fixed profile"""
    f = {'label': d.label('ld'), 'bus': bus, 'size': d.pick([1, 1.0, 2.0]),
         'prof': d.ts(lambda: d.grid(0, 12, 1), parr=85)}
    return {'kind': 'sink', 'label': d.label('L'), 'flow': f}


def sink(d, bus):
    f = flow(d, bus, 'snk', need_size=True, price=(-8, 4))
    c = {'kind': 'sink', 'label': d.label('K'), 'flow': f}
    set_prev(d, [f]) if f.get('onoff') is not None else None
    return c


def sas(d, b1, b2):
    nop = d.p(d.w['sas_noprevent'])
    a = flow(d, b1, 'so', need_size=True, cost=True)
    b = flow(d, b2, 'si', need_size=True, price=(-6, 4), may=('rmax', 'onoff', 'fh', 'lf', 'eff', 'rmin') if not nop else ALLF)
    c = {'kind': 'sas', 'label': d.label('SAS'), 'source': a, 'sink': b}
    if nop: c['prevent'] = False
    elif d.p(30): c['prevent'] = True
    return c


def comp_onoff(d, c, flows):
    if d.p(d.w['con_onoff']):
        c['onoff'] = onoff(d, comp=True)
    need = has_onoff(c)
    if need:
        for f in flows:
            if c.get('onoff') is not None and f.get('size') is None:
                f['size'] = d.grid(2, 40, 1)
        set_prev(d, flows)
    return c


def generic(d, bs):
    """a plain Component: its flows are independent but for on/off and mutual exclusion"""
    no, ni = d.pick([(3, 0), (2, 1), (4, 0), (2, 2), (2, 0), (1, 2), (3, 1), (1, 1)])
    outs = [flow(d, d.pick(bs), 'go', need_size=True, may=NOP, cost=d.p(80)) for _ in range(no)]
    ins = [flow(d, d.pick(bs), 'gi', need_size=True, may=NOP, cost=d.p(70), price=(-8, 2)) for _ in range(ni)]
    c = {'kind': 'comp', 'label': d.label('G'), 'ins': ins, 'outs': outs}
    fl = outs + ins
    if d.p(85):
        for f in fl:
            f.pop('rmin', None); f.pop('lf_min', None); f.pop('fh_min', None)
        g = [f['label'] for f in fl if d.p(85)]
        if len(g) < 2: g = [f['label'] for f in fl]
        c['excl'] = g[::-1] if d.p(30) else g
    comp_onoff(d, c, fl)
    return c


def conv(d, bs, seg=False):
    ni, no = d.pick([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] if not seg else [(1, 1), (1, 2), (2, 1)])
    may = ('rmin', 'rmax', 'onoff', 'invest', 'fh', 'lf', 'eff') if not seg else ('onoff', 'fh', 'eff')
    ins = [flow(d, d.pick(bs), 'i', may=may, cost=d.p(30)) for _ in range(ni)]
    outs = [flow(d, d.pick(bs), 'o', may=may, cost=d.p(15)) for _ in range(no)]
    c = {'kind': 'conv', 'label': d.label('C'), 'ins': ins, 'outs': outs}
    fl = ins + outs
    comp_onoff(d, c, fl)
    if seg:
        for f in fl:
            if f.get('size') is not None and not isinstance(f['size'], dict):
                f['size'] = 60.0
        m = d.int(1, 3)
        sg = {f['label']: [] for f in fl}
        zero = c.get('onoff') is None and not any(f.get('onoff') is not None for f in fl) and d.p(60)
        tv = d.p(25)
        for f in fl:
            x = 0.0 if zero else d.grid(0, 4, 1)
            desc = d.p(15) and not zero
            pts = []
            for k in range(m):
                if zero and k == 0 and d.p(50):
                    pts.append([0.0, 0.0]); continue
                y = x + d.grid(0, 12, 1)
                if tv and d.p(50):
                    a = [x + d.grid(0, 2, 0.5) for _ in range(d.n)]
                    b = [max(a[t], y) + d.grid(0, 2, 0.5) for t in range(d.n)]
                    pts.append([a, b])
                    x = y + 4 + d.grid(0, 4, 1)
                else:
                    pts.append([y, x] if desc else [x, y])
                    x = y + (d.grid(0, 4, 1) if d.p(40) else 0.0)
            sg[f['label']] = pts
        c['segs'] = sg
        return c
    neq = d.int(1, min(len(fl) - 1, 3))
    facs = []
    for q in range(neq):
        if q == 0:
            use = fl
        else:      # a further equation relates one input (or output) with others
            use = [f for f in fl if d.p(70)]
            if len(use) < 2: use = fl[:1] + fl[-1:]
        def fac(neg, zero):
            x = 0.0 if zero and d.p(40) else d.pick([1.0, 0.5, 2.0, 0.75, 0.25, 3.0, 1.25])
            return -x if neg and x else x
        fa = {}
        for f in use:
            neg, zero = d.p(d.w['neg_fac']), d.p(d.w['neg_fac'] // 2)
            fa[f['label']] = d.ts(lambda: fac(neg, zero))
        facs.append(fa)
    c['factors'] = facs
    drive(d, fl)
    return c


def named(d, bs):
    kind = d.pick(['boiler', 'p2h', 'hp', 'chp', 'hps', 'ct'])
    th = flow(d, d.pick(bs), 'q', may=NOP, cost=d.p(15))
    c = {'kind': kind, 'label': d.label('N')}
    may = ('rmax', 'onoff', 'fh', 'eff', 'rmin', 'lf')
    if kind == 'boiler':
        c.update(eta=d.ts(lambda: d.grid(0.25, 1, 0.125)), fu=flow(d, d.pick(bs), 'fu', may=may), th=th); fl = [c['fu'], th]
    elif kind == 'p2h':
        c.update(eta=d.ts(lambda: d.grid(0.5, 1, 0.125)), el=flow(d, d.pick(bs), 'el', may=may), th=th); fl = [c['el'], th]
    elif kind == 'hp':
        c.update(cop=d.ts(lambda: d.grid(1.5, 5, 0.5)), el=flow(d, d.pick(bs), 'el', may=may), th=th); fl = [c['el'], th]
    elif kind == 'hps':
        c.update(cop=d.ts(lambda: d.grid(1.5, 5, 0.5)), el=flow(d, d.pick(bs), 'el', may=may),
                 ab=flow(d, d.pick(bs), 'ab', may=may), th=th); fl = [c['el'], c['ab'], th]
    elif kind == 'chp':
        c.update(eta_th=d.ts(lambda: d.grid(0.25, 0.5, 0.125)), eta_el=d.ts(lambda: d.grid(0.125, 0.5, 0.125)),
                 fu=flow(d, d.pick(bs), 'fu', may=may), el=flow(d, d.pick(bs), 'el', may=may), th=th)
        fl = [c['fu'], c['el'], th]
    else:
        c.update(sed=d.ts(lambda: d.grid(0.125, 0.75, 0.125)), el=flow(d, d.pick(bs), 'el', may=may), th=th); fl = [c['el'], th]
    comp_onoff(d, c, fl)
    drive(d, fl)
    return c


def storage(d, bs):
    w = d.w
    nop = d.p(w['st_noprevent'])
    b = d.pick(bs)
    may = ('rmax', 'onoff', 'fh', 'eff', 'lf', 'rmin') if not nop else ('rmax', 'onoff', 'fh', 'eff', 'lf', 'invest', 'rmin')
    ch = flow(d, b, 'ch', need_size=not nop, may=may, cost=d.p(20), hi=20)
    di = flow(d, b if d.p(80) else d.pick(bs), 'di', need_size=not nop, may=may, cost=d.p(20), hi=20)
    for f in (ch, di):
        if isinstance(f.get('size'), dict): f['size'].pop('seg', None)
    c = {'kind': 'storage', 'label': d.label('St'), 'charging': ch, 'discharging': di}
    if nop: c['prevent'] = False
    cap = invest(d, lo=4, hi=60, storage=True) if d.p(w['cap_invest']) else d.grid(4, 60, 2)
    c['cap'] = cap
    top = cap if not isinstance(cap, dict) else (cap.get('fixed') or cap.get('min') or cap.get('max', 0) / 2)
    lo0 = 0.0
    if d.p(w['st_bounds']):
        v = d.ts(lambda: d.grid(0, 0.5, 0.125), n=d.n + 1)
        c['cmin'] = v
    if d.p(w['st_bounds']):
        c['cmax'] = d.ts(lambda: d.grid(0.5, 1, 0.125), n=d.n + 1)
    if d.p(w['st_init']):
        m = d.pick(['num', 'last', 'none', 'num'])
        if m == 'num':
            from .ref import vec
            a, b_ = vec(c.get('cmin'), d.n + 1, 0.0)[0], vec(c.get('cmax'), d.n + 1, 1.0)[0]
            fr = d.pick([0.5, 0.25, 0.75, 1.0, 0.0])
            x = top * (a + (b_ - a) * fr)
            c['init'] = int(x) if x == int(x) and d.p(30) else x
        elif m == 'last': c['init'] = 'lastValueOfSim'
        else: c['init'] = None
    if d.p(w['st_final']): c['fmin'] = top * d.pick([0.25, 0.5, 0.125])
    if d.p(w['st_final']): c['fmax'] = top * d.pick([0.75, 0.5, 1.0]) if not d.p(15) else 0
    if c.get('fmin') is not None and c.get('fmax') is not None and c['fmin'] > c['fmax']: c['fmax'] = c['fmin']
    if d.p(w['st_eta']):
        if d.p(60): c['eta_c'] = d.ts(lambda: d.pick([0.5, 0.75, 1.0]), parr=25)
        if d.p(60): c['eta_d'] = d.ts(lambda: d.pick([0.5, 0.8, 1.0]), parr=25)
        if d.p(60): c['loss'] = d.ts(lambda: d.pick([0.0, 0.125, 0.0625, 0.25]), parr=25)
    set_prev(d, [ch, di]) if has_onoff(c) else None
    return c


def trans(d, bs):
    w = d.w
    if len(bs) == 1: bs = bs * 2
    a = d.pick(bs)
    others = [b for b in bs if b != a] or [a]
    b = d.pick(others)
    may = ('rmax', 'onoff', 'fh', 'eff')
    ab = d.p(w['tr_abs'])
    bi = d.p(w['tr_bi'])
    nop = d.p(w['tr_noprevent'])
    inv = d.p(w['tr_inv'])
    need = ab or (bi and not nop)
    c = {'kind': 'trans', 'label': d.label('T'), 'in1': flow(d, a, 'ia', need_size=need, may=may),
         'out1': flow(d, b, 'oa', need_size=need, may=('eff',))}
    if inv:
        c['in1']['size'] = invest(d, hi=30, seg=0)
    if bi:
        c['in2'] = flow(d, b, 'ib', need_size=need, may=may)
        c['out2'] = flow(d, a, 'ob', need_size=need, may=('eff',))
        if inv:
            c['in2'].pop('size', None)
    if nop: c['prevent'] = False
    if d.p(w['tr_rel']): c['rel'] = d.ts(lambda: d.grid(0, 0.5, 0.125))
    if ab: c['abs'] = d.ts(lambda: d.grid(0.25, 1.5, 0.25))
    elif d.p(10): c['abs'] = 0.0
    fl = [c[k] for k in ('in1', 'out1', 'in2', 'out2') if k in c]
    if d.p(w['tr_onoff']):
        c['onoff'] = onoff(d)
    if has_onoff(c) or need:
        for f in fl:
            if f.get('size') is None and not (f is c.get('in2') and inv): f['size'] = d.grid(2, 40, 1)
        for k in ('out1', 'out2'):
            if k in c and not isinstance(c[k].get('size'), dict): c[k]['size'] = max(c[k]['size'], 20.0)
        if has_onoff(c): set_prev(d, fl)
    return c


def system(d):
    w = d.w
    t = time_axis(d)
    d.dt = t['dt']
    d.odd = d.p(w['odd'])
    es = effects(d)
    nb = d.int(*w['buses'])
    buses = []
    for i in range(nb):
        pen = None
        if not d.p(w['pen_none']):
            if d.p(w['pen_arr']):
                pen = [d.pick([50.0, 100.0, 200.0]) if not d.p(w['pen_zero']) else 0.0 for _ in range(d.n)]
                if d.p(w['tsd']): pen = {'tsd': pen}
            else:
                pen = d.pick([50.0, 100, 500.0, 1000])
                if d.p(w['pen_small']): pen = d.pick([0.5, 2.0, 6])
                if d.p(w['pen_zero']): pen = d.pick([0, 0.0])
        buses.append({'label': f'B{i}', 'pen': pen})
    bs = [b['label'] for b in buses]
    comps = [demand(d, bs[0])]
    comps.append(source(d, bs[-1] if nb > 1 else bs[0]))
    for _ in range(d.int(*w['extra'])):
        k = d.wpick(w['kinds'])
        if k == 'source': comps.append(source(d, d.pick(bs)))
        elif k == 'sink': comps.append(sink(d, d.pick(bs)) if d.p(60) else demand(d, d.pick(bs)))
        elif k == 'conv': comps.append(conv(d, bs))
        elif k == 'seg': comps.append(conv(d, bs, seg=True))
        elif k == 'named': comps.append(named(d, bs))
        elif k == 'storage': comps.append(storage(d, bs))
        elif k == 'trans': comps.append(trans(d, bs))
        elif k == 'comp': comps.append(generic(d, bs))
        elif k == 'sas': comps.append(sas(d, d.pick(bs), d.pick(bs)))
    used = {f['bus'] for c in comps for f in _fl(c)}
    spec = {'time': t, 'effects': es, 'buses': [b for b in buses if b['label'] in used], 'comps': comps}
    if d.p(w['samelab']):       # flows of different components may have the same label
        from .spectool import relabel
        k = d.int(0, 2)
        ren = {(c['label'], f['label']): f'q{i}' for c in comps for i, f in enumerate(sorted(_fl(c), key=lambda f: f['label'] if k else f['bus']))}
        if k == 2: ren = {x: 'Q' for x in ren if len(_fl(next(c for c in comps if c['label'] == x[0]))) == 1}
        spec = relabel(spec, flows=ren)
    return spec


def _fl(c):
    from .ref import flows_of
    a, b = flows_of(c)
    return a + b


def specs(**over):
    w = dict(DEF)
    w.update(over)

    @st.composite
    def s(draw):
        return system(D(draw, w))
    return s()
