import copy
import numpy as np
from hypothesis import strategies as st
from .plan import PlanCheck, ALLCATS
from .. import gen, sut, ref as R, oracle, spectool, build
from ..run import Skip

fx = sut.fx
STARTS = ('2020-01-01T00:00', '2019-12-30T22:30', '2024-02-28T12:00', '1999-12-31T00:15', '2021-03-28T00:00')


class Check(PlanCheck):
    id = 'C13'
    rule = ('random systems with unequal steps, every datetime resolution (ns to D), start dates, last_time_step_hours as '
            'int/float/timedelta/absent and previous step lengths, calculated as a whole or on a random contiguous window '
            '(range or list of indices), compared with the reference of just that window (data cut, step lengths kept), '
            'the time axis compared stamp by stamp; non-trivial: a real window or unequal steps, and a plan or a proven '
            'infeasibility')
    profiles = [dict(n=(3, 8), irreg=70, last=50, prevdt=40, kinds=dict(source=1, storage=4, conv=1), st_final=30, st_bounds=60, arr=60, extra=(1, 2)),
                dict(n=(3, 8), irreg=70, last=50, prevdt=50, onoff=60, dur=50, prev=50, arr=60, extra=(0, 1)),
                dict(n=(3, 8), irreg=60, last=60, effects=70, share=60, fh=30, lf=30, arr=60, pen_arr=60, extra=(0, 2)),
                dict(n=(3, 8), irreg=60, arr=70, tsd=30, extra=(1, 3))]
    cats = ALLCATS
    quick, thorough = 2500, 60000

    def strategy(self, tier):
        return st.tuples(super().strategy(tier), st.integers(0, 6), st.integers(0, 6), st.booleans(), st.booleans(),
                         st.sampled_from(['us', 'ns', 's', 'm', 'ms', 'h', 'D']), st.sampled_from(STARTS),
                         st.sampled_from(['asis', 'td', 'asis']), st.sampled_from([None, None, None, 's', 'ms', 'us'])).map(list)

    def run(self, case, ctx):
        spec, a, b, win, lst, res, start, lastmode, fine = (copy.deepcopy(case) + [None])[:9]
        t = spec['time']
        t['start'] = start
        f = {'h': 1.0, 'D': 24.0}.get(res)
        if f:       # whole hours or days only
            t['dt'] = [f * max(1.0, np.ceil(x)) for x in t['dt']]
            if t.get('last') is not None: t['last'] = t['dt'][-1]
            elif t['dt'][-1] != t['dt'][-2]: t['dt'][-1] = t['dt'][-2]
            t['start'] = start[:11] + ('00:00' if res == 'D' else start[11:13] + ':00')
        elif fine:
            build.finer(t, fine)
            if ('ns', 'us', 'ms', 's', 'm').index(res) > ('ns', 'us', 'ms', 's').index(fine): res = fine
        t['res'] = res
        n = len(t['dt'])
        idx = None
        if win:
            a, b = a % (n - 1), 0
            b = a + 2 + case[2] % (n - a - 1)
            idx = list(range(a, b)) if lst else range(a, b)
            sub = spectool.window(spec, a, b)
        else:
            a, b = 0, n
            sub = spec
        bs = copy.deepcopy(spec)
        B = self.make(bs, lastmode)
        real = (sut.h8(case) % 100) < 4
        kw = {} if idx is None else {'time_indices': idx}
        calc = fx.FullCalculation('calc', B.fs, **kw)
        calc.do_modeling()
        out = sut.solve_calc(calc, 'direct', B)
        rf = R.Ref(sub)
        r = rf.solve()
        if out.status == 'trouble' and not r.ok:
            raise Skip('solver')
        bad = []
        stamps = build.stamps(t, t['dt'])
        exp = stamps[a:b + 1]
        got = B.fs.get_time_data_from_indices(idx)
        if not (np.array_equal(got[1].astype('datetime64[us]'), exp) and np.array_equal(got[0].astype('datetime64[us]'), exp[:-1])):
            bad.append(('time', f'time stamps {got[1]} expected {exp}'))
        dt = np.array(t['dt'][a:b], float)
        if not (np.allclose(got[2], dt, rtol=1e-12) and abs(got[3] - dt.sum()) < 1e-9 * dt.sum()):
            bad.append(('time', f'step lengths {got[2]} total {got[3]} expected {dt}'))
        if out.status == 'optimal':
            if not np.array_equal(np.array(out.res['Time']).astype('datetime64[us]'), exp):
                bad.append(('time', f'result time stamps {out.res["Time"]} expected {exp}'))
            h = np.array(out.res['Time intervals in hours'], float)
            if h.shape != dt.shape or not np.allclose(h, dt, rtol=1e-12):
                bad.append(('time', f'result step lengths {h} expected {dt}'))
        m = sut.differ(out, rf, r, ctx)
        if m:
            bad.append(('optimum', m))
        if out.status == 'optimal':
            bad += oracle.check(sub, out.res, ref=rf)
        ctx.tag('window' if win else 'whole', 'res:' + res, out.status, 'irregular' if len(set(t['dt'])) > 1 else 'regular', *(['no whole minutes'] if fine and not f else []))
        ctx.nontrivial = win or len(set(t['dt'])) > 1
        return bad

    def make(self, spec, lastmode):
        t = spec['time']
        if lastmode == 'td' and t.get('last') is not None:
            h = t['last']
            t['last'] = None
            # a timedelta is passed on unchanged
            t['last'] = TD(h)
        return build.build(spec)


def TD(h):
    us = int(round(h * 3600 * 1e6))
    return np.timedelta64(us // 10**6, 's') if us % 10**6 == 0 else np.timedelta64(us, 'us')
