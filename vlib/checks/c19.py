"""C19: small random models in the modelling layer against the same model written out row by row."""
import numpy as np
from hypothesis import strategies as st
from .. import sut, hs, fast
from ..run import Skip

fx = sut.fx
import flixOpt.math_modeling as mm

Q = st.integers(-8, 8).map(lambda k: k / 2)
FORM = st.sampled_from(['int', 'float', 'np', 'list', 'array', 'iarray', 'range', 'tuple'])


def vec(x, n):
    return [float(v) for v in (x if isinstance(x, list) else [x] * n)]


@st.composite
def models(draw):
    vs = []
    for i in range(draw(st.integers(1, 4))):
        L = draw(st.sampled_from([1, 1, 2, 3, 4]))
        binary = draw(st.booleans()) and draw(st.booleans())
        v = {'L': L, 'bin': binary, 'ts': L > 1 and draw(st.booleans()), 'form': draw(FORM)}
        wit = [draw(st.integers(0, 1)) if binary else draw(Q) for _ in range(L)]
        v['wit'] = wit
        kind = draw(st.sampled_from(['box', 'box', 'box', 'vec', 'vec', 'fix', 'low', 'up', 'free', 'tight']))
        if binary:
            kind = draw(st.sampled_from(['free', 'free', 'free', 'fix', 'vec']))
        lo = [w - draw(st.integers(0, 4)) / 2 for w in wit]
        hi = [w + draw(st.integers(0, 6)) / 2 for w in wit]
        if binary:
            lo, hi = [0.0 if draw(st.booleans()) else w for w in wit], [1.0 if draw(st.booleans()) else w for w in wit]
        if kind in ('box', 'low', 'up'):
            lo, hi = min(lo), max(hi)
        if kind == 'tight':
            lo = hi = wit
        if kind == 'fix':
            same = all(w == wit[0] for w in wit)
            v['fix'] = wit[0] if same and draw(st.booleans()) else wit
            if draw(st.booleans()):
                v['lb'], v['ub'] = (min(lo), max(hi)) if draw(st.booleans()) else (lo, hi)
        if kind in ('box', 'vec', 'low', 'tight'):
            v['lb'] = lo
        if kind in ('box', 'vec', 'up', 'tight'):
            v['ub'] = hi
        vs.append(v)

    def term(length, scalar_only=False):
        """a summand of the given length (or of length 1)"""
        k = draw(st.integers(0, len(vs) - 1))
        L = vs[k]['L']
        t = {'v': k, 'form': draw(FORM), 'iform': draw(st.sampled_from(['list', 'array', 'range', 'int', 'np']))}
        want = 1 if scalar_only or draw(st.integers(0, 3)) == 0 else length
        if draw(st.integers(0, 3)) == 0:         # a sum
            t['sum'] = True
            m = draw(st.integers(1, 4))
            if draw(st.booleans()):
                m = L
            else:
                t['idx'] = [draw(st.integers(0, L - 1)) for _ in range(m)]
                if draw(st.booleans()):
                    t['idx'] = list(range(t['idx'][0], L))
                    m = len(t['idx'])
            if draw(st.booleans()) and m > 1 or m == 1 and draw(st.integers(0, 3)) == 0:
                t['f'] = [draw(Q) for _ in range(m if m > 1 else draw(st.integers(1, 3)))]
            else:
                t['f'] = draw(Q)
            return t
        if want == L and draw(st.booleans()):
            pass                                    # all indices
        elif want > 1 and draw(st.integers(0, 3)) == 0:
            t['idx'] = [draw(st.integers(0, L - 1))]           # one index with several factors
            t['f'] = [draw(Q) for _ in range(want)]
            return t
        elif want <= L and draw(st.booleans()):
            a = draw(st.integers(0, L - want))
            t['idx'] = list(range(a, a + want))
        else:
            t['idx'] = [draw(st.integers(0, L - 1)) for _ in range(want)]
        t['f'] = [draw(Q) for _ in range(want)] if draw(st.booleans()) else draw(Q)
        return t

    cons = []
    for i in range(draw(st.integers(0, 5))):
        n = draw(st.sampled_from([1, 2, 3, 4]))
        c = {'kind': draw(st.sampled_from(['eq', 'ineq', 'ineq', 'ineq'])), 'n': n,
             'terms': [term(n) for _ in range(draw(st.integers(1, 4)))], 'consts': []}
        real = max(len_of(t, vs) for t in c['terms'])
        lhs = rows(c['terms'], vs, real)
        rhs = [sum(a * vs[k]['wit'][j] for (k, j), a in e.items()) for e in lhs]
        if c['kind'] == 'ineq':
            rhs = [r + draw(st.sampled_from([0, 0, .5, 1, 2, 5])) for r in rhs]
        else:
            # keep few equations, so that there is room for an optimum
            if draw(st.booleans()):
                c['kind'] = 'ineq'
        if draw(st.integers(0, 9)) == 0:
            rhs[draw(st.integers(0, real - 1))] += draw(Q)
        same = all(r == rhs[0] for r in rhs)
        parts = draw(st.integers(1, 3))
        left = rhs[0] if same and draw(st.booleans()) else rhs
        for p in range(parts - 1):
            q = draw(Q) if draw(st.booleans()) else [draw(Q) for _ in range(real)] if real > 1 else draw(Q)
            c['consts'].append({'v': q, 'form': draw(FORM)})
            if isinstance(q, list) and not isinstance(left, list):
                left = [left] * real
            left = [a - b for a, b in zip(left, vec(q, real))] if isinstance(left, list) else left - q
        if real == 1 and isinstance(left, list):
            left = left[0]
        if left != 0 or draw(st.booleans()):
            c['consts'].append({'v': left, 'form': draw(FORM)})
        c['order'] = draw(st.permutations(list(range(len(c['terms']) + len(c['consts'])))))
        c.pop('n')
        cons.append(c)
    obj = [term(1, True) for _ in range(draw(st.integers(0, 2)))]
    for k, v in enumerate(vs):          # every variable takes part
        f = [draw(Q) for _ in range(v['L'])] if draw(st.booleans()) else draw(Q)
        if not v['bin'] and 'fix' not in v and draw(st.integers(0, 4)):         # mostly bounded problems
            a = -1e9 if 'ub' in v else 0
            b = 1e9 if 'lb' in v else 0
            f = [min(max(x, a), b) for x in f] if isinstance(f, list) else min(max(f, a), b)
        obj.append({'v': k, 'sum': True, 'f': f,
                    'form': draw(FORM), 'iform': 'list'})
    case = {'vars': vs, 'cons': cons, 'obj': obj, 'mode': draw(st.sampled_from(['direct', 'direct', 'direct', 'real'])),
            'again': draw(st.booleans())}
    if draw(st.integers(0, 4)) == 0:
        case['fault'] = draw(st.sampled_from(['fix_low', 'fix_high', 'len_const', 'len_terms', 'len_factor', 'novar',
                                              'objlen', 'bound_len', 'addtype']))
        case['at'] = draw(st.integers(0, 50))
    return case


def idx_of(t, vs):
    return t['idx'] if 'idx' in t else list(range(vs[t['v']]['L']))


def len_of(t, vs):
    if t.get('sum'):
        return 1
    return max(len(idx_of(t, vs)), len(t['f']) if isinstance(t['f'], list) else 1)


def rows(terms, vs, n):
    """left sides written out: list of {(var, index): coefficient}"""
    out = []
    for i in range(n):
        e = {}
        for t in terms:
            ix = idx_of(t, vs)
            m = max(len(ix), len(t['f']) if isinstance(t['f'], list) else 1)
            ixs = ix if len(ix) == m else ix * m
            fs = vec(t['f'], m)
            if t.get('sum'):
                for j, a in zip(ixs, fs):
                    e[t['v'], j] = e.get((t['v'], j), 0.0) + a
            else:
                p = i if m > 1 else 0
                e[t['v'], ixs[p]] = e.get((t['v'], ixs[p]), 0.0) + fs[p]
        out.append(e)
    return out


def form(x, f):
    """the number(s) x in one of the forms a caller may use"""
    if isinstance(x, list):
        if f in ('list', 'tuple'):
            return list(x)
        if f in ('iarray', 'int', 'range') and all(float(v).is_integer() for v in x):
            return np.array([int(v) for v in x])
        return np.array(x, dtype=float)
    if f in ('int', 'iarray', 'range') and float(x).is_integer():
        return int(x) if f == 'int' else np.int64(x)
    if f == 'np':
        return np.float64(x)
    return float(x)


def iform(ix, f):
    if ix is None:
        return None
    if f == 'array':
        return np.array(ix)
    if f == 'range' and ix == list(range(ix[0], ix[0] + len(ix))):
        return range(ix[0], ix[0] + len(ix))
    if f == 'int' and len(ix) == 1:
        return int(ix[0])
    if f == 'np' and len(ix) == 1:
        return np.int64(ix[0])
    return list(ix)


class Check:
    id = 'C19'
    rule = 'a model with at least one constraint and two scalar variables solved to its optimum, or a rejected fault'
    quick, thorough = 6000, 400000
    assumptions = ['HiGHS decides the reference model, written out row by row from the case',
                   'models of 1-4 variables of length 1-4, 0-5 vector constraints',
                   'constants of the objective are not part of the domain (they do not move the optimum)']

    def strategy(self, tier):
        return models()

    # ------------------------------------------------------------------ code under test
    def build(self, case):
        m = mm.MathModel('m')
        V = []
        fault, at = case.get('fault'), case.get('at', 0)
        for i, v in enumerate(case['vars']):
            kw = {}
            for a, b in (('lb', 'lower_bound'), ('ub', 'upper_bound'), ('fix', 'fixed_value')):
                if a in v:
                    kw[b] = form(v[a], v['form'])
            if i == at % len(case['vars']):
                if fault in ('fix_low', 'fix_high'):
                    w = list(v['wit'])
                    j = at % v['L']
                    kw['fixed_value'] = np.array(w, float)
                    lo, hi = np.array(w, float) - 1, np.array(w, float) + 1
                    if fault == 'fix_low':
                        lo[j] = w[j] + .5
                        hi[j] = w[j] + 1
                    else:
                        hi[j] = w[j] - .5
                        lo[j] = w[j] - 1
                    kw['lower_bound'], kw['upper_bound'] = lo, hi
                    if at % 3 == 0:
                        kw.pop('upper_bound' if fault == 'fix_low' else 'lower_bound')
                if fault == 'bound_len':
                    kw.pop('fixed_value', None)
                    kw['upper_bound' if at % 2 else 'lower_bound'] = np.zeros(v['L'] + 1 + at % 2)
            cls = mm.VariableTS if v['ts'] else mm.Variable
            V.append(cls(f'v{i}', v['L'], is_binary=v['bin'], **kw))
            m.add(V[-1])
        E = []
        for i, c in enumerate(case['cons']):
            e = (mm.Equation if c['kind'] == 'eq' else mm.Inequation)(f'c{i}')
            for p in c['order']:
                if p < len(c['terms']):
                    self.add(e, c['terms'][p], V)
                else:
                    k = c['consts'][p - len(c['terms'])]
                    e.add_constant(form(k['v'], k['form']))
            m.add(e)
            E.append(e)
        o = mm.Equation('objective', is_objective=True)
        for t in case['obj']:
            self.add(o, t, V)
        m.add(o)
        e = E[at % len(E)] if E else None
        w = V[at % len(V)]
        if fault == 'len_const':
            f = mm.Equation('f')
            f.add_summand(w, np.ones(3) if w.length == 1 else 1.0)
            f.add_constant(np.zeros((3 if w.length == 1 else w.length) + 1 + at % 2))
            m.add(f)
        elif fault == 'len_terms':
            f = mm.Inequation('f')
            f.add_summand(w, np.ones(3), [0])
            f.add_summand(V[0], np.ones(2 if at % 2 else 4), 0)
            m.add(f)
        elif fault == 'len_factor':
            f = mm.Inequation('f')
            f.add_summand(w, np.ones(w.length + 2), [0] * (w.length + 1), as_sum=bool(at % 2))
            m.add(f)
        elif fault == 'novar':
            f = mm.Inequation('f')
            f.add_summand(['v0', None, 3.0][at % 3], 1.0)
            m.add(f)
        elif fault == 'objlen':
            o.add_summand(w, np.ones(2), 0)
        elif fault == 'addtype':
            m.add(['v0', None, 3.0][at % 3])
        return m, V, E, o

    def add(self, e, t, V):
        kw = {}
        if 'idx' in t:
            kw['indices_of_variable'] = iform(t['idx'], t['iform'])
        if t.get('sum'):
            kw['as_sum'] = True
        e.add_summand(V[t['v']], form(t['f'], t['form']), **kw)

    def solve(self, m, mode):
        s = sut.real_solver() if mode == 'real' else sut.DH(tol=1e-7 if mode == 'loose' else 1e-9, presolve=mode != 'nopre')
        try:
            m.solve(s)
            return 'optimal', float(m.result_of_objective), s
        except fast.NoPlan:
            return 'infeasible', None, s
        except fast.SolverTrouble:
            return 'trouble', None, s
        except RuntimeError as e:
            if 'feasible solution was not found' in str(e):
                return 'infeasible', None, s
            raise

    # ------------------------------------------------------------------ reference
    def ref(self, case):
        lp = hs.LP()
        col = {}
        vs = case['vars']
        for k, v in enumerate(vs):
            lo, hi = vec(v.get('lb', -hs.INF), v['L']), vec(v.get('ub', hs.INF), v['L'])
            fixed = vec(v['fix'], v['L']) if 'fix' in v else None
            for j in range(v['L']):
                a, b = lo[j], hi[j]
                if v['bin']:
                    a, b = max(a, 0), min(b, 1)
                if fixed:
                    a = b = fixed[j]
                col[k, j] = lp.var(a, b, v['bin'])
        R = []
        for c in case['cons']:
            n = max([len_of(t, vs) for t in c['terms']] + [len(k['v']) if isinstance(k['v'], list) else 1 for k in c['consts']])
            rhs = np.zeros(n)
            for k in c['consts']:
                rhs = rhs + np.array(vec(k['v'], n))
            for e, r in zip(rows(c['terms'], vs, n), rhs):
                R.append((c['kind'], e, r))
                lp.row({col[x]: a for x, a in e.items()}, r if c['kind'] == 'eq' else -hs.INF, r)
        O = rows(case['obj'], vs, 1)[0]
        for x, a in O.items():
            lp.c[col[x]] += a
        return lp, R, O

    def run(self, case, ctx):
        if case.get('fault'):
            ctx.tag('fault ' + case['fault'])
            try:
                m, V, E, o = self.build(case)
                m.translate_to_modeling_language()
                q = self.solve(m, 'direct')
            except Exception:
                ctx.nontrivial = True
                return []
            if q[0] != 'optimal':
                return []
            return [('reject', f'{case["fault"]} accepted: {q[1]}')]
        m, V, E, o = self.build(case)
        m.translate_to_modeling_language()
        lp, R, O = self.ref(case)
        r = hs.solve(lp)
        if r.status not in ('optimal', 'infeasible'):
            ctx.tag('unbounded' if r.status == 'unbounded' else 'ref trouble')
            raise Skip('solver')
        mode = case['mode']
        if r.status == 'infeasible':
            mode = 'direct'
        bad = self.judge(case, ctx, m, V, E, lp, R, O, r, mode)
        if not bad and case['again'] and r.ok:
            # solving again and translating again change nothing
            if case['mode'] == 'direct':
                m.translate_to_modeling_language()
                ctx.tag('translated again')
            ctx.tag('solved again')
            bad = self.judge(case, ctx, m, V, E, lp, R, O, r, 'direct')
        ctx.tag(r.status, mode)
        ctx.nontrivial = r.ok and len(R) >= 1 and len(lp.c) >= 2
        return bad

    def judge(self, case, ctx, m, V, E, lp, R, O, r, mode):
        bad = []
        a = self.solve(m, mode)
        tol = 1e-5 if mode == 'real' else 1e-6
        if not sut.same(a[0], a[1], r.status, r.obj, tol):
            alt = [self.solve(m, x) for x in ('nopre', 'loose')]
            ref = [hs.solve(lp, presolve=False), hs.solve(lp, tol=1e-7)]
            if any(sut.same(x[0], x[1], y.status, y.obj, 1e-5) for x in alt + [a] for y in ref + [r]):
                ctx.tag('solver_settings_disagree')
                return []
            if a[0] == 'trouble':
                raise Skip('solver')
            return [('optimum', f'model {a[:2]}, stated problem {r.status} {r.obj}')]
        if a[0] != 'optimal':
            return []
        res = m.results()
        if list(res) != [f'v{i}' for i in range(len(V))]:
            return [('results', f'{list(res)}')]
        X = {}
        for i, (v, q) in enumerate(zip(case['vars'], V)):
            got = res[f'v{i}']
            if got is not q.result and not np.array_equal(got, q.result):
                bad.append(('results', f'v{i}: results() {got} is not .result {q.result}'))
            arr = np.atleast_1d(np.asarray(got))
            if arr.shape != (v['L'],) or (v['L'] == 1 and np.ndim(got) != 0):
                bad.append(('results', f'v{i}: {got!r} for length {v["L"]}'))
                continue
            if v['bin'] and not (np.issubdtype(arr.dtype, np.integer) and set(arr.tolist()) <= {0, 1}):
                bad.append(('binary', f'v{i}: {got!r}'))
            for j in range(v['L']):
                X[i, j] = float(arr[j])
            lo, hi = vec(v.get('lb', -hs.INF), v['L']), vec(v.get('ub', hs.INF), v['L'])
            for j in range(v['L']):
                if X[i, j] < lo[j] - tol or X[i, j] > hi[j] + tol:
                    bad.append(('bounds', f'v{i}[{j}] = {X[i, j]} outside {lo[j]}..{hi[j]}'))
                if 'fix' in v and abs(X[i, j] - vec(v['fix'], v['L'])[j]) > 1e-9:
                    bad.append(('fixed', f'v{i}[{j}] = {X[i, j]}, fixed to {v["fix"]}'))
        if bad:
            return bad
        for kind, e, rhs in R:
            s = sum(c * X[x] for x, c in e.items())
            if s > rhs + 2e-5 or kind == 'eq' and s < rhs - 2e-5:
                bad.append(('rows', f'{kind} {e} = {s} against {rhs}'))
        s = sum(c * X[x] for x, c in O.items())
        if not sut.close(s, a[1], 1e-5) or not sut.close(a[2].objective, a[1], 1e-6):
            bad.append(('objective', f'reported {a[1]} / {a[2].objective}, result values give {s}'))
        n = m.infos['Model Size']
        eq = [x for x in R if x[0] == 'eq']
        want = {'No. of Eqs.': sum(c['kind'] == 'eq' for c in case['cons']), 'No. of Eqs. (single)': len(eq),
                'No. of Ineqs.': sum(c['kind'] != 'eq' for c in case['cons']), 'No. of Ineqs. (single)': len(R) - len(eq),
                'No. of Vars.': len(V), 'No. of Vars. (single)': len(lp.c),
                'No. of Vars. (TS)': sum(v['ts'] for v in case['vars'])}
        if dict(n) != want:
            bad.append(('size', f'{n} expected {want}'))
        return bad

    def matches_known(self, k, case, bad):
        return False
