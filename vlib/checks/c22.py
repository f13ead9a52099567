"""C22: histories of configuration files (valid, faulty), direct changes and models built in between."""
import contextlib, copy, io, logging, os, pathlib, shutil, tempfile
import numpy as np
import yaml
from hypothesis import strategies as st
from .. import env, sut, build
from ..run import Skip

fx = sut.fx
from flixOpt import config as C
CONFIG = fx.CONFIG
LEVELS = ['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
PATHS = [('config_name',), ('logging', 'level'), ('logging', 'file'), ('logging', 'rich'), ('modeling', 'BIG'), ('modeling', 'EPSILON'),
         ('modeling', 'BIG_BINARY_BOUND')]
WRONG = {('config_name',): [3, None, True, 1.5, ['a'], {'a': 1}], ('logging', 'level'): ['info', 'TRACE', 'WARN', '', 10, None, True, ['INFO']],
         ('logging', 'file'): [3, True, ['a'], {'a': 1}, None, 1.5], ('logging', 'rich'): ['yes', 1, 0, None, 'false', [True], 0.0],
         ('modeling', 'BIG'): [1e7, '1e7', None, '100', [5]], ('modeling', 'EPSILON'): ['1e-5', 1, None, '0.1', [0.1]],
         ('modeling', 'BIG_BINARY_BOUND'): [1e5, '100000', None, [1]]}
TXT = st.text(st.sampled_from('abc xyzäöß-_.€0123#:\'"'), max_size=10)
CFG = st.fixed_dictionaries({
    'config_name': TXT,
    'logging': st.fixed_dictionaries({'level': st.sampled_from(LEVELS), 'file': st.tuples(st.sampled_from(['a', 'b', 'log ä', 'sub/c', 'x.y']), st.sampled_from(['.log', '', '.txt'])).map(''.join),
                                      'rich': st.booleans()}),
    'modeling': st.fixed_dictionaries({
        'BIG': st.one_of(st.integers(1, 10**12), st.sampled_from([1000, 10**5, 10**7])),
        'EPSILON': st.one_of(st.sampled_from([1e-5, 1e-3, 0.5, 1.0, 2.5]), st.integers(1, 4000).map(lambda k: k / 1000), st.floats(1e-9, 1.0)),
        'BIG_BINARY_BOUND': st.one_of(st.integers(1, 10**9), st.sampled_from([50, 99, 100, 101]))})})
FAULT = st.one_of(
    st.tuples(st.just('drop'), st.sampled_from(PATHS)), st.tuples(st.just('wrong'), st.sampled_from(PATHS)),
    st.tuples(st.just('section'), st.sampled_from(['logging', 'modeling'])), st.tuples(st.just('dropsection'), st.sampled_from(['logging', 'modeling'])),
    st.tuples(st.just('doc'), st.integers(0, 5)), st.tuples(st.just('absent'), st.integers(0, 3)), st.tuples(st.just('folder'), st.just(0)),
    st.tuples(st.just('badlogfile'), st.just(0))).map(list)
OP = st.one_of(
    st.tuples(st.just('load'), CFG, st.integers(0, 7)), st.tuples(st.just('load'), CFG, st.integers(0, 7)),
    st.tuples(st.just('bad'), CFG, FAULT, st.integers(0, 7)), st.tuples(st.just('bad'), CFG, FAULT, st.integers(0, 7)),
    st.tuples(st.just('default')), st.tuples(st.just('set'), CFG, st.sampled_from(PATHS[1:])),
    st.tuples(st.just('badset'), st.sampled_from(PATHS[1:]), st.integers(0, 7)), st.tuples(st.just('level'), st.sampled_from(LEVELS), st.integers(0, 1)),
    st.tuples(st.just('badlevel'), st.sampled_from(['TRACE', '', 'warn', 'INFO '])), st.tuples(st.just('probe'), st.integers(0, 1)),
    st.tuples(st.just('merge'), st.integers(0, 10**6))).map(list)


def put(d, path, v):
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = v


def get(d, path):
    for k in path:
        d = d[k]
    return d


def drop(d, path):
    for k in path[:-1]:
        d = d[k]
    del d[path[-1]]


def typed(v):
    if isinstance(v, dict):
        return {k: typed(x) for k, x in v.items()}
    return (type(v).__name__, v)


def nested(rs, depth):
    return {f'k{rs.randint(3)}': nested(rs, depth - 1) if depth and rs.rand() < .7 else [int(rs.randint(9)), None, 'x', [1], {}][rs.randint(5)]
            for _ in range(rs.randint(4))}


def merged(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merged(a[k], v) if isinstance(v, dict) and isinstance(a.get(k), dict) else v
    return out


class Check:
    id = 'C22'
    rule = ('histories of 1-6 steps: loading a generated configuration file (any order, block or flow style, str or path), one with a fault '
            '(missing entry or section, wrong type, invalid level, broken document, absent file, folder, log file that cannot be written), the '
            'default, direct changes, invalid changes; after each the configuration must be exactly that of the last accepted one; messages '
            'must reach the configured file by level, models must use the configured big value and epsilon; non-trivial: at least two '
            'steps took effect or were rejected')
    assumptions = ['entries flixOpt does not know are not part of the statement']
    quick, thorough = 3000, 40000

    def strategy(self, tier):
        return st.lists(OP, min_size=1, max_size=8 if tier == 'thorough' else 6)

    def write(self, path, cfg, style):
        cfg = copy.deepcopy(cfg)
        if style & 1:
            cfg = {k: ({a: v[a] for a in reversed(list(v))} if isinstance(v, dict) else v) for k, v in reversed(list(cfg.items()))}
        text = yaml.safe_dump(cfg, sort_keys=False, allow_unicode=True, default_flow_style=bool(style & 2))
        if style & 4 and not style & 2:
            text = '# a comment\n' + text + '\n# end\n'
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text)
        return pathlib.Path(path) if style & 4 else str(path)

    def run(self, case, ctx):
        D = tempfile.mkdtemp(prefix='cfg', dir=os.getcwd())
        lg = logging.getLogger('flixOpt')
        real, cwd, shown = lg.handlers[:], os.getcwd(), io.StringIO()
        bad = []
        try:
            os.chdir(D)
            os.makedirs('sub')
            with contextlib.redirect_stderr(shown), contextlib.redirect_stdout(shown):
                bad = self.history(case, ctx, D, lg, shown)
        finally:
            os.chdir(cwd)
            for h in lg.handlers:
                if h not in real: h.close()
            default = yaml.safe_load(open(os.path.join(os.path.dirname(C.__file__), 'config.yaml')))
            CONFIG.config_name = default['config_name']
            CONFIG.logging = C.LoggingConfig(**default['logging'])
            CONFIG.modeling = C.ModelingConfig(**default['modeling'])
            lg.handlers[:] = real
            for h in real: h.setLevel(logging.NOTSET)
            env.quiet()
            shutil.rmtree(D)
        return bad

    def history(self, case, ctx, D, lg, shown):
        default = yaml.safe_load(open(os.path.join(os.path.dirname(C.__file__), 'config.yaml')))
        CONFIG.load_config()
        now, level, logfile, done = default, default['logging']['level'], default['logging']['file'], 0
        bad = self.state(now, 'the default')
        for k, op in enumerate(copy.deepcopy(case)):
            if bad: break
            kind, what = op[0], f'step {k} {op[0]}'
            ctx.tag(kind if kind != 'bad' else 'bad ' + op[2][0])
            if kind == 'load':
                CONFIG.load_config(self.write(f'c{k}.yaml', op[1], op[2]))
                now, level, logfile = op[1], op[1]['logging']['level'], op[1]['logging']['file']
            elif kind == 'default':
                CONFIG.load_config()
                now, level, logfile = default, default['logging']['level'], default['logging']['file']
            elif kind == 'bad':
                path = self.faulty(op, k)
                try:
                    CONFIG.load_config(path)
                    bad = [('rejected', f'{what}: {op[2]} in {op[1]} was accepted: {CONFIG.to_dict()}')]
                except Exception:
                    pass
            elif kind == 'set':
                now = copy.deepcopy(now)
                put(now, op[2], get(op[1], op[2]))
                setattr(getattr(CONFIG, op[2][0]), op[2][1], get(op[1], op[2]))
            elif kind == 'badset':
                v = WRONG[tuple(op[1])]
                try:
                    setattr(getattr(CONFIG, op[1][0]), op[1][1], v[op[2] % len(v)])
                    bad = [('rejected', f'{what}: {op[1]} = {v[op[2] % len(v)]!r} was accepted')]
                except Exception:
                    pass
            elif kind == 'level':
                fx.change_logging_level(op[1].lower() if op[2] else op[1])
                level = op[1]
            elif kind == 'badlevel':
                try:
                    fx.change_logging_level(op[1])
                    bad = [('rejected', f'{what}: level {op[1]!r} was accepted')]
                except Exception:
                    pass
            elif kind == 'probe':
                bad = self.probe(now, what, op[1], ctx)
            elif kind == 'merge':
                rs = np.random.RandomState(op[1])
                for _ in range(8):
                    a, b = nested(rs, 4), nested(rs, 4)
                    ka, kb = copy.deepcopy((a, b))
                    want = merged(a, b)
                    got = C.merge_configs(a, b)
                    if got != want or b != kb:
                        bad = [('merge', f'{what}: {ka} with {kb}: {got} expected {want}, overrides now {b}')]
            done += kind not in ('probe', 'merge')
            bad = bad or self.state(now, what) or self.logs(level, logfile, lg, shown, what, k)
        ctx.nontrivial = done >= 2
        return bad

    def faulty(self, op, k):
        cfg, (f, x), style = op[1], op[2], op[3]
        p = f'bad{k}.yaml'
        if f == 'drop': drop(cfg, x)
        if f == 'wrong': put(cfg, x, WRONG[tuple(x)][style % len(WRONG[tuple(x)])])
        if f == 'section': cfg[x] = [None, 'x', 5, [], ['level'], [cfg[x]], True, 'None'][style]
        if f == 'dropsection': del cfg[x]
        if f == 'badlogfile': cfg['logging']['file'] = 'nowhere/a/b.log'
        if f == 'doc':
            with open(p, 'w') as h:
                h.write(['', '- a\n- b\n', 'text', 'a: [1\nb', '{}', '5'][x])
            return p
        if f == 'absent': return ['nothing.yaml', pathlib.Path('no/where.yaml'), '', os.path.join(os.getcwd(), 'x.yml')][x]
        if f == 'folder': return 'sub'
        return self.write(p, cfg, style)

    def state(self, now, what):
        got = CONFIG.to_dict()
        if typed(got) != typed(now):
            return [('values', f'{what}: to_dict {got} expected {now}')]
        seen = {'config_name': CONFIG.config_name, 'logging': {k: getattr(CONFIG.logging, k, '?') for k in now['logging']},
                'modeling': {k: getattr(CONFIG.modeling, k, '?') for k in now['modeling']}}
        if typed(seen) != typed(now):
            return [('values', f'{what}: CONFIG {seen} expected {now}')]
        return []

    def logs(self, level, logfile, lg, shown, what, k):
        """messages of every level: which reach the file and the console"""
        files = [h for h in lg.handlers if isinstance(h, logging.FileHandler)]
        if len(files) != 1 or len(lg.handlers) != 2:
            return [('logging', f'{what}: handlers {lg.handlers}')]
        path = files[0].baseFilename
        if path != os.path.abspath(logfile):
            return [('logging', f'{what}: messages go to {path}, configured is {logfile}')]
        for h in lg.handlers: h.flush()
        before, con = os.path.getsize(path), len(shown.getvalue())
        for lv in LEVELS:
            lg.log(getattr(logging, lv), f'mark{k}{lv}\nmore{k}{lv}')
        for h in lg.handlers: h.flush()
        with open(path, encoding='utf-8', errors='replace') as f:
            f.seek(before)
            lines = f.read().splitlines()
        expect = [f'{t}{k}{lv}' for lv in LEVELS[LEVELS.index(level):] for t in ('mark', 'more')]
        texts = [x.split('|')[-1].strip() for x in lines]
        if texts != expect:
            return [('logging', f'{what}: level {level}: the file got {lines}')]
        for x in lines:
            if not any(f'| {lv.ljust(8)} |' in x and lv in x.split('|')[-1] for lv in LEVELS):
                return [('logging', f'{what}: line without its level: {x!r}')]
        out = shown.getvalue()[con:]
        miss = [x for x in expect if out.count(x) != 1]
        extra = [lv for lv in LEVELS[:LEVELS.index(level)] if f'mark{k}{lv}' in out]
        if miss or extra:
            return [('logging', f'{what}: level {level}: console {out!r}')]
        return []

    def probe(self, now, what, v, ctx):
        """models built now use the values configured now"""
        m = now['modeling']
        big, eps, bound = m['BIG'], m['EPSILON'], m['BIG_BINARY_BOUND']
        bad = []
        t = np.datetime64('2020-01-01T00', 'us') + np.arange(3) * np.timedelta64(3600, 's')

        def system(make):
            e = fx.Effect('c', 'u', 'd', is_standard=True, is_objective=True)
            b = fx.Bus('B', excess_penalty_per_flow_hour=1e-4)
            fs = fx.FlowSystem(t)
            fl = make(b)
            fs.add_elements(e, *[fx.Source(f'S{i}', x) for i, x in enumerate(fl)])
            calc = fx.FullCalculation('p', fs)
            calc.do_modeling()
            if sut.do_solve(calc) != 'optimal':
                raise Skip('probe not solved')
            r = calc.results()['Components']
            return r, [r[f'S{i}'][x.label] for i, x in enumerate(fl)]

        if big <= 10**8:
            ctx.tag('big')
            r, (a, b) = system(lambda B: [fx.Flow('a', B, effects_per_flow_hour=-1.0), fx.Flow('b', B, size=fx.InvestParameters(specific_effects=-1.0))])
            if not np.allclose(a['flow_rate'], big, rtol=1e-6):
                bad.append(('big', f'{what}: flow without size reaches {a["flow_rate"]}, BIG is {big}'))
            size = b['Investment']['size'] if 'Investment' in b else b.get('size')
            if size is None: size = find(b, 'size')
            if not np.allclose(size, big, rtol=1e-6):
                bad.append(('big', f'{what}: size without maximum reaches {size}, BIG is {big}'))
        if 1e-3 <= eps <= 4:
            ctx.tag('epsilon')
            prev = eps * (0.5 if v else 2.0)
            r, (a, b, c) = system(lambda B: [
                fx.Flow('a', B, size=100, effects_per_flow_hour=1.0, on_off_parameters=fx.OnOffParameters(on_hours_total_min=3)),
                fx.Flow('b', B, size=fx.InvestParameters(maximum_size=50, specific_effects=1.0, fix_effects=-9.0)),
                fx.Flow('c', B, size=100, effects_per_flow_hour=1.0, previous_flow_rate=prev,
                        on_off_parameters=fx.OnOffParameters(on_hours_total_min=3, effects_per_switch_on=1.0))])
            for x, y in ((find(a, 'flow_rate'), 'a flow that is on'), (find(b, 'size'), 'the smallest investment')):
                if not np.allclose(x, eps, atol=1e-6, rtol=1e-5):
                    bad.append(('epsilon', f'{what}: {y} has {x}, EPSILON is {eps}'))
            sw = float(np.sum(find(c, 'switchOn')))
            if round(sw) != (1 if v else 0):
                bad.append(('epsilon', f'{what}: previous rate {prev}, EPSILON {eps}: {sw} switch-ons'))
            files = [h for h in logging.getLogger('flixOpt').handlers if isinstance(h, logging.FileHandler)]
            if logging.getLogger('flixOpt').isEnabledFor(logging.WARNING):
                ctx.tag('bound')
                with open(files[0].baseFilename, encoding='utf-8') as f:
                    text = f.read()
                got = 'big upper bound' in text[text.rfind('Registered new'):] if 'Registered new' in text else 'big upper bound' in text
                if bound < 100 and not got:
                    bad.append(('bound', f'{what}: no warning about a bound of 100, BIG_BINARY_BOUND is {bound}'))
        return bad


def find(d, key):
    """the value of `key` somewhere in nested results"""
    if key in d: return d[key]
    for v in d.values():
        if isinstance(v, dict):
            x = find(v, key)
            if x is not None: return x
