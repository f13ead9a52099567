"""C23: figures, heat maps and reshaped data against the table they were given."""
import datetime, io, logging, os, pathlib, shutil, tempfile, warnings, webbrowser
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from .. import gen, sut, build, spectool, ref as R
from ..run import Skip
from . import c19

fx = sut.fx
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.colors as mc
import matplotlib.dates as md
from flixOpt import plotting as P
from flixOpt import results as RES

PALETTE = ['#112233', '#445566', '#a1b2c3', '#ff0010', '#00ff20', '#0030ff', '#808001']
COL = st.fixed_dictionaries({'sign': st.sampled_from(['pos', 'neg', 'zero', 'mixed', 'tiny', 'tinymixed', 'posz', 'negz', 'small']), 'seed': st.integers(0, 999),
                             'kind': st.sampled_from(['f', 'f', 'i', 'f32'])})
NAMES = st.sampled_from(['a', 'B__x', 'Wärme', 'x y', 'c.1', '0', 'P_el', 'very long name of a flow', '_u'])
TIME = st.fixed_dictionaries({'kind': st.sampled_from(['even', 'uneven', 'int', 'float']), 'start': st.integers(0, 3 * 366 * 96),
                              'step': st.sampled_from([15, 60, 60, 120, 1440]), 'seed': st.integers(0, 999)})
TABLE = st.fixed_dictionaries({'n': st.integers(1, 9), 'cols': st.lists(st.tuples(NAMES, COL), min_size=1, max_size=6, unique_by=lambda t: t[0]),
                               'time': TIME})
FMT = [('YS', 'W'), ('YS', 'D'), ('YS', 'h'), ('MS', 'D'), ('MS', 'h'), ('W', 'D'), ('W', 'h'), ('D', 'h'), ('D', '15min'), ('h', '15min'), ('h', 'min')]
CASE = st.one_of(
    st.fixed_dictionaries({'what': st.just('plotly'), 'table': TABLE, 'mode': st.sampled_from(['bar', 'line', 'area', 'area', 'area']), 'colors': st.integers(0, 3),
                           'fig': st.booleans(), 'save': st.integers(0, 40)}),
    st.fixed_dictionaries({'what': st.just('mpl'), 'table': TABLE, 'mode': st.sampled_from(['bar', 'line']), 'colors': st.integers(0, 3),
                           'fig': st.booleans(), 'save': st.integers(0, 60)}),
    st.fixed_dictionaries({'what': st.just('reshape'), 'n': st.integers(0, 60), 'steps': st.integers(1, 30), 'seed': st.integers(0, 9999),
                           'kind': st.sampled_from(['float64', 'int64', 'float32', 'bool', 'int8'])}),
    st.fixed_dictionaries({'what': st.just('heat'), 'fmt': st.integers(0, len(FMT) - 1), 'n': st.integers(1, 80), 'start': st.integers(0, 3 * 366 * 1440),
                           'step': st.sampled_from([1, 5, 15, 30, 60, 60, 180, 1440, 1440, 7 * 1440]), 'gap': st.integers(0, 60), 'seed': st.integers(0, 9999),
                           'fill': st.sampled_from([None, 'ffill', 'bfill']), 'shuffle': st.integers(0, 5), 'two': st.booleans()}),
    st.fixed_dictionaries({'what': st.just('map'), 'rows': st.integers(1, 9), 'cols': st.integers(1, 9), 'seed': st.integers(0, 9999), 'nan': st.integers(0, 3),
                           'labels': st.integers(0, 2), 'engine': st.integers(0, 1), 'save': st.integers(0, 60)}),
    st.fixed_dictionaries({'what': st.just('results'), 'spec': gen.specs(n=(3, 6), extra=(1, 2), prof=20, kinds=dict(storage=8, conv=1, named=1, sas=1, trans=1)),
                           'pick': st.integers(0, 99), 'mode': st.sampled_from(['bar', 'line', 'area', 'heatmap']), 'engine': st.sampled_from(['plotly', 'plotly', 'matplotlib']),
                           'invert': st.booleans(), 'fmt': st.integers(0, len(FMT) - 1), 'storage': st.integers(0, 2), 'save': st.integers(0, 5), 'show': st.integers(0, 5), 'path': st.integers(0, 2), 'net': st.integers(0, 3)}),
    st.fixed_dictionaries({'what': st.just('network'), 'spec': gen.specs(n=(3, 4), extra=(1, 4)), 'save': st.integers(0, 3)}))


def column(c, n):
    rs = np.random.RandomState(c['seed'])
    v = rs.randint(1, 200, n) / (1 if c['kind'] == 'i' else 8)
    s = c['sign']
    if s == 'neg': v = -v
    if s == 'zero': v = 0 * v
    if s == 'posz': v = v * rs.randint(0, 2, n)
    if s == 'negz': v = -v * rs.randint(0, 2, n)
    if s == 'mixed': v = v * rs.choice([-1, 0, 1], n)
    if s == 'small': v = v * 1e-4 * (-1) ** c['seed']
    if s == 'tiny': v = rs.uniform(-9e-6, 9e-6, n)
    if s == 'tinymixed': v = np.where(rs.rand(n) < .5, -abs(v) if c['seed'] % 2 else abs(v), rs.uniform(-9e-6, 9e-6, n))
    return np.asarray(v).astype({'i': 'int64', 'f32': 'float32', 'f': 'float64'}[c['kind']])


def index(t, n):
    rs = np.random.RandomState(t['seed'])
    if t['kind'] == 'int': return pd.RangeIndex(t['start'] % 50, t['start'] % 50 + n)
    gaps = np.full(n, t['step']) if t['kind'] != 'uneven' else rs.choice([15, 30, 60, 180], n)
    off = np.concatenate([[0], np.cumsum(gaps[:-1])])
    if t['kind'] == 'float': return pd.Index(off / 60.0)
    return pd.DatetimeIndex(np.datetime64('2019-01-01T00:00', 'm') + t['start'] * 15 + off.astype('timedelta64[m]')).as_unit('ns')


def table(t):
    return pd.DataFrame({name: column(c, t['n']) for name, c in t['cols']}, index=index(t['time'], t['n']))


def pos(idx):
    """numbers for the positions on an axis"""
    a = np.asarray(idx)
    if a.dtype.kind == 'M': return md.date2num(a)
    if a.dtype == object: return md.date2num([pd.Timestamp(x).to_datetime64() for x in a])
    return a.astype(float)


def eq(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def untouched(df, keep):
    return df.equals(keep) and list(df.columns) == list(keep.columns) and list(df.dtypes) == list(keep.dtypes) and df.index.equals(keep.index)


def check_plotly(fig, df, mode, skip=0):
    """every column of df once, with its values"""
    tr = list(fig.data)[skip:]
    names = [str(x.name) for x in tr]
    if sorted(names) != sorted(map(str, df.columns)):
        return f'{mode}: traces {names}, columns {list(df.columns)}'
    for x in tr:
        y = np.asarray(df[x.name], float)
        if not eq(pos(x.x), pos(df.index)):
            return f'{mode}: {x.name} is drawn at {x.x}, the table has {df.index}'
        if not eq(x.y, y) and not (mode == 'area' and np.all(np.abs(np.asarray(x.y, float) - y) <= 1e-5) and np.all((np.abs(y) < 1e-5) | (np.asarray(x.y, float) == y))):
            return f'{mode}: {x.name} shows {x.y}, the table has {y}'
        if mode == 'bar' and x.type != 'bar' or mode != 'bar' and (x.type != 'scatter' or x.line.shape != 'hv'):
            return f'{mode}: {x.name} is a {x.type} {x.line if x.type == "scatter" else ""}'
    if mode == 'bar' and fig.layout.barmode != 'relative':
        return f'bars are not stacked by sign: {fig.layout.barmode}'
    if mode == 'line' and any(x.stackgroup for x in tr):
        return 'lines are stacked'
    if mode == 'area':
        g = {'pos': set(), 'neg': set(), None: set()}
        for x in tr:
            y = np.asarray(df[x.name], float)
            y = np.where(np.abs(y) < 1e-5, 0, y)
            kind = 'zero' if not y.any() else 'pos' if (y >= 0).all() else 'neg' if (y <= 0).all() else None
            if kind != 'zero': g[kind].add(x.stackgroup or None)
        if any(len(v) > 1 for v in g.values()) or g['pos'] & g['neg'] or None in g['pos'] | g['neg'] or g[None] - {None}:
            return f'stacks: {g} (positive, negative and mixed columns)'
    return None


def check_bars(ax, df, colors):
    """stacked by sign at every position; each colour one column"""
    n = len(df)
    x = pos(df.index)
    got = {c: np.zeros(n) for c in df.columns}
    spans = {(k, s): [] for k in range(n) for s in (1, -1)}
    for p in ax.patches:
        h = p.get_height()
        if h == 0: continue
        mid = p.get_x() + p.get_width() / 2
        k = int(np.argmin(np.abs(x - mid)))
        if not abs(x[k] - mid) <= 1e-6 * max(1, abs(x[k])):
            return f'bar at {mid}, the index is {x}'
        if not p.get_width() > 0 or n > 1 and p.get_width() > np.min(np.diff(x)) * (1 + 1e-6):
            return f'bar of width {p.get_width()}'
        c = next((c for c, q in zip(df.columns, colors) if np.allclose(mc.to_rgba(q), p.get_facecolor(), atol=1e-3)), None)
        if c is None: return f'bar of unknown colour {p.get_facecolor()}'
        got[c][k] += h
        y = p.get_y()
        spans[k, 1 if h > 0 else -1].append((min(abs(y), abs(y + h)), max(abs(y), abs(y + h)), y, h))
    for c in df.columns:
        if not eq(got[c], df[c].astype(float), 1e-6): return f'{c}: bars {got[c]}, the table has {list(df[c])}'
    for (k, s), v in spans.items():
        at = 0.0
        for a, b, y, h in sorted(v):
            if abs(a - at) > 1e-6 * (1 + at) or y * s < -1e-9 or (y + h) * s < -1e-9: return f'bars at step {k} do not stack from zero: {sorted(v)}'
            at = b
    lab = [h.get_label() for h in ax.containers if h.get_label() and not str(h.get_label()).startswith('_')]
    want = [str(c) for c in df.columns if not str(c).startswith('_')]
    if sorted(map(str, lab)) != sorted(want): return f'labels {lab}'
    return None


def check_lines(ax, df, colors):
    if len(ax.lines) != df.shape[1]: return f'{len(ax.lines)} lines for {df.shape[1]} columns'
    left = list(ax.lines)
    for c, q in zip(df.columns, colors):
        ln = [x for x in left if np.allclose(mc.to_rgba(x.get_color()), mc.to_rgba(q), atol=1e-3)]
        if not ln: return f'no line of colour {q}'
        ln = ln[0]
        if str(ln.get_label()) != str(c): return f'line of {c} is called {ln.get_label()}'
        if not eq(pos(ln.get_xdata()), pos(df.index), 1e-7): return f'{c} is drawn at {ln.get_xdata()}'
        if not eq(ln.get_ydata(), df[c].astype(float)): return f'{c}: {ln.get_ydata()}, the table has {list(df[c])}'
        if ln.get_drawstyle() != 'steps-post': return f'{c}: {ln.get_drawstyle()}'
    return None


def week_end(t):
    """Sunday that ends the week of t"""
    d = datetime.datetime(t.year, t.month, t.day)
    return d + datetime.timedelta(days=(6 - d.weekday()))


def bucket(t, step):
    if step == 'W': return week_end(t)
    if step == 'D': return datetime.datetime(t.year, t.month, t.day)
    m = {'h': 60, '15min': 15, 'min': 1}[step]
    b = datetime.datetime(t.year, t.month, t.day)
    k = int((t - b).total_seconds() // 60 // m) * m
    return b + datetime.timedelta(minutes=k)


DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']


def cell(b, periods, step):
    """(what identifies the period, what identifies the step) of a bucket"""
    p = {'YS': (b.year,), 'MS': (b.year, b.month), 'W': (b.year, int(b.strftime('%W'))), 'D': (b.year, b.month, b.day),
         'h': (b.year, b.month, b.day, b.hour)}[periods]
    s = {('YS', 'W'): lambda: (int(b.strftime('%W')),), ('YS', 'D'): lambda: (b.timetuple().tm_yday,), ('YS', 'h'): lambda: (b.timetuple().tm_yday, b.hour),
         ('MS', 'D'): lambda: (b.day,), ('MS', 'h'): lambda: (b.day, b.hour), ('W', 'D'): lambda: (b.weekday(),), ('W', 'h'): lambda: (b.weekday(), b.hour),
         ('D', 'h'): lambda: (b.hour,), ('D', '15min'): lambda: (b.hour, b.minute), ('h', '15min'): lambda: (b.minute,), ('h', 'min'): lambda: (b.minute,)}[periods, step]()
    return p, s


def heat_oracle(times, values, periods, step, fill):
    """(sorted periods, sorted steps, {(p, s): value})"""
    acc = {}
    for t, v in zip(times, values):
        acc.setdefault(bucket(t, step), []).append(v)
    d = {'W': datetime.timedelta(days=7), 'D': datetime.timedelta(days=1), 'h': datetime.timedelta(hours=1), '15min': datetime.timedelta(minutes=15),
         'min': datetime.timedelta(minutes=1)}[step]
    b, last = min(acc), max(acc)
    seq = []
    while b <= last:
        seq.append([b, float(np.mean(acc[b])) if b in acc else np.nan])
        b += d
    if fill == 'ffill':
        for i in range(1, len(seq)):
            if np.isnan(seq[i][1]): seq[i][1] = seq[i - 1][1]
    if fill == 'bfill':
        for i in range(len(seq) - 2, -1, -1):
            if np.isnan(seq[i][1]): seq[i][1] = seq[i + 1][1]
    cells = {cell(b, periods, step): v for b, v in seq}
    return sorted({p for p, s in cells}), sorted({s for p, s in cells}), cells


def check_heat(out, times, values, periods, step, fill):
    ps, ss, cells = heat_oracle(times, values, periods, step, fill)
    if out.shape != (len(ss), len(ps)):
        return f'{out.shape} cells, expected {len(ss)} steps x {len(ps)} periods'
    for name, have in (('period', list(out.columns)), ('step', list(out.index))):
        if len(set(have)) != len(have) or have != sorted(have):
            return f'{name} labels {have}'
    for i, s in enumerate(ss):
        for j, p in enumerate(ps):
            v, w = out.iloc[i, j], cells.get((p, s), np.nan)
            if not eq([v], [w], 1e-9): return f'cell {out.index[i]} / {out.columns[j]}: {v}, expected {w} ({p}, {s})'
    # the labels name the cells
    for j, p in enumerate(ps):
        if not all(str(x).zfill(2) in str(out.columns[j]) for x in p): return f'period {p} is called {out.columns[j]}'
    for i, s in enumerate(ss):
        t = str(out.index[i])
        ok = DAYS[s[0]] in t and all(f' {x:02d}' in t for x in s[1:]) if periods == 'W' else all(str(x).zfill(2) in t for x in s)
        if not ok: return f'step {s} is called {t}'
    return None


def check_map_plotly(fig, df):
    if len(fig.data) != 1: return f'{len(fig.data)} traces'
    h = fig.data[0]
    if not eq(h.z, df.values): return f'heat map shows {h.z}, the table has {df.values}'
    if [str(x) for x in h.x] != [str(x) for x in df.columns] or [str(x) for x in h.y] != [str(x) for x in df.index]:
        return f'axes {h.x} / {h.y}, the table has {list(df.columns)} / {list(df.index)}'
    if not np.isnan(df.values).all() and (not eq([h.zmin], [np.nanmin(df.values)]) or not eq([h.zmax], [np.nanmax(df.values)])):
        return f'colours from {h.zmin} to {h.zmax}'
    if fig.layout.yaxis.autorange != 'reversed': return 'first row is not at the top'


def check_map_mpl(ax, df):
    q = [c for c in ax.collections if hasattr(c, 'get_coordinates')]
    if len(q) != 1: return f'{len(q)} meshes'
    a = np.ma.filled(np.ma.asarray(q[0].get_array(), float), np.nan).reshape(df.shape)
    if not eq(a, df.values): return f'heat map shows {a}, the table has {df.values}'
    if [t.get_text() for t in ax.get_xticklabels()] != [str(c) for c in df.columns] or [t.get_text() for t in ax.get_yticklabels()] != [str(c) for c in df.index]:
        return f'labels {[t.get_text() for t in ax.get_xticklabels()]} / {[t.get_text() for t in ax.get_yticklabels()]}'
    if not ax.yaxis_inverted(): return 'first row is not at the top'
    if not eq(ax.get_xticks(), np.arange(df.shape[1]) + .5) or not eq(ax.get_yticks(), np.arange(df.shape[0]) + .5): return 'ticks are not in the middle of the cells'


def check_network(net, spec):
    want = {x['label']: 'box' for x in spec['comps']}
    used = {f['bus'] for _, f in spectool.all_flows(spec)}
    want.update({b: 'circle' for b in used})
    got = {x['id']: x['shape'] for x in net.nodes}
    if got != want or len(net.nodes) != len(want): return f'nodes {got}, expected {want}'
    edges = []
    for x in spec['comps']:
        ins, outs = R.flows_of(x)
        edges += [(f['bus'], x['label'], f['label']) for f in ins] + [(x['label'], f['bus'], f['label']) for f in outs]
    ge = [(e['from'], e['to'], e['label']) for e in net.edges]
    if sorted(ge) != sorted(edges): return f'edges {sorted(ge)}, expected {sorted(edges)}'


class Check:
    id = 'C23'
    rule = ('generated tables (1-9 rows, 1-6 columns of every sign pattern, values next to zero, int and float, time or number index) in every mode '
            'and engine; heat map data of every period / step pair over 1-80 stamps with gaps; heat maps; reshaping; plots of solved systems '
            '(plot_operation, plot_storage) and network drawings; each figure is read back and compared with the table; non-trivial: the table has '
            'at least two values')
    assumptions = ['column names are unique and texts, values finite (heat maps may have gaps), time stamps without time zone, ascending except in heat map data',
                   'a heat map of several columns shows the first']
    quick, thorough = 3000, 30000

    def strategy(self, tier):
        return CASE

    def run(self, case, ctx):
        D = tempfile.mkdtemp(prefix='plot', dir=os.getcwd())
        cwd, opened = os.getcwd(), []
        old = webbrowser.open
        webbrowser.open = lambda *a, **k: opened.append(a) or True
        try:
            os.chdir(D)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ctx.tag(case['what'])
                bad = getattr(self, case['what'])(case, ctx)
        finally:
            webbrowser.open = old
            plt.close('all')
            os.chdir(cwd)
            shutil.rmtree(D)
        return [(case['what'], bad)] if bad else []

    def colors(self, k, n):
        return [PALETTE[:n], 'viridis', 'plasma', PALETTE[:n]][k]

    def plotly(self, c, ctx):
        df = table(c['table'])
        keep = df.copy(deep=True)
        ctx.nontrivial = df.size >= 2
        ctx.tag(c['mode'])
        colors, fig, skip = self.colors(c['colors'], df.shape[1]), None, 0
        if c['fig']:
            fig, skip = P.go.Figure(P.go.Scatter(x=[1, 2], y=[3, 4], name='before')), 1
        kw = {'save': True, 'path': [pathlib.Path('p.html'), 'p.html'][c['save'] % 2]} if c['save'] == 40 or c['save'] == 39 else {}
        out = P.with_plotly(df, c['mode'], colors, fig=fig, title='t', ylabel='y', **kw)
        if skip and (out.data[0].name != 'before' or list(out.data[0].y) != [3, 4]): return 'what was in the figure is gone'
        if kw and not os.path.getsize('p.html'): return 'not saved'
        if not untouched(df, keep): return f'{c["mode"]}: the table was changed: {df} was {keep}'
        bad = check_plotly(out, keep, c['mode'], skip)
        if not bad and not isinstance(colors, str):
            by = {str(x.name): (x.marker.color if c['mode'] == 'bar' else x.line.color) for x in out.data[skip:]}
            if by != {str(n): q for n, q in zip(df.columns, colors)}: return f'colours {by}, expected {dict(zip(df.columns, colors))}'
        return bad

    def mpl(self, c, ctx):
        df = table(c['table'])
        keep = df.copy(deep=True)
        ctx.nontrivial = df.size >= 2
        ctx.tag('mpl ' + c['mode'])
        colors = self.colors(c['colors'], df.shape[1])
        kw = {}
        if c['fig']: kw['fig'], kw['ax'] = plt.subplots()
        if c['save'] == 60: kw['path'] = 'p.png'
        fig, ax = P.with_matplotlib(df, c['mode'], colors, figsize=(4, 3), **kw)
        if c['fig'] and (fig is not kw['fig'] or ax is not kw['ax']): return 'not drawn in the given axes'
        if c['save'] == 60 and not os.path.getsize('p.png'): return 'not saved'
        if not untouched(df, keep): return f'the table was changed: {df} was {keep}'
        if isinstance(colors, str):
            cm = plt.get_cmap(colors, df.shape[1])
            colors = [cm(i) for i in range(df.shape[1])]
        return (check_bars if c['mode'] == 'bar' else check_lines)(ax, keep, colors)

    def reshape(self, c, ctx):
        rs = np.random.RandomState(c['seed'])
        a = rs.randint(0, 2 if c['kind'] == 'bool' else 100, c['n']).astype(c['kind'])
        if c['kind'].startswith('f'): a = a + np.asarray(rs.rand(c['n']), c['kind'])
        keep = a.copy()
        out = P.reshape_to_2d(a, c['steps'])
        ctx.nontrivial = c['n'] >= 2
        k = -(-c['n'] // c['steps'])
        if not np.array_equal(a, keep): return 'the data were changed'
        if out.shape != (c['steps'], k): return f'shape {out.shape}, expected {(c["steps"], k)}'
        for i in range(k):
            part = keep[i * c['steps']:(i + 1) * c['steps']].astype(float)
            if not np.array_equal(out[:len(part), i], part) or not np.isnan(out[len(part):, i]).all():
                return f'column {i}: {out[:, i]}, expected {part} and gaps'

    def heat(self, c, ctx):
        periods, step = FMT[c['fmt']]
        size = {'W': 7 * 1440, 'D': 1440, 'h': 60, '15min': 15, 'min': 1}[step]
        st_ = c['step']
        while st_ * c['n'] > 4000 * size: st_ = max(1, st_ // 8)      # at most some thousand cells
        rs = np.random.RandomState(c['seed'])
        off = np.arange(c['n']) * st_
        if c['gap']:
            off = off + np.cumsum(rs.rand(c['n']) < .2) * c['gap'] * min(st_, size)
        times = [datetime.datetime(2019, 1, 1) + datetime.timedelta(minutes=int(c['start'] + x)) for x in off]
        values = [float(x) for x in rs.randint(-50, 200, c['n']) / 4]
        order = rs.permutation(c['n']) if c['shuffle'] == 5 else np.arange(c['n'])
        df = pd.DataFrame({'v': [values[i] for i in order]}, index=pd.DatetimeIndex([times[i] for i in order]))
        if c['two']: df['w'] = 1.0
        keep = df.copy(deep=True)
        ctx.nontrivial = c['n'] >= 2
        ctx.tag(f'{periods}/{step}')
        out = P.heat_map_data_from_df(df, periods, step, c['fill'])
        if not untouched(df, keep): return f'the table was changed: {df} was {keep}'
        bad = check_heat(out, times, values, periods, step, c['fill'])
        return bad and f'{periods}/{step} {c["fill"]} from {times[0]} every {st_} min: {bad}'

    def map(self, c, ctx):
        rs = np.random.RandomState(c['seed'])
        a = rs.randint(-40, 90, (c['rows'], c['cols'])) / 4
        if c['nan'] == 3 and a.size > 1:
            a.ravel()[rs.randint(1, a.size)] = np.nan
        cols = [list(range(c['cols'])), [f'2020-{k + 1:02d}' for k in range(c['cols'])], [f'p{k}' for k in range(c['cols'])]][c['labels']]
        rows = [list(range(c['rows'])), [f'{k:02d}:00' for k in range(c['rows'])], [f's{k}' for k in range(c['rows'])]][c['labels']]
        df = pd.DataFrame(a, index=rows, columns=cols)
        keep = df.copy(deep=True)
        ctx.nontrivial = a.size >= 2
        if c['engine']:
            kw = {'save': True, 'path': pathlib.Path('m.html')} if c['save'] == 60 else {}
            fig = P.heat_map_plotly(df, **kw)
            bad = check_map_plotly(fig, keep)
        else:
            kw = {'path': 'm.png'} if c['save'] == 60 else {}
            fig, ax = P.heat_map_matplotlib(df, figsize=(4, 3), **kw)
            bad = check_map_mpl(ax, keep)
        if kw and not os.path.exists('m.html' if c['engine'] else 'm.png'): return 'not saved'
        if not untouched(df, keep): return f'the table was changed: {df} was {keep}'
        return bad

    def solved(self, spec):
        B = build.build(spec)
        calc = fx.FullCalculation('calc', B.fs)
        calc.do_modeling()
        if sut.do_solve(calc, save='results') != 'optimal': return None
        return RES.CalculationResults('calc', 'results')

    def results(self, c, ctx):
        r = self.solved(c['spec'])
        if r is None: return
        n = len(c['spec']['time']['dt'])
        stores = [x['label'] for x in c['spec']['comps'] if x['kind'] == 'storage']
        flows = [f'{x["label"]}__{f["label"]}' for x in c['spec']['comps'] for f in sum(R.flows_of(x), [])]
        labels = [x['label'] for x in c['spec']['comps']] + [b['label'] for b in c['spec']['buses']] + flows
        label = labels[c['pick'] % len(labels)]
        mode, engine, inv = c['mode'], c['engine'], c['invert']
        storage = c['storage'] and stores and mode != 'heatmap'
        if storage: label = stores[c['pick'] % len(stores)]
        fac = dict(input_factor=1 if inv else -1, output_factor=-1 if inv else 1)
        df = r.to_dataframe(label, 'flow_rate', **fac)
        keep = df.copy(deep=True)
        if df.empty: return
        ctx.nontrivial = df.size >= 2
        save, show = c['save'] == 5, c['show'] == 5 and engine == 'plotly'
        if engine == 'matplotlib' and mode == 'area': mode = 'line'
        name = 'f.html' if engine == 'plotly' or storage else 'f.png'
        path = [pathlib.Path(name), name, 'auto'][c['path']]
        before = set(os.listdir('results'))
        what = f'{label} {mode} {engine}'
        if storage:
            ctx.tag('plot_storage')
            fig = r.plot_storage(label, mode=mode, invert=inv, show=show, save=save, path=path)
            cs = [x for x in fig.data if x.name == 'Charge State']
            y = r.component_results[label].variables['charge_state']
            if len(cs) != 1 or not eq(cs[0].y, y) or not eq(pos(cs[0].x), pos(r.time_with_end)): return f'{what}: charge state {cs}, expected {y}'
            rest = P.go.Figure([x for x in fig.data if x.name != 'Charge State'], fig.layout)
            bad = check_plotly(rest, keep, mode)
        else:
            ctx.tag('plot_operation')
            periods, step = FMT[c['fmt']]
            kw = dict(heatmap_periods=periods, heatmap_steps_per_period=step)
            out = r.plot_operation(label, mode, engine=engine, invert=inv, show=show, save=save, path=path, **kw)
            if mode == 'heatmap':
                times = [pd.Timestamp(x).to_pydatetime() for x in keep.index]
                data = P.heat_map_data_from_df(keep, periods, step, 'ffill')
                bad = check_heat(data, times, list(keep.iloc[:, 0]), periods, step, 'ffill') or \
                    (check_map_plotly(out, data) if engine == 'plotly' else check_map_mpl(out[1], data))
            elif engine == 'plotly':
                bad = check_plotly(out, keep, mode)
            else:
                cm = plt.get_cmap('viridis', keep.shape[1])
                bad = (check_bars if mode == 'bar' else check_lines)(out[1], keep, [cm(i) for i in range(keep.shape[1])])
        new = [n for n in sorted(set(os.listdir('results')) - before)]
        if (save or show) and (len(new) != 1 if path == 'auto' else new or not os.path.exists(path)): return f'{what}: not saved as {path}: {new}'
        if not (save or show) and (new or os.path.exists(name)): return f'{what}: saved {new} unasked'
        if c['net'] == 3 and (net := r.visualize_network(path=False, show=False)) is not None and not bad:
            ctx.tag('network of results')
            bad = check_network(net, c['spec'])
        again = r.to_dataframe(label, 'flow_rate', **fac)
        if not again.equals(keep): return f'{what}: the results were changed: {again} was {keep}'
        return bad and f'{what}: {bad}'

    def network(self, c, ctx):
        B = build.build(c['spec'])
        kw = {'show': False, 'path': ['n.html', pathlib.Path('n.html'), False, False][c['save']], 'controls': bool(c['save'] % 2)}
        net = B.fs.visualize_network(**kw) if hasattr(B.fs, 'visualize_network') else B.fs.plot_network(**kw)
        ctx.nontrivial = True
        if c['save'] < 2 and not os.path.exists('n.html'): return 'not saved'
        if c['save'] < 2:
            return None
        return check_network(net, c['spec'])

    def matches_known(self, k, case, bad):
        return False
