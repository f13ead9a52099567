"""Runs one property check: generates cases with Hypothesis in parallel worker processes, shrinks a failure, writes the
replay file and the evidence.  Exit codes: 0 held, 1 VIOLATION, 2 the check itself failed."""
import collections, hashlib, importlib, json, os, shutil, signal, sys, tempfile, time, traceback

from . import env
env.setup_path()

NWORK = int(os.environ.get('VP_WORKERS', '8'))
MASTER_CAP = {'quick': 240.0, 'thorough': 10800.0}       # wall cap; a run normally ends by its case count
SHRINK_S = {'quick': 25, 'thorough': 180}


class Violation(AssertionError):
    pass


class Skip(Exception):
    """the case decides nothing (solver trouble): counted, not judged"""


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def load(pid):
    m = importlib.import_module(f'vlib.checks.{pid.lower()}')
    return m.Check()


def known(pid):
    p = os.path.join(env.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


class Ctx:
    """per worker state handed to Check.run"""
    def __init__(self, tier, worker):
        self.tier, self.worker = tier, worker
        self.tags = collections.Counter()
        self.nontrivial = False

    def tag(self, *names):
        for n in names:
            self.tags[n] += 1


def judge(chk, case, ctx):
    """list of (what, message); exceptions of the code under test on a case of the domain are violations"""
    ctx.nontrivial = False
    try:
        import numpy
        numpy.random.seed(0)            # libraries that draw (k-means) do the same in every run of the case
        return list(chk.run(case, ctx) or [])
    except Skip:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except OSError as e:
        if e.errno in (28, 12, 24):     # no space, no memory, too many files: not the code under test
            raise
        return [('exception', ''.join(traceback.format_exception_only(e)).strip() + ' | ' + where(e))]
    except Exception as e:
        return [('exception', ''.join(traceback.format_exception_only(e)).strip()[:600] + ' | ' + where(e))]


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-3:][::-1])


def worker(chk, w, nw, tier, seed, total, deadline, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_S[tier]
    eng.ConjectureRunner.generate_mutations_from = lambda self, data: None     # they mostly repeat cases
    ctx = Ctx(tier, w)
    st = {'evaluations': 0, 'skipped': 0, 'not_run': 0, 'seen': {}, 'samples': [], 'fail': None, 'known': {}}
    kn = known(chk.id)
    n = total // nw + (1 if w < total % nw else 0)
    last = {}
    done = set()

    def one(case):
        if 'first' not in last:         # while searching every case is judged once only
            dg = digest(case)
            if dg in done or len(done) >= n:
                return
            done.add(dg)
        if time.time() > deadline and 'first' not in last:
            st['not_run'] += 1
            return
        try:
            bad = judge(chk, case, ctx)
        except Skip as e:
            st['evaluations'] += 1
            st['skipped'] += 1
            return
        st['evaluations'] += 1
        if ctx.nontrivial and 'first' not in last:
            st['seen'][digest(case)] = 1
            if len(st['samples']) < 2 and len(canon(case)) < 3000:
                st['samples'].append(case)
        if bad:
            for k in kn:
                if chk.matches_known(k, case, bad):
                    st['known'][k['id']] = k['what']
                    return
            last['case'], last['bad'] = case, bad
            last.setdefault('first', case)
            raise Violation(bad[0][0] + ': ' + bad[0][1][:500])

    if n:
        body = given(chk.strategy(tier))(one)
        body = settings(max_examples=int(n * 1.5) + 5, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.target, Phase.shrink))(body)
        body = hypothesis.seed(seed * 1009 + w)(body)
        try:
            body()
        except BaseException as e:
            if 'case' not in last:
                st['error'] = ''.join(traceback.format_exception(e))[-4000:]
            else:
                # confirm: the shrunk case and then the first one must fail again on their own
                for c in (last['case'], last['first']):
                    try:
                        bad = judge(chk, c, ctx)
                    except Skip:
                        bad = []
                    if bad:
                        st['fail'] = {'case': c, 'bad': [list(map(str, b)) for b in bad[:10]]}
                        break
                else:
                    st['flaky'] = {'case': last['first'], 'bad': [list(map(str, b)) for b in last['bad'][:5]]}
    st['tags'] = dict(ctx.tags)
    st['seen'] = list(st['seen'])
    with open(out + '.tmp', 'w') as f:
        json.dump(st, f)
    os.replace(out + '.tmp', out)


def hush():
    """solver logs go nowhere; returns the real standard output"""
    sys.stdout.flush()
    keep = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.close(nul)
    return keep


def scratch():
    d = tempfile.mkdtemp(prefix='vp_', dir=os.environ.get('TMPDIR') or '/tmp')
    return d


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    os.environ['PYTHONHASHSEED'] = '0'
    t0 = time.time()
    sc = scratch()
    os.chdir(sc)
    os.environ['HOME'] = os.environ.get('HOME') or '/root'
    kids = []
    rc = 2
    try:
        rc = _main(a, sc, t0, kids)
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        for p in kids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        os.chdir('/')
        shutil.rmtree(sc, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def _main(a, sc, t0, kids):
    chk = load(a.property)
    if a.replay:
        case = json.load(open(os.path.join(env.VERIF, a.replay) if not os.path.isabs(a.replay) else a.replay))
        case = case.get('case', case)
        ctx = Ctx(a.tier, 0)
        real = hush()
        bad = judge(chk, case, ctx)
        sys.stdout.flush()
        os.dup2(real, 1)
        for b in bad:
            print('  ', b[0], ':', b[1])
        print(('VIOLATION property=%s replay=%s' % (chk.id, a.replay)) if bad else 'replay holds')
        return 1 if bad else 0
    total = a.cases or getattr(chk, a.tier)
    deadline = t0 + min(MASTER_CAP[a.tier], getattr(chk, 'cap_' + a.tier, 1e9))
    nw = min(NWORK, max(1, total))
    if hasattr(chk, 'prepare'):
        chk.prepare(a.tier)
    outs = []
    for w in range(nw):
        out = os.path.join(sc, f'w{w}.json')
        outs.append(out)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                d = os.path.join(sc, f'd{w}')
                os.mkdir(d)
                os.chdir(d)
                hush()
                worker(chk, w, nw, a.tier, a.seed, total, deadline, out)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(code)
        kids.append(pid)
    pend = dict(zip(kids, range(nw)))
    died = []
    hard = deadline + SHRINK_S[a.tier] + 60
    failed_at = None
    while pend:
        p, status = os.waitpid(-1, os.WNOHANG)
        if p in pend:
            w = pend.pop(p)
            if os.waitstatus_to_exitcode(status) != 0 or not os.path.exists(outs[w]):
                died.append((w, status))
            elif failed_at is None and '"fail": {' in open(outs[w]).read():
                failed_at = time.time()
            continue
        if time.time() > hard or (failed_at and time.time() > failed_at + 6):
            for q in pend:
                try:
                    os.killpg(q, signal.SIGKILL)
                except OSError:
                    pass
            if not failed_at:
                died.append(('timeout', len(pend)))
            break
        time.sleep(0.05)
    res = [json.load(open(o)) for o in outs if os.path.exists(o)]
    tags = collections.Counter()
    seen, samples, kf = set(), [], {}
    for r in res:
        tags.update(r['tags'])
        seen.update(r['seen'])
        samples += r['samples'][:1]
        kf.update(r['known'])
    fails = sorted((r['fail'] for r in res if r['fail']), key=lambda f: len(canon(f['case'])))
    ev = {'property': chk.id, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(r['evaluations'] for r in res), 'distinct_nontrivial': len(seen),
                       'rule': chk.rule, 'samples': samples[:4],
                       'skipped_undecided': sum(r['skipped'] for r in res),
                       'not_run_out_of_time': sum(r['not_run'] for r in res),
                       'unreproducible': [r['flaky'] for r in res if r.get('flaky')],
                       'features': dict(sorted(tags.items()))},
          'assumptions': list(getattr(chk, 'assumptions', [])), 'wall_s': round(time.time() - t0, 2),
          'violations': len(fails)}
    if not ev['coverage']['samples']:
        ev['coverage']['samples'] = [f['case'] for f in fails[:1]]
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', chk.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known(chk.id):
        if k.get('always') or k['id'] in kf:
            print(f'KNOWN-FINDING: property={chk.id} {k["what"]}')
    print(f'{chk.id} {a.tier} seed={a.seed}: {ev["coverage"]["evaluations"]} cases, {len(seen)} distinct non-trivial, '
          f'{ev["coverage"]["skipped_undecided"]} undecided, {ev["coverage"]["not_run_out_of_time"]} not run, '
          f'{ev["wall_s"]} s')
    for r in res:
        if r.get('flaky'):
            print('unreproducible, not reported:', r['flaky']['bad'][:1])
    if fails:
        f = fails[0]
        d = os.path.join(env.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join('replays', f'{chk.id}_{digest(f["case"])}.json')
        with open(os.path.join(env.VERIF, path), 'w') as h:
            json.dump({'property': chk.id, 'bad': f['bad'], 'case': f['case']}, h, indent=1)
        for b in f['bad'][:6]:
            print('  ', b[0], ':', b[1][:800])
        print(f'VIOLATION property={chk.id} replay={path}')
        return 1
    errs = [r['error'] for r in res if r.get('error')]
    if errs or died:
        print('check error:', died, (errs or [''])[0])
        return 2
    if ev['coverage']['evaluations'] == 0 or len(seen) == 0:
        print('check error: nothing was explored')
        return 2
    return 0
