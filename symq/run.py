"""Run one property's check: explore, replay, validate, report.

usage: run.py ID [--tier quick|thorough] [--jobs N]
       run.py --replay FILE          (replay one reported counterexample)
"""
import argparse
import collections
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import queue
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

warnings.filterwarnings('ignore', category=SyntaxWarning)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, 'harness')]
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.setrecursionlimit(20000)

PATH_SECONDS = 25


def load_check(cid):
    import checks
    return checks.CHECKS[cid]


def get_harness(name):
    import importlib
    mod, fn = name.split(':')
    return getattr(importlib.import_module(mod), fn)


# ---------------------------------------------------------------- workers

def alarm(sig, frame):
    import engine
    signal.setitimer(signal.ITIMER_REAL, 2.0)      # again, should it be swallowed
    raise engine.PathTimeout()


def worker(jobs, tags, inq, outq, opts):
    import engine
    signal.signal(signal.SIGALRM, alarm)
    seen = set()
    install_monitor(seen)
    sent = set()
    while True:
        task = inq.get()
        if task is None:
            return
        ji, prefix, slice_s = task
        job = jobs[ji]
        ctx = engine.SymContext(get_harness(job['harness']), job.get('params', {}), tags,
                                prefix=prefix, sample_mod=opts['sample_mod'],
                                deadline=time.time() + slice_s, want_smt=opts['want_smt'])
        orig = ctx.run_path

        def run_path():
            signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
            try:
                orig()
            except engine.PathTimeout:
                ctx.stats.errors += 1
                ctx.note_limit('path timeout outside the harness')
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.run_path = run_path
        try:
            rem = ctx.explore()
            err = None
        except BaseException as e:
            import traceback
            rem, err = [], traceback.format_exc()
        new = seen - sent
        sent |= new
        out = (ji, ctx.stats, [v.as_dict() | {'alts': v.alts} for v in ctx.violations],
               ctx.samples, rem, err, sorted(new), ctx.smt)
        try:
            out = pickle.dumps(out)
        except BaseException as e:
            out = pickle.dumps((ji, engine.Stats(), [], [], [], 'result not sent: %r' % (e,), [], []))
        outq.put(out)


def install_monitor(seen):
    import loader
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'symq')
    except ValueError:
        return
    root = os.path.realpath(loader.PKG) + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith('<decy:'):
            seen.add(f[6:-1] + ':' + code.co_qualname)
        elif f.startswith(loader.PKG) or f.startswith(root):
            seen.add(os.path.relpath(f, loader.REPO)[:-3].replace(os.sep, '.') + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def explore(jobs, tags, nproc, budget, opts):
    import engine
    t0 = time.time()
    stats = [engine.Stats() for _ in jobs]
    violations, samples, errors, funcs, smt = [], [], [], set(), []
    pending = collections.deque((i, [], 0.3) for i in range(len(jobs)))
    inq, outq = mp.SimpleQueue(), mp.Queue()
    procs = [mp.Process(target=worker, args=(jobs, tags, inq, outq, opts), daemon=True)
             for _ in range(nproc)]
    for p in procs:
        p.start()
    busy = 0
    stop_at = t0 + budget
    first_v = None
    timed_out = False
    while pending or busy:
        while pending and busy < nproc:
            ji, pre, _ = pending.pop()
            sl = 0.25 if len(pending) < 2 * nproc else 2.0
            inq.put((ji, pre, sl))
            busy += 1
        try:
            r = pickle.loads(outq.get(timeout=1.0))
        except queue.Empty:
            if any(not p.is_alive() for p in procs):
                errors.append('a worker process died')
                break
            if time.time() > stop_at + 40:
                timed_out = True
                break
            continue
        busy -= 1
        ji, st, vs, sa, rem, err, fn, sm = r
        stats[ji].merge(st)
        funcs.update(fn)
        smt.extend(sm)
        for v in vs:
            v['job'] = ji
            violations.append(v)
        for s in sa:
            s['job'] = ji
            samples.append(s)
        if err:
            errors.append(err)
        if first_v is None and any(not any(re.search(k, v['label']) for k in opts['known']) for v in vs):
            first_v = time.time()
            stop_at = min(stop_at, first_v + opts['grace'])
        if time.time() > stop_at:
            if rem or pending:
                timed_out = True
            pending.clear()
            continue
        # shallow prefixes first: they hold the most work
        for p in sorted(rem, key=len, reverse=True):
            pending.append((ji, p, 0))
    for p in procs:
        inq.put(None)
    for p in procs:
        p.join(1)
        if p.is_alive():
            p.kill()
    return stats, violations, samples, errors, funcs, timed_out and first_v is None, smt


# ---------------------------------------------------------------- concrete side

class Build(object):
    """The real extension modules, compiled in the background from /repo."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='symq-ext-')
        self.proc = {}

    def start(self, checked=False):
        d = os.path.join(self.dir, 'c' if checked else 'p')
        os.makedirs(d)
        code = ("import sys; sys.path[:0]=[%r]; sys.path.append(%r); import loader; "
                "loader.build_ext(%r, %r)" % (HERE, VT, d, checked))
        self.proc[checked] = subprocess.Popen([sys.executable, '-c', code],
                                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def wait(self, checked=False):
        if checked not in self.proc:
            self.start(checked)
        p = self.proc[checked]
        err = p.communicate()[1] if p.returncode is None else b''
        if p.returncode:
            raise RuntimeError('extension build failed: %s' % err.decode()[-2000:])
        return os.path.join(self.dir, 'c' if checked else 'p', 'lib')

    def close(self):
        for p in self.proc.values():
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def run_concrete(items, ext, timeout):
    """Replay items in one fresh process; -> list of results (or None on crash)."""
    fd, path = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump(items, f)
    out = path + '.out'
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), '--concrete', path, out, ext],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode()[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = 'timeout', ''
    res = []
    if os.path.exists(out):
        with open(out) as f:
            res = [json.loads(l) for l in f]
        os.unlink(out)
    os.unlink(path)
    return res, rc, err


def concrete_main(path, out, ext):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with open(path) as f:
        items = json.load(f)
    import loader
    loader.concrete(ext)
    import engine
    signal.signal(signal.SIGALRM, alarm)
    with open(out, 'w') as f:
        for it in items:
            h = get_harness(it['harness'])
            ctx = engine.ConcreteContext(h, it['params'], it['tags'], it['values'], it['choices'])
            signal.setitimer(signal.ITIMER_REAL, 10.0)
            fails = ctx.run()
            signal.setitimer(signal.ITIMER_REAL, 0)
            f.write(json.dumps({'failures': fails, 'obs': ctx.obs, 'missing': ctx.missing}, default=str) + '\n')
            f.flush()


def replay(cid, job, tags, v, build):
    """-> (reproduced, description)"""
    base = {'harness': job['harness'], 'params': job.get('params', {}), 'tags': sorted(tags),
            'choices': v['choices']}
    mem = 'MemoryFault' in v['label']
    for vals in [v['values']] + v.get('alts', []):
        it = dict(base, values=vals)
        for checked in ((True, False) if mem else (False,)):
            res, rc, err = run_concrete([it], build.wait(checked), 40)
            if rc not in (0,) and not res:
                if rc == 'timeout' or (isinstance(rc, int) and rc < 0):
                    return True, 'the real build %s' % ('hangs' if rc == 'timeout' else 'dies with signal %d' % -rc)
                return False, 'replay process failed: ' + err
            if res and res[0]['failures']:
                lab, inf = res[0]['failures'][0]
                return True, '%s %s' % (lab, json.dumps(inf, default=str)[:600])
    return False, 'not reproduced on the real build'


def close(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        if a == b:
            return True
        return max(abs(a), abs(b)) < float("inf") and abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


# ---------------------------------------------------------------- main

def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith('{'):
                    out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='only the job whose name matches')
    ap.add_argument('--no-validate', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return replay_main(a.replay)
    cid = a.id
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    build = Build()
    try:
        return check_main(cid, a, seed, t0, build)
    finally:
        build.close()


def check_main(cid, a, seed, t0, build):
    build.start()
    import engine
    import loader
    loader.symbolic()
    spec = load_check(cid)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    jobs = [dict(j) for j in spec['jobs'](tier)]
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, j.get('name', j['harness']))]
    tags = set(spec.get('tags', [cid]))
    for j in jobs:
        get_harness(j['harness'])
    budget = spec.get('budget', 700 if tier == 'quick' else 2400)
    opts = {'sample_mod': spec.get('sample_mod', 60), 'want_smt': 2 if tier == 'thorough' else 0,
            'known': [k['match'] for k in load_known() if k.get('property') == cid and not k.get('fixed')],
            'grace': 6 if tier == 'quick' else 60}
    stats, violations, samples, errors, funcs, timed_out, smt = explore(jobs, tags, a.jobs, budget, opts)
    explore_s = time.time() - t0
    total = engine.Stats()
    for s in stats:
        total.merge(s)

    # ---- violations: replay on the real build, match against known findings
    known = [k for k in load_known() if k.get('property') == cid and not k.get('fixed')]
    reported, known_seen, unreproduced = [], collections.OrderedDict(), []
    by_label = collections.OrderedDict()
    for v in violations:
        by_label.setdefault((v['job'], v['label']), []).append(v)
    rdir = os.path.join(VERIF, 'replays')
    for (ji, label), vs in by_label.items():
        done = False
        for v in sorted(vs, key=lambda v: len(v['values']) + len(v['choices']))[:4]:
            ok, desc = replay(cid, jobs[ji], tags, v, build)
            if not ok:
                if v['kind'] != 'suspect':
                    unreproduced.append((label, desc, v))
                continue
            os.makedirs(rdir, exist_ok=True)
            rec = {'property': cid, 'job': jobs[ji], 'tags': sorted(tags), 'violation': v, 'observed': desc}
            h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rdir, '%s-%s.json' % (cid, h))
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1, default=str)
            reported.append((label, desc, path, v))
            done = True
            break
        if done and sum(not any(re.search(k['match'], r[0]) for k in known) for r in reported) >= 3:
            break

    new = []

    def classify(label, desc, path):
        k = next((k for k in known if re.search(k['match'], label)), None)
        if k:
            known_seen[k['id']] = k
        else:
            new.append((label, desc, path))
    for label, desc, path, v in reported:
        classify(label, desc, path)

    # ---- validate sampled paths of the encoding on the real build
    validated, mismatches, sample_fail = 0, [], []
    samples.sort(key=lambda s: hashlib.sha1((str(seed) + json.dumps(s, sort_keys=True, default=str)).encode()).hexdigest())
    per = collections.Counter()
    chosen = []
    cap = 60 if tier == 'quick' else 400
    for s in samples:
        if len(chosen) >= cap:
            break
        if per[s['job']] >= max(4, cap // max(1, len(jobs))):
            continue
        per[s['job']] += 1
        chosen.append(s)
    if chosen and not a.no_validate and not new:
        items = [{'harness': jobs[s['job']]['harness'], 'params': jobs[s['job']].get('params', {}),
                  'tags': sorted(tags), 'values': s['values'], 'choices': s['choices']} for s in chosen]
        res, rc, err = run_concrete(items, build.wait(), 60 + 12 * len(items))
        for s, r in zip(chosen, res):
            ob = [[l, v] for l, v in s['obs']]
            if r['failures']:
                sample_fail.append((s, r))
            elif not close(ob, r['obs']):
                mismatches.append((s, r))
            else:
                validated += 1
        if len(res) < len(items):
            if isinstance(rc, int) and rc < 0:
                s = chosen[len(res)]
                sample_fail.append((s, {'failures': [['crash', {'signal': -rc}]]}))
            else:
                errors.append('validation run failed (%s): %s' % (rc, err))
    for s, r in sample_fail[:1]:
        v = {'label': r['failures'][0][0], 'values': s['values'], 'choices': s['choices'],
             'info': {}, 'kind': 'sample', 'job': s['job']}
        os.makedirs(rdir, exist_ok=True)
        rec = {'property': cid, 'job': jobs[s['job']], 'tags': sorted(tags), 'violation': v,
               'observed': r['failures'][0]}
        h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (cid, h))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        classify(v['label'], 'real build differs from the encoding: %s' % (r['failures'][0],), path)

    # ---- second solver on a sample of the queries (thorough)
    cross = cross_check(smt) if smt else None

    # ---- verdict
    missing = []
    if not new and not timed_out and not a.only:
        for c in spec.get('covers', []):
            if not total.covers.get(c):
                missing.append(c)
    incomplete, partial = [], []
    if timed_out:
        partial.append('budget exhausted before the bound was')
    if total.limits:
        (partial if total.limits < total.paths else incomplete).append('%d paths outside the encodable fragment: %s' % (total.limits, total.limit_notes))
    if total.unknown:
        partial.append('%d solver unknowns' % total.unknown)
    if not new and any(not s.paths for s in stats):
        incomplete.append('no path of %s was finished' % [j.get('name') for j, s in zip(jobs, stats) if not s.paths])
    if errors:
        incomplete.append('errors: %s' % errors[:2])
    if mismatches:
        s, r = mismatches[0]
        diff = [(x, y) for x, y in zip(s['obs'], r['obs']) if not close(list(x), y)][:3]
        incomplete.append('%d sampled paths differ from the real build: %s %s %s' % (
            len(mismatches), diff, s['values'], s['choices']))
    if missing:
        incomplete.append('vacuous: never reached %s' % missing)
    if cross and cross['disagree']:
        incomplete.append('solvers disagree on %d queries' % cross['disagree'])
    if unreproduced and not new:
        incomplete.append('counterexample not reproduced: %s' % [(l, d, v['info'], v['values'], v['choices'])
                                                                  for l, d, v in unreproduced[:2]])


    wall = time.time() - t0
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.branches + total.paths + total.infeasible,
            'transitions': total.branches + total.forks,
            'traces_validated_against_impl': validated,
            'samples': [{'job': jobs[s['job']].get('name', jobs[s['job']]['harness']),
                         'inputs': s['values'], 'choices': s['choices'],
                         'observed': s['obs'][:20]} for s in chosen[:3]] or [
                {'job': j.get('name', j['harness']), 'params': j.get('params', {})} for j in jobs[:2]],
            'exhaustive': not incomplete and not partial and not new,
            'technique': 'symbolic execution of the real code on z3 terms, all paths within the bounds; '
                         'one SMT query per fork and per assertion group',
            'paths': total.paths, 'forks': total.forks, 'infeasible_paths': total.infeasible,
            'bounded_paths': total.bounded,
            'solver_queries': total.queries, 'assertion_queries': total.assert_queries,
            'assertions': total.asserts, 'assertions_by_label': total.asserts_by_label,
            'solver_s': round(total.solver_s, 2), 'explore_wall_s': round(explore_s, 2),
            'reachability_witnesses': total.covers,
            'functions_encoded': sorted(funcs),
            'pyx_functions_translated': loader.encoded_functions,
            'bounds': {j.get('name', j['harness']): {'params': j.get('params', {}), 'bounds': j.get('bounds', ''),
                                                     'paths': s.paths} for j, s in zip(jobs, stats)},
            'cross_check': cross,
            'known_findings': list(known_seen),
            'inconclusive': incomplete, 'not_explored': partial,
        },
        'assumptions': spec.get('assumptions', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths, %d forks, %d queries (%d assertion), %d assertions, solver %.1fs, wall %.1fs, '
          'validated %d' % (cid, tier, total.paths, total.forks, total.queries, total.assert_queries,
                            total.asserts, total.solver_s, wall, validated))
    if a.v:
        for j, s in zip(jobs, stats):
            print('   ', j.get('name', j['harness']), 'paths', s.paths, 'infeas', s.infeasible, 'forks', s.forks,
                  'q', s.queries, 'solver %.1f' % s.solver_s)
        print('   covers', total.covers)
    for k in known_seen.values():
        print('KNOWN-FINDING: property=%s %s' % (cid, k['what']))
    if new:
        for label, desc, path in new:
            print('  %s: %s' % (label, desc))
        print('VIOLATION property=%s replay=%s' % (cid, new[0][2]))
        return 1
    if incomplete:
        print('INCONCLUSIVE: ' + '; '.join(incomplete))
        return 2
    if partial:
        print('NOT EXHAUSTIVE (the property held on everything explored): ' + '; '.join(partial))
    return 0


COMMON_ASSUMPTIONS = [
    'event times, probabilities and other floating-point quantities are exact reals in the encoding '
    '(sampled paths and every counterexample are re-run on IEEE doubles with the real build)',
    'numpy.random functions are stubs returning any value of their documented range',
    'outside the stated bounds (number of events, agents, queues, choices) nothing is claimed',
]


def cross_check(smt):
    """Re-decide sampled assertion queries with cvc5."""
    n = agree = dis = unk = 0
    t = time.time()
    exe = shutil.which('cvc5')
    if not exe:
        return None
    for text, verdict in smt[:60]:
        fd, p = tempfile.mkstemp(suffix='.smt2')
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + text)
        try:
            r = subprocess.run([exe, '--tlimit=20000', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=40)
            o = r.stdout.decode().strip().splitlines()
            o = o[0] if o else 'none'
        except subprocess.TimeoutExpired:
            o = 'timeout'
        os.unlink(p)
        n += 1
        if o == verdict:
            agree += 1
        elif o in ('sat', 'unsat'):
            dis += 1
        else:
            unk += 1
    return {'solver': 'cvc5', 'queries': n, 'agree': agree, 'disagree': dis, 'unknown': unk,
            'wall_s': round(time.time() - t, 1)}


def selftest():
    """Everything the checks need is here and the encoder accepts /repo."""
    import engine
    import loader
    import toy
    loader.symbolic()
    import checks
    for c in checks.CHECKS.values():
        for j in c['jobs']('quick'):
            get_harness(j['harness'])
    toy.run()
    build = Build()
    try:
        build.start()
        build.wait()
    finally:
        build.close()
    print('selftest ok: %d checks' % len(checks.CHECKS))
    return 0


def replay_main(path):
    with open(path) as f:
        rec = json.load(f)
    build = Build()
    try:
        ok, desc = replay(rec['property'], rec['job'], set(rec['tags']), rec['violation'], build)
    finally:
        build.close()
    print(('REPRODUCED ' if ok else 'NOT-REPRODUCED ') + desc)
    return 1 if ok else 0


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--concrete':
        sys.exit(concrete_main(*sys.argv[2:5]))
    sys.exit(main())
