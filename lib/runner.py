"""Property-based search driver.

A check is a list of `Sub` classes.  Every Sub owns a generator (Hypothesis strategy over plain
JSON values), an executor/oracle `run(case, rec)` that raises Violation, and the processes it needs.
The driver forks N worker processes; each runs every Sub with its own seed derived from VERIF_SEED.
A failing case is shrunk by Hypothesis, replayed on fresh processes and written to a replay file.
"""
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from lib import build
from lib.server import Violation, Inconclusive

VERIF = build.VERIF
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


class Sub:
    NAME = 'main'
    N_QUICK = 400        # cases per worker process
    N_THOROUGH = 6000
    SECS_QUICK = 60      # safety cap per worker process; hitting it only ends the search early
    SECS_THOROUGH = 900
    RECYCLE = 300        # restart the system under test after this many cases
    RULE = ''
    PROCS = None         # limit number of worker processes
    HARNESS = False      # needs the in-process harness

    def __init__(self, scratch, tier, index=0):
        self.scratch = scratch
        self.tier = tier
        self.index = index

    def setup(self):
        pass

    def teardown(self):
        pass

    def strategy(self):
        raise NotImplementedError

    def run(self, case, rec):
        raise NotImplementedError

    def after(self, case):
        """checked after every case (e.g. process still alive)"""


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.inconclusive = 0
        self._cur = False

    def begin(self):
        self._cur = False

    def nt(self, flag=True):
        """mark the current case as non-trivial"""
        if flag:
            self._cur = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def end(self, case, subname):
        self.evaluations += 1
        if self._cur:
            j = json.dumps(case, sort_keys=True)
            h = hashlib.blake2b((subname + j).encode(), digest_size=8).hexdigest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 and len(j) < 2500 or (len(self.nontrivial) in (40, 200) and len(j) < 2500):
                    self.samples.append({'sub': subname, 'case': case})


class _Stop(BaseException):
    pass


def load_check(cid):
    return importlib.import_module('checks.' + cid.lower())


def sub_by_name(mod, name):
    for s in mod.SUBS:
        if s.NAME == name:
            return s
    raise KeyError(name)


def derive_seed(seed, cid, sub, idx):
    h = hashlib.blake2b(('%s/%s/%s/%s' % (seed, cid, sub, idx)).encode(), digest_size=7).digest()
    return int.from_bytes(h, 'big')


# ---------------------------------------------------------------- worker side

def search_sub(cid, cls, scratch, tier, idx, seed, rec, stopfile):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity

    os.makedirs(scratch, exist_ok=True)
    sub = cls(scratch, tier, idx)
    n = cls.N_QUICK if tier == 'quick' else cls.N_THOROUGH
    secs = cls.SECS_QUICK if tier == 'quick' else cls.SECS_THOROUGH
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(1, int(n * scale))
    st = {'first': None, 'best': None, 'msg': None, 'timing': False, 'since': 0, 'deadline': time.monotonic() + secs,
          'fail_deadline': None, 'history': [], 'first_history': None, 'up': False}

    def bring_up():
        if not st['up']:
            sub.setup()
            st['up'] = True
            st['since'] = 0
            st['history'] = []

    def bring_down():
        if st['up']:
            st['up'] = False
            sub.teardown()

    def fail(case, v):
        if st['first'] is None:
            st['first'] = case
            st['first_history'] = list(st['history'])
            st['fail_deadline'] = time.monotonic() + (45 if tier == 'quick' else 180)
            st['first_msg'] = str(v)
        st['best'] = case
        st['msg'] = str(v)
        st['timing'] = v.timing
        bring_down()

    def execute(case):
        now = time.monotonic()
        if st['first'] is None:
            if now > st['deadline'] or (stopfile and os.path.exists(stopfile)):
                raise _Stop()
        elif now > st['fail_deadline']:
            raise _Stop()
        if st['since'] >= cls.RECYCLE:
            bring_down()
        rec.begin()
        case = json.loads(json.dumps(case))
        try:
            bring_up()
            st['since'] += 1
            st['history'].append(case)
            sub.run(case, rec)
            sub.after(case)
        except Violation as v:
            fail(case, v)
            raise
        except Inconclusive:
            rec.inconclusive += 1
            bring_down()
            return
        rec.end(case, cls.NAME)

    test = given(sub.strategy())(execute)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException:
        if st['best'] is None and st['first'] is None and st['msg'] is None:
            bring_down()
            raise
    bring_down()
    if st['msg'] is not None:
        return {'sub': cls.NAME, 'case': st['best'], 'first': st['first'], 'history': st['first_history'],
                'msg': st['msg'], 'first_msg': st['first_msg'], 'timing': st['timing']}
    return None


def worker_main(cid, tier, idx, seed, outfile, scratch, stopfile):
    signal.signal(signal.SIGTERM, lambda *a: os._exit(3))
    random.seed(0)
    mod = load_check(cid)
    rec = Recorder()
    res = {'failure': None, 'error': None, 'subs': {}}
    subs = list(mod.SUBS)
    only = os.environ.get('VERIF_SUBS')
    if only:
        subs = [s for s in subs if s.NAME in only.split(',')]
    k = idx % len(subs)
    try:
        for cls in subs[k:] + subs[:k]:
            if cls.PROCS is not None and idx >= cls.PROCS:
                continue
            if os.path.exists(stopfile):
                break
            b = rec.evaluations
            nb = len(rec.nontrivial)
            t0 = time.monotonic()
            d = os.path.join(scratch, cls.NAME[:8] + str(idx))
            f = search_sub(cid, cls, d, tier, idx, derive_seed(seed, cid, cls.NAME, idx), rec, stopfile)
            res['subs'][cls.NAME] = [rec.evaluations - b, len(rec.nontrivial) - nb, round(time.monotonic() - t0, 2)]
            shutil.rmtree(d, ignore_errors=True)
            if f:
                res['failure'] = f
                open(stopfile, 'w').close()
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    res.update(evaluations=rec.evaluations, nontrivial=sorted(rec.nontrivial), labels=rec.labels,
               samples=rec.samples, inconclusive=rec.inconclusive)
    with open(outfile, 'w') as f:
        json.dump(res, f)
    return 0


# ---------------------------------------------------------------- replay

def replay_once(cid, subname, cases, scratch, tier='quick'):
    """run cases in order on a fresh Sub; returns Violation or None"""
    mod = load_check(cid)
    cls = sub_by_name(mod, subname)
    d = tempfile.mkdtemp(prefix='r', dir=scratch)
    sub = cls(d, tier, 0)
    rec = Recorder()
    up = False
    try:
        up = True
        sub.setup()
        for c in cases:
            rec.begin()
            sub.run(c, rec)
            sub.after(c)
        return None
    except Violation as v:
        return v
    except Inconclusive:
        return None
    finally:
        if up:
            try:
                sub.teardown()
            except Violation:
                pass
            except Exception:
                traceback.print_exc()
        shutil.rmtree(d, ignore_errors=True)


def confirm(cid, f, scratch):
    """Returns (cases, message) to report or None"""
    tried = []
    if f['case'] is None and f['first'] is None:
        cands = [[]]
    else:
        cands = [[f['case']]]
        if f['first'] != f['case']:
            cands.append([f['first']])
        if f.get('history') and len(f['history']) > 1:
            cands.append(f['history'])
    for cases in cands:
        vs = [replay_once(cid, f['sub'], cases, scratch) for _ in range(3)]
        good = [v for v in vs if v is not None]
        hard = [v for v in good if not v.timing]
        tried.append('%d case(s): %d/3' % (len(cases), len(good)))
        if hard or len(good) == 3:
            if len(cases) > 2:
                cases = minimise_history(cid, f['sub'], cases, scratch)
            return cases, str((hard or good)[0]), tried
    return None, None, tried


def minimise_history(cid, sub, cases, scratch, budget=60):
    end = time.monotonic() + budget
    cur = list(cases)
    step = max(1, len(cur) // 2)
    while step >= 1 and time.monotonic() < end:
        i = 0
        progress = False
        while i < len(cur) - 1 and time.monotonic() < end:
            cand = cur[:i] + cur[min(i + step, len(cur) - 1):]
            v = replay_once(cid, sub, cand, scratch)
            if v is not None and not v.timing:
                cur = cand
                progress = True
            else:
                i += step
        if step == 1 and not progress:
            break
        step = max(1, step // 2) if step > 1 else (1 if progress else 0)
    return cur


# ---------------------------------------------------------------- parent side

def known_findings(cid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:') and ('property=%s ' % cid) in line:
                out.append(line[len('finding:'):].strip())
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--scratch')
    ap.add_argument('--stopfile')
    ap.add_argument('--no-build', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    cid = a.check.upper()
    if a.worker is not None:
        return worker_main(cid, tier, a.worker, seed, a.out, a.scratch, a.stopfile)

    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix='lv', dir='/tmp')
    os.chmod(scratch, 0o755)
    try:
        if not a.no_build:
            build.build(any(x.HARNESS for x in load_check(cid).SUBS))
        tb = time.monotonic() - t0
        if a.replay:
            d = json.load(open(a.replay))
            v = replay_once(d['property'], d['sub'], d['cases'], scratch)
            if v is None:
                print('replay: property held')
                return 0
            print(str(v))
            print('VIOLATION property=%s replay=%s' % (d['property'], a.replay))
            return 1
        return search(cid, tier, seed, scratch, t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(cid, tier, seed, scratch, t0, tb):
    mod = load_check(cid)
    stopfile = os.path.join(scratch, 'stop')
    procs = []
    for i in range(NPROC):
        out = os.path.join(scratch, 'out%d.json' % i)
        sd = os.path.join(scratch, str(i))
        os.makedirs(sd)
        env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'check.py'), cid, '--tier', tier, '--worker', str(i),
                              '--out', out, '--scratch', sd, '--stopfile', stopfile],
                             env=env, cwd=VERIF, start_new_session=True)
        procs.append((p, out))
    limit = sum((s.SECS_QUICK if tier == 'quick' else s.SECS_THOROUGH) + 300 for s in mod.SUBS)
    end = time.monotonic() + (min(limit, 700) if tier == 'quick' else limit)
    results = []
    stop_at = None
    pending = list(procs)
    killed = 0
    while pending:
        for p, out in list(pending):
            if p.poll() is not None:
                pending.remove((p, out))
        now = time.monotonic()
        if os.path.exists(stopfile) and stop_at is None:
            stop_at = now + (60 if tier == 'quick' else 200)
        if pending and (now > end or (stop_at and now > stop_at)):
            for p, out in pending:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                killed += 1
            subprocess.run(['pkill', '-KILL', '-f', scratch + '/'], stdout=subprocess.DEVNULL)
            pending = []
        time.sleep(0.05)
    for p, out in procs:
        if os.path.exists(out):
            try:
                results.append(json.load(open(out)))
            except ValueError:
                pass
    ev = sum(r['evaluations'] for r in results)
    nt = set()
    labels = {}
    subs = {}
    samples = []
    for r in results:
        nt.update(r['nontrivial'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['subs'].items():
            s = subs.setdefault(k, [0, 0, 0.0])
            s[0] += v[0]
            s[1] += v[1]
            s[2] = max(s[2], v[2])
        for s in r['samples']:
            if sum(1 for x in samples if x['sub'] == s['sub']) < 4:
                samples.append(s)
    errors = [r['error'] for r in results if r['error']]
    inconclusive = sum(r['inconclusive'] for r in results)
    failures = [r['failure'] for r in results if r['failure']]

    reported = None
    unconfirmed = []
    # shortest first
    failures.sort(key=lambda f: len(json.dumps(f['case'])))
    cend = time.monotonic() + (180 if tier == 'quick' else 900)
    for f in failures:
        if time.monotonic() > cend:
            break
        cases, msg, tried = confirm(cid, f, scratch)
        if cases is not None:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            blob = {'property': cid, 'sub': f['sub'], 'cases': cases, 'message': msg, 'seed': seed, 'tier': tier}
            h = hashlib.blake2b(json.dumps(cases).encode(), digest_size=5).hexdigest()
            path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (cid, f['sub'], h))
            with open(path, 'w') as fh:
                json.dump(blob, fh, indent=1)
            reported = (path, msg, cases)
            break
        unconfirmed.append({'sub': f['sub'], 'msg': f['msg'][:400], 'tried': tried})

    wall = round(time.monotonic() - t0, 2)
    rule = getattr(mod, 'RULE', '') or '; '.join('%s: %s' % (s.NAME, s.RULE) for s in mod.SUBS)
    evidence = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': len(nt), 'rule': rule, 'samples': samples[:12],
            'per_sub': {k: {'evaluations': v[0], 'nontrivial': v[1], 'max_seconds': v[2]} for k, v in subs.items()},
            'labels': labels, 'inconclusive_cases': inconclusive, 'worker_processes': len(results),
            'workers_cut_off': killed, 'build_seconds': round(tb, 2), 'unconfirmed': unconfirmed,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': wall, 'violations': 1 if reported else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d inconclusive=%d build=%.1fs wall=%.1fs' % (
        cid, tier, seed, ev, len(nt), inconclusive, tb, wall))
    for k, v in sorted(subs.items()):
        print('  %-12s cases=%d nontrivial=%d max_s=%.1f' % (k, v[0], v[1], v[2]))
    if labels:
        print('  labels: ' + ', '.join('%s=%d' % kv for kv in sorted(labels.items())))
    for k in known_findings(cid):
        print('KNOWN-FINDING: ' + k)
    if reported:
        print(reported[1][:3000])
        print('minimal case: %s' % json.dumps(reported[2])[:3000])
        print('VIOLATION property=%s replay=%s' % (cid, reported[0]))
        return 1
    for u in unconfirmed:
        print('not reproduced on replay (not reported): %s' % json.dumps(u))
    if errors:
        print('check error:\n' + errors[0])
        return 2
    if ev == 0 or not nt:
        print('check error: nothing was explored')
        return 2
    if inconclusive > max(20, ev // 5):
        print('check error: too many inconclusive cases')
        return 2
    return 0
