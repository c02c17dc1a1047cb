"""Runs the generated-input checks: shards, Hypothesis, shrinking, evidence, replay.

    python3-vt -m pbt.core C01                 run the check of C01
    python3-vt -m pbt.core C01 --replay FILE   re-run one saved case, without Hypothesis

A check is a module checks/<id>.py with

    ID, TITLE, LEVEL, RULE      strings (RULE: what makes a case non-trivial)
    PARTS = [Part(...), ...]    each a strategy and a function deciding one case

Exit status: 0 held, 1 with a VIOLATION line, 2 the harness itself failed.
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from pbt import worker as W  # noqa: E402

SHARDS = int(os.environ.get('PBT_SHARDS', '8'))
SHRINK_S = {'quick': 40, 'thorough': 180}
BUDGET_S = {'quick': 240, 'thorough': 3000}


class Fail(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class Part:
    """One generated check.

    cases(tier) -> Hypothesis strategy of JSON-able cases
    run(case, env) -> raises Fail when the property is broken; calls env.label()
                      and env.nontrivial() to classify the case
    n: {'quick': examples in all, 'thorough': examples in all}
    retries: how often a failing case is re-run to confirm it
    """

    def __init__(self, name, cases, run, quick, thorough, *, setup=None, retries=3, shards=None,
                 known=None):
        self.name, self.cases, self.run = name, cases, run
        self.n = {'quick': quick, 'thorough': thorough}
        self.setup, self.retries, self.shards = setup, retries, shards


class Env:
    """What a case run may use: a worker, a scratch directory, classification."""

    def __init__(self, tier, base):
        self.tier = tier
        self.base = base
        self.worker = W.Worker()
        self.others = {}
        self.n = 0
        self.reset()

    def reset(self):
        self.labels = []
        self._nontrivial = False

    def scratch(self):
        self.n += 1
        d = os.path.join(self.base, 'c%d' % self.n)
        os.makedirs(d)
        return d

    def clean(self, d):
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(d):
            subprocess.run(['chmod', '-R', 'u+rwx', d], check=False)
            shutil.rmtree(d, ignore_errors=True)

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))

    def nontrivial(self, yes=True):
        if yes:
            self._nontrivial = True

    def preloaded(self):
        """A worker in which calls that change files are counted (pbt/c/shim.c)."""
        if 'shim' not in self.others:
            lib = os.path.join(self.base, 'shim.so')
            subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', lib,
                            os.path.join(VERIF, 'pbt', 'c', 'shim.c'), '-ldl'], check=True)
            self.others['shim'] = W.Worker(env={'LD_PRELOAD': lib})
        return self.others['shim']

    def stop(self):
        for w in [self.worker, *self.others.values()]:
            w.stop()

    def call(self, mod, fn, **kw):
        return self.worker.call(mod, fn, **kw)


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class _Stop(BaseException):
    pass


def run_case(part, case, env, hang_ok=False):
    """None if the case is fine, else (message, detail)."""
    env.reset()
    try:
        part.run(case, env)
        return None
    except Fail as e:
        return str(e), e.detail
    except W.Hang as e:
        return 'no answer: ' + str(e), {'hang': True, 'out': e.out[-2000:]}
    except (W.JobError, W.Died) as e:
        return 'unexpected: ' + str(e)[-3000:], {}


def run_part(part, tier, seed, shard, nshards, env, res, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    total = part.n[tier]
    if part.shards is not None:
        nshards = min(nshards, part.shards)
        if shard >= nshards:
            return
    n = total // nshards + (1 if shard < total % nshards else 0)
    if n <= 0:
        return
    st = res['parts'].setdefault(part.name, {
        'evaluations': 0, 'nontrivial': 0, 'labels': {}, 'skipped_for_time': 0})
    distinct = set()
    state = {'best': None, 'first': None, 't_fail': None}

    def body(case):
        now = time.monotonic()
        if now > deadline and state['first'] is None:
            st['skipped_for_time'] += 1
            return
        if state['t_fail'] is not None and now - state['t_fail'] > SHRINK_S[tier]:
            raise _Stop()
        bad = run_case(part, case, env)
        if state['first'] is None:
            st['evaluations'] += 1
            for l in set(env.labels):
                st['labels'][l] = st['labels'].get(l, 0) + 1
            if env._nontrivial:
                h = hashlib.md5(canon(case).encode()).hexdigest()
                if h not in distinct:
                    distinct.add(h)
                    st['nontrivial'] += 1
                    if len(res['samples'].setdefault(part.name, [])) < 2:
                        text = canon(case)
                        res['samples'][part.name].append(
                            case if len(text) < 3000 else text[:3000] + '...')
        if bad is not None:
            rec = {'case': case, 'message': bad[0], 'detail': bad[1]}
            if state['first'] is None:
                state['first'] = rec
                state['t_fail'] = time.monotonic()
            if state['best'] is None or len(canon(case)) <= len(canon(state['best']['case'])):
                state['best'] = rec
            raise AssertionError(bad[0])

    s = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                 phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                 print_blob=False,
                 suppress_health_check=[HealthCheck.too_slow, HealthCheck.large_base_example,
                                        HealthCheck.data_too_large])
    part_salt = int(hashlib.md5(part.name.encode()).hexdigest()[:6], 16)
    test = hypothesis.seed(seed * 1000003 + shard * 7919 + part_salt)(
        s(given(part.cases(tier))(body)))
    try:
        test()
    except _Stop:
        pass
    except BaseException:
        if state['first'] is None:
            raise
    if state['first'] is None:
        return
    # Confirm without Hypothesis, the smallest case first.
    for rec in (state['best'], state['first']):
        for _ in range(part.retries):
            bad = run_case(part, rec['case'], env)
            if bad is not None:
                res['failures'].append({
                    'part': part.name, 'case': rec['case'],
                    'message': bad[0], 'detail': bad[1]})
                return
    res['unreproduced'].append({'part': part.name, **state['best']})


def shard_main(pid, tier, seed, shard, nshards, outfile):
    t0 = time.monotonic()
    deadline = t0 + float(os.environ.get('PBT_BUDGET_S', BUDGET_S[tier]))
    check = load(pid)
    base = os.path.dirname(outfile)
    sdir = os.path.join(base, 'shard%d' % shard)
    os.makedirs(sdir)
    os.environ['TMPDIR'] = sdir
    tempfile.tempdir = sdir
    env = Env(tier, sdir)
    res = {'parts': {}, 'samples': {}, 'failures': [], 'unreproduced': [], 'error': None}
    try:
        for part in check.PARTS:
            if part.setup:
                part.setup(env)
            run_part(part, tier, seed, shard, nshards, env, res, deadline)
            if res['failures']:
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    finally:
        env.stop()
    with open(outfile, 'w') as f:
        json.dump(res, f)


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 512 << 20:
                return tempfile.mkdtemp(prefix='pbt.', dir=d)
    return tempfile.mkdtemp(prefix='pbt.')


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--nshards', type=int)
    ap.add_argument('--out')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.shard is not None:
        shard_main(a.pid, tier, seed, a.shard, a.nshards, a.out)
        return 0

    check = load(a.pid)
    base = scratch_root()
    try:
        if a.replay:
            with open(a.replay) as f:
                rec = json.load(f)
            part = next(p for p in check.PARTS if p.name == rec['part'])
            os.environ['TMPDIR'] = base
            env = Env(tier, base)
            if part.setup:
                part.setup(env)
            bad = None
            for _ in range(part.retries):
                bad = run_case(part, rec['case'], env)
                if bad:
                    break
            env.stop()
            if bad:
                print(bad[0])
                print('VIOLATION property=%s replay=%s' % (a.pid, a.replay))
                return 1
            print('the saved case holds')
            return 0
        return run_check(a.pid, check, tier, seed, base)
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', base], check=False, stderr=subprocess.DEVNULL)
        shutil.rmtree(base, ignore_errors=True)


def run_check(pid, check, tier, seed, base):
    t0 = time.time()
    procs = []
    nshards = getattr(check, 'SHARDS', SHARDS)
    for i in range(nshards):
        out = os.path.join(base, 'r%d.json' % i)
        errf = open(os.path.join(base, 'e%d.txt' % i), 'w')
        procs.append((i, out, subprocess.Popen(
            [sys.executable, '-m', 'pbt.core', pid, '--shard', str(i), '--nshards', str(nshards),
             '--out', out, '--tier', tier],
            cwd=VERIF, env={**os.environ, 'VERIF_SEED': str(seed), 'PYTHONDONTWRITEBYTECODE': '1'},
            stdin=subprocess.DEVNULL, stdout=errf, stderr=errf)))
    errors, results = [], []
    for i, out, p in procs:
        p.wait()
        try:
            with open(out) as f:
                results.append(json.load(f))
        except (OSError, ValueError):
            with open(os.path.join(base, 'e%d.txt' % i)) as f:
                errors.append('shard %d ended with %s: %s' % (i, p.returncode, f.read()[-3000:]))
    errors += [r['error'] for r in results if r['error']]

    parts, samples, evaluations, nontrivial = {}, {}, 0, 0
    for r in results:
        for name, st in r['parts'].items():
            d = parts.setdefault(name, {'evaluations': 0, 'nontrivial': 0, 'labels': {},
                                        'skipped_for_time': 0})
            for k in ('evaluations', 'nontrivial', 'skipped_for_time'):
                d[k] += st[k]
            for l, c in st['labels'].items():
                d['labels'][l] = d['labels'].get(l, 0) + c
        for name, ss in r['samples'].items():
            have = samples.setdefault(name, [])
            have.extend(ss[:max(0, 3 - len(have))])
    evaluations = sum(d['evaluations'] for d in parts.values())
    nontrivial = sum(d['nontrivial'] for d in parts.values())
    failures = [f for r in results for f in r['failures']]
    unrep = [f for r in results for f in r['unreproduced']]

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': check.LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': check.RULE,
            'samples': [{'part': n, 'case': c} for n, ss in samples.items() for c in ss],
            'parts': parts,
            'shards': nshards,
            'unreproduced': [{'part': u['part'], 'message': u['message'][-3000:],
                              'case': canon(u['case'])[:5000]} for u in unrep],
        },
        'assumptions': getattr(check, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

    for k in known_findings(pid):
        if k.get('status') == 'open':
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    if failures:
        failures.sort(key=lambda f: len(canon(f['case'])))
        f = failures[0]
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.md5(canon(f['case']).encode()).hexdigest()[:10]))
        with open(path, 'w') as fp:
            json.dump({'property': pid, **f}, fp, indent=1)
        print('%s/%s: %s' % (pid, f['part'], f['message'][:3000]))
        print('case: ' + canon(f['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, VERIF)))
        return 1
    if errors:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    skipped = sum(d['skipped_for_time'] for d in parts.values())
    print('%s held on %d cases (%d distinct non-trivial)%s%s in %.1f s' % (
        pid, evaluations, nontrivial,
        ', %d not run for lack of time' % skipped if skipped else '',
        ', %d failures that did not reproduce' % len(unrep) if unrep else '',
        time.time() - t0))
    return 0


if __name__ == '__main__':
    # one copy of the classes: checks import pbt.core too
    from pbt import core
    sys.exit(core.main())
