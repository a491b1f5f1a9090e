"""Runs the tasks of a check on all cores, compares violations with the known findings and writes
the evidence.  Exit code 0: the property held on everything explored; 1: it is violated."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing
import os
import resource
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get('MC_EVID') or os.path.join(VERIF, 'evidence')
MAX_VIOLATIONS = 12         # distinct classes of new violations, after which the exploration stops
MAX_TIMEOUTS = 3
WORKERS = int(os.environ.get('MC_WORKERS', 0)) or min(8, os.cpu_count() or 1)


class Recorder:
    """What one task explored and found; merged by the parent"""

    def __init__(self):
        self.c = Counter()          # counters of the evidence
        self.viol = []              # (key, message, replay data)
        self.known = []             # the same, for keys of the list of known findings
        self.samples = []
        self.distinct = set()       # hashes of distinct observed outcomes
        self.notes = set()

    def execution(self, n=1):
        self.c['traces_validated_against_impl'] += n

    def state(self, n=1):
        self.c['states'] += n

    def transition(self, n=1):
        self.c['transitions'] += n

    def outcome(self, obj):
        self.distinct.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, key, message, data):
        (self.known if FINDINGS and FINDINGS.match(key) else self.viol).append((key, message, data))
        if 'does not terminate' in message:
            self.c['timeouts'] += 1


class Findings:
    """known_findings.txt: lines 'KNOWN-FINDING: property=C01,C05 key=<class> input=<json> <text>'.
    The input is one member of the class, that fails on the unchanged tree.
    Lines 'fixed: property=.. <commit> ..' suppress nothing."""

    def __init__(self, pid=None):
        self.keys = {}
        self.inputs = {}
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                if line.startswith('KNOWN-FINDING:'):
                    w = line.split(None, 4)
                    ids = w[1].partition('=')[2].split(',')
                    if pid is None or pid in ids:
                        key = w[2].partition('=')[2]
                        self.keys[key] = w[4].strip() if len(w) > 4 else ''
                        self.inputs[key] = json.loads(w[3].partition('=')[2])

    def match(self, key):
        return key in self.keys

    def __len__(self):
        return len(self.keys)


FINDINGS = None
CHECK = None
TIER = None


def _init(check, tier, findings):
    global CHECK, TIER, FINDINGS
    CHECK, TIER, FINDINGS = check, tier, findings
    # an endless loop that appends to a list must not eat the memory
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def _work(task):
    rec = Recorder()
    try:
        if isinstance(task, tuple) and task and task[0] == 'known-finding':
            CHECK.finding_task(task[1], FINDINGS.inputs[task[1]], rec)
        else:
            CHECK.run(task, rec)
    except BaseException:
        return None, 'task %r: %s' % (task, traceback.format_exc())
    return rec, None


class Check:
    id = title = technique = level_note = ''
    level = 'model_checking'
    rule = ''
    assumptions = []
    exhaustive = True

    def tasks(self, tier):
        raise NotImplementedError

    def run(self, task, rec):
        raise NotImplementedError

    def replay(self, data):
        """complaints about one recorded case"""
        raise NotImplementedError

    def finding_task(self, key, data, rec):
        """executes the recorded input of a known finding"""
        bad = self.replay(data)
        if bad:
            rec.violation(key, bad[0], data)


def main(check, tier, seed):
    global FINDINGS
    t0 = time.time()
    budget = 780 if tier == 'quick' else 6*3600
    FINDINGS = findings = Findings(check.id)
    tasks = [('known-finding', k) for k in findings.inputs] + list(check.tasks(tier))
    total = Recorder()
    errors = []
    done = stopped = 0
    ctx = multiprocessing.get_context('fork')
    seen = {}
    pool = cf.ProcessPoolExecutor(WORKERS, ctx, _init, (check, tier, findings))
    try:
        futures = [pool.submit(_work, t) for t in tasks]
        for f in cf.as_completed(futures, timeout=budget):
            rec, err = f.result()
            if err:
                errors.append(err)
                if len(errors) > 3:
                    break
                continue
            done += 1
            total.c.update(rec.c)
            total.distinct |= rec.distinct
            total.notes |= rec.notes
            total.known += rec.known
            if len(total.samples) < 4:
                total.samples += rec.samples
            for v in rec.viol:
                seen.setdefault(v[0], v)
            if len(seen) >= MAX_VIOLATIONS or seen and total.c['timeouts'] >= MAX_TIMEOUTS:
                stopped = 1
                break
    except cf.TimeoutError:
        total.notes.add('the time budget of %d s was exhausted, the exploration is not complete' % budget)
    except cf.process.BrokenProcessPool:
        errors.append('a worker process died')
    # do not wait for running tasks
    for p in list(getattr(pool, '_processes', {}).values()):
        p.kill()
    pool.shutdown(wait=False, cancel_futures=True)

    for e in errors:
        print('CHECK-ERROR', e, file=sys.stderr)
    kk = Counter(v[0] for v in total.known)
    for k in sorted(findings.keys):
        if kk[k]:
            print('KNOWN-FINDING: property=%s key=%s %s (%d executions)' % (check.id, k, findings.keys[k], kk[k]))
    notfailing = [k for k in findings.keys if not kk[k]]
    if notfailing and not seen:
        print('note: %d listed findings were not reproduced: %s' % (len(notfailing), ' '.join(notfailing[:3])))
    rdir = os.path.join(EVIDENCE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    # the smallest counterexamples first
    for v in sorted(seen.values(), key=lambda v: len(json.dumps(v[2], default=list)))[:MAX_VIOLATIONS]:
        name = '%s-%s.json' % (check.id, hashlib.blake2b(v[0].encode(), digest_size=5).hexdigest())
        path = os.path.join(rdir, name)
        with open(path, 'w') as fh:
            json.dump({'property': check.id, 'key': v[0], 'message': v[1], 'data': v[2]}, fh, default=list)
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        print('   %s: %s' % (v[0][:200], v[1][:300]))

    cov = {k: int(n) for k, n in total.c.items()}
    for k in ('states', 'transitions', 'traces_validated_against_impl'):
        cov.setdefault(k, 0)
    cov['distinct_outcomes'] = len(total.distinct)
    cov['rule'] = check.rule
    cov['samples'] = total.samples[:4]
    cov['tasks'] = len(tasks)
    cov['tasks_completed'] = done
    cov['exhaustive'] = bool(check.exhaustive and done == len(tasks) and not stopped)
    cov['known_findings_hit'] = len(kk)
    if total.notes:
        cov['notes'] = sorted(total.notes)
    cov.update(check.extra_coverage(tier) if hasattr(check, 'extra_coverage') else {})
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level, 'coverage': cov,
          'assumptions': list(check.assumptions), 'wall_s': round(time.time()-t0, 2), 'violations': len(seen)}
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, check.id+'.json')
    with open(path+'.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1, default=list)
    os.replace(path+'.tmp', path)
    print('%s %s: %d executions, %d states, %d transitions, %d distinct outcomes, %d/%d tasks, %.1f s: %s' % (
        check.id, tier, cov['traces_validated_against_impl'], cov['states'], cov['transitions'],
        cov['distinct_outcomes'], done, len(tasks), time.time()-t0,
        '%d VIOLATIONS' % len(seen) if seen else 'held'))
    sys.stdout.flush()
    os._exit(1 if seen else (2 if errors else 0))
