"""Explorer: enumerates every case of a bounded space, on all cores, and checks each one on the real code.

A check is a module mc.checks.cNN with

    LEVEL, BOUNDS(tier) -> dict   what is enumerated, for the evidence
    cases(tier)                   a generator of JSON-able cases, the whole bounded space, simplest first
    run(case, st)                 executes the case on the implementation and on the model; raises Violation

The cases are numbered in the order in which cases() yields them and shared out round-robin. Nothing is
sampled. run() counts the model states and transitions it visits in `st`.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = int(os.environ.get('MC_CASE_TIMEOUT', '120'))
WORKERS = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold on a case. `key` is a stable identification of what fails"""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key or msg


class CaseTimeout(BaseException):
    pass


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf8', 'surrogatepass'), digest_size=8).digest()


class Stats(object):
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.extra = {}

    def state(self, obj):
        """A canonical model state that was visited"""
        self.states.add(digest(obj))

    def outcome(self, obj):
        """What was observed on the implementation"""
        self.outcomes.add(digest(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """A model execution that was replayed on, and compared with, the implementation"""
        self.traces += n

    def add(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, st):
    """Run one case; return None or (key, message)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.run(case, st)
        return None
    except Violation as e:
        return e.key, e.msg
    except CaseTimeout:
        return 'timeout', 'did not finish in %d s' % CASE_TIMEOUT
    except (Exception, SystemExit) as e:
        # The checks turn every exception of the implementation into an observation, so what arrives here
        # comes from reading the implementation's objects, such as an attribute that is gone.
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1]
        return ('exception %s' % type(e).__name__,
                'unexpected %s: %s at %s:%s\n%s' % (type(e).__name__, str(e)[:300], where.filename, where.lineno,
                                                    ''.join(traceback.format_exc()[-1500:])))
    finally:
        signal.alarm(0)


def _worker(check, tier, shard, nshards, q, stop):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    d = os.path.join(os.environ['MC_SCRATCH'], 'w%d' % shard)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    sys.setrecursionlimit(3000)
    st = Stats()
    bad = []
    samples = []
    keys = set()
    try:
        mod = load(check)
        if hasattr(mod, 'setup'):
            mod.setup(tier)
        for i, case in enumerate(mod.cases(tier)):
            if i % nshards != shard:
                continue
            if stop.is_set():
                break
            st.cases += 1
            if len(samples) < 2 and (i // nshards) % 50 == shard % 7:
                samples.append(case)
            r = run_case(mod, case, st)
            if r:
                key, msg = r
                if key not in keys:
                    keys.add(key)
                    bad.append((i, case, key, msg))
                if key not in known(check) or key == 'timeout':
                    if len([b for b in bad if b[2] not in known(check)]) >= 3 or key == 'timeout':
                        stop.set()
                        break
    except BaseException as e:
        bad.append((-1, None, 'harness', 'the check could not run: %s\n%s' % (e, traceback.format_exc()[-3000:])))
    q.put((shard, st.states, st.outcomes, st.transitions, st.traces, st.cases, st.extra, bad, samples))


def load(check):
    return importlib.import_module('mc.checks.' + check.lower())


_known = {}


def known(check):
    """Keys of the findings that are recorded and not repaired"""
    if check not in _known:
        ks = {}
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
        if os.path.exists(p):
            for line in open(p):
                if line.strip():
                    d = json.loads(line)
                    if d['property'] == check and d['status'] == 'known':
                        ks[d['key']] = d['what']
        _known[check] = ks
    return _known[check]


def main(argv):
    if argv and argv[0] == 'replay':
        return replay(argv[1])

    check = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()

    try:
        import metatab  # noqa
        import metatab.doc  # noqa
        if not os.path.realpath(metatab.__file__).startswith('/repo/'):
            print('metatab is not imported from /repo but from', metatab.__file__)
            return 2
    except BaseException as e:
        path = save(check, tier, dict(case=None, index=-1, shard=0, nshards=1, message='import failed: %r' % e))
        print('import of metatab failed: %r' % e)
        print('VIOLATION property=%s replay=%s' % (check, path))
        return 1

    mod = load(check)
    n = getattr(mod, 'WORKERS', None) or WORKERS
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    stop = ctx.Event()
    procs = [ctx.Process(target=_worker, args=(check, tier, s, n, q, stop)) for s in range(n)]
    for p in procs:
        p.start()

    results = {}
    lost = 0
    while len(results) + lost < n:
        try:
            r = q.get(timeout=2)
            results[r[0]] = r
        except Exception:
            lost = sum(1 for s, p in enumerate(procs) if not p.is_alive() and s not in results)
            if lost:
                time.sleep(1)
                while True:
                    try:
                        r = q.get(timeout=1)
                        results[r[0]] = r
                    except Exception:
                        break
                lost = sum(1 for s, p in enumerate(procs) if not p.is_alive() and s not in results)
    for p in procs:
        p.join(10)

    states, outcomes, extra = set(), set(), {}
    transitions = traces = cases = 0
    bad, samples = [], []
    for s in sorted(results):
        r = results[s]
        states |= r[1]
        outcomes |= r[2]
        transitions += r[3]
        traces += r[4]
        cases += r[5]
        for k, v in r[6].items():
            extra[k] = extra.get(k, 0) + v
        bad += [(b, s) for b in r[7]]
        samples += r[8]

    if lost:
        bad.append(((-1, None, 'worker died', '%d workers ended abnormally' % lost), 0))

    bad.sort(key=lambda e: e[0][0])
    kn = known(check)
    reported_known = []
    new = []
    for b, s in bad:
        if b[2] in kn:
            if b[2] not in reported_known:
                reported_known.append(b[2])
        else:
            new.append((b, s))

    wall = time.time() - t0
    cov = dict(states=len(states), transitions=transitions, traces_validated_against_impl=traces,
               cases=cases, distinct_observations=len(outcomes),
               complete=not new, bounds=mod.BOUNDS(tier), samples=samples[:6])
    cov.update(extra)
    ev = dict(property=check, tier='thorough' if tier == 'thorough' else 'quick', seed=seed, level=mod.LEVEL,
              coverage=cov, wall_s=round(wall, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    print('%s %s: cases=%d states=%d transitions=%d traces=%d observations=%d wall=%.1fs' % (
        check, tier, cases, len(states), transitions, traces, len(outcomes), wall))
    for k in reported_known:
        print('KNOWN-FINDING: property=%s %s' % (check, kn[k]))

    if new:
        for (i, case, key, msg), s in new[:3]:
            path = save(check, tier, dict(case=case, index=i, shard=s, nshards=n, key=key, message=msg))
            print('--- case %s: %s\n%s' % (i, json.dumps(case, default=str)[:1500], msg[:3000]))
            print('VIOLATION property=%s replay=%s' % (check, path))
        return 1
    return 0


def save(check, tier, d):
    d = dict(d, property=check, tier=tier)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%s.json' % (check, hashlib.md5(repr(d).encode('utf8', 'replace')).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    return path


def replay(path):
    """Run the recorded case alone; if it holds alone, run it after the cases that came before it"""
    d = json.load(open(path))
    print('property %s, case %s\nrecorded: %s' % (d['property'], json.dumps(d['case'])[:3000], d['message'][:3000]))
    import metatab.doc  # noqa
    mod = load(d['property'])
    if hasattr(mod, 'setup'):
        mod.setup(d['tier'])
    if d['case'] is None:
        return 1
    r = run_case(mod, d['case'], Stats())
    if not r:
        print('holds when the case runs alone; running the cases before it')
        for i, case in enumerate(mod.cases(d['tier'])):
            if i % d['nshards'] == d['shard']:
                r = run_case(mod, case, Stats())
                if i >= d['index']:
                    break
    if r:
        print('now: ' + r[1])
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('does not fail now')
    return 0
