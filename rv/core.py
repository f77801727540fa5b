"""Runner: executes workloads of a check against the real code, gathers what the monitors observed, decides a
three-valued verdict (held on what was observed: exit 0, violated: exit 1, inconclusive: exit 2) and writes the
evidence file.

A workload is a function case(mon, rng, i). Case i is a pure function of (seed, check, workload, i), so a violation is
replayed from these four values alone.
"""
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from rv.paths import REPO, VERIF, EVIDENCE

MAX_DISTINCT = 400000
MAX_SAMPLES = 3
MAX_VIOLATIONS = 5
WATCHDOG_S = int(os.environ.get('RV_WATCHDOG_S', '25'))   # then a case is put on a logical step budget
STEP_BUDGET = 4000000     # lines of repository code a single case may still run after the watchdog fired
HARD_STOP_S = int(os.environ.get('RV_HARD_STOP_S', '150'))       # a case that neither ends nor runs repository code: inconclusive


class Violation(Exception):
    """The property is broken on the current case."""

    def __init__(self, message, /, **witness):
        super().__init__(message)
        self.message = message
        self.witness = witness


class NonTermination(BaseException):
    pass


class Inconclusive(Exception):
    pass


def digest(obj):
    if not isinstance(obj, (str, bytes)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'little')


class Monitor(object):
    """What one worker observed."""

    def __init__(self):
        self.evaluations = 0
        self.events = {}
        self.distinct = set()
        self.sets = {}
        self.samples = []
        self.violations = []
        self.errors = []
        self.lines = {}
        self.current = None
        self._case_sample = None

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def seen(self, group, value):
        """Record a distinct value of a class of observations (for example decisions, operators, error kinds)."""
        s = self.sets.setdefault(group, set())
        if len(s) < 5000:
            s.add(value)

    def case(self, key, nontrivial=True):
        """A case was put to the oracle; key identifies it for the distinct count."""
        if nontrivial and len(self.distinct) < MAX_DISTINCT:
            self.distinct.add(digest(key))

    def sample(self, **kw):
        self._case_sample = kw

    def check(self, cond, message, /, **witness):
        self.event('assertions')
        if not cond:
            raise Violation(message, **witness)

    def equal(self, got, want, message, /, **witness):
        self.event('assertions')
        if type(got) is not type(want) and not (isinstance(got, (int, float)) and isinstance(want, (int, float))):
            bad = got != want or isinstance(got, bool) != isinstance(want, bool)
        else:
            bad = got != want
        if bad:
            raise Violation(message, got=safe(got), want=safe(want), **{k: v for k, v in witness.items() if k not in ("got", "want")})


def safe(x, limit=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= limit else s[:limit] + '...[%d chars]' % len(s)


class Workload(object):
    def __init__(self, name, fn, quick, thorough, setup=None, procs=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.setup = setup
        self.procs = procs


class Check(object):
    def __init__(self, pid, rule, anchors, require=None, assumptions=None, level='exploration'):
        self.id = pid
        self.rule = rule
        self.anchors = anchors
        self.require = require or {}
        self.assumptions = assumptions or []
        self.level = level
        self.workloads = []

    def workload(self, name, quick, thorough, setup=None, procs=None):
        def deco(fn):
            n = int(quick * QUICK_SCALE.get(self.id, 1))
            self.workloads.append(Workload(name, fn, n, max(n, thorough), setup, procs))
            return fn
        return deco


CHECKS = {}

# how much more than its base size the quick tier of a check runs; chosen so that each takes about ten seconds
QUICK_SCALE = {'C01': 5, 'C02': 4, 'C03': 4, 'C04': 5, 'C05': 5, 'C06': 8, 'C07': 4, 'C08': 3, 'C09': 5, 'C10': 6, 'C11': 8,
               'C12': 6, 'C13': 1.5, 'C14': 10, 'C15': 5, 'C16': 4, 'C17': 4, 'C18': 3, 'C19': 1.5, 'C20': 4, 'C21': 6,
               'C22': 6, 'C23': 3, 'C24': 3, 'C25': 3, 'C27': 2, 'C28': 4, 'C29': 3}


def register(pid, rule, anchors, require=None, assumptions=None, level='exploration'):
    c = Check(pid, rule, anchors, require, assumptions, level)
    CHECKS[pid] = c
    return c


def rng_for(seed, pid, wname, i):
    return random.Random('%s/%s/%s/%s' % (seed, pid, wname, i))


# --------------------------------------------------------------------------------------------------------------------
# instrumentation

class Coverage(object):
    """Which lines of the repository ran (each location reports once, so the cost is negligible)."""

    def __init__(self):
        self.lines = {}
        self.on = False

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'rv-coverage')
        except ValueError:
            return
        prefix = REPO + os.sep
        lines = self.lines

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(prefix):
                lines.setdefault(fn[len(prefix):], set()).add(line)
            return mon.DISABLE

        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True


class StepBudget(object):
    """Counts executed lines of repository code; raises NonTermination in the running thread past the budget."""
    TOOL = 4

    def __init__(self, budget):
        self.budget = budget
        self.steps = 0
        self.active = False

    def start(self):
        mon = sys.monitoring
        prefix = REPO + os.sep
        try:
            mon.use_tool_id(self.TOOL, 'rv-steps')
        except ValueError:
            mon.free_tool_id(self.TOOL)
            mon.use_tool_id(self.TOOL, 'rv-steps')

        def on_line(code, line):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            self.steps += 1
            if self.steps > self.budget:
                raise NonTermination('more than %d further lines of repository code in one case' % self.budget)

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        self.active = True
        return self

    def stop(self):
        if self.active:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.register_callback(self.TOOL, mon.events.LINE, None)
            mon.free_tool_id(self.TOOL)
            self.active = False


def _repo_frames(tb):
    return [f for f in traceback.extract_tb(tb) if f.filename.startswith(REPO + os.sep)]


def run_case(check, wl, mon, seed, i):
    rng = rng_for(seed, check.id, wl.name, i)
    mon.current = (wl.name, i)
    mon._case_sample = None
    budget = StepBudget(STEP_BUDGET)
    state = {'fired': False}

    def on_alarm(signum, frame):
        if not state['fired']:
            state['fired'] = True
            budget.start()
            signal.alarm(HARD_STOP_S)
        else:
            raise Inconclusive('case still running %d s after the watchdog' % HARD_STOP_S)

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(WATCHDOG_S)
    try:
        wl.fn(mon, rng, i)
        mon.evaluations += 1
        if mon._case_sample is not None and len(mon.samples) < MAX_SAMPLES:
            mon.samples.append(dict(workload=wl.name, case=i, **{k: safe(v, 600) for k, v in mon._case_sample.items()}))
    except Violation as v:
        mon.violations.append({'workload': wl.name, 'case': i, 'message': v.message,
                               'witness': {k: safe(x, 4000) for k, x in v.witness.items()}})
    except NonTermination as e:
        mon.violations.append({'workload': wl.name, 'case': i, 'message': 'does not terminate: %s' % e,
                               'witness': {'trace': safe(''.join(traceback.format_exc()[-3000:]))}})
    except (Inconclusive, MemoryError, KeyboardInterrupt) as e:
        mon.errors.append('%s/%d: %r' % (wl.name, i, e))
    except OSError as e:
        if _repo_frames(e.__traceback__):
            mon.violations.append({'workload': wl.name, 'case': i, 'message': 'unexpected %r' % e,
                                   'witness': {'trace': traceback.format_exc()[-4000:]}})
        else:
            mon.errors.append('%s/%d: %s' % (wl.name, i, traceback.format_exc()))
    except Exception as e:
        # The oracle expected an answer; the code under test raised, or answered with something of another shape.
        mon.violations.append({'workload': wl.name, 'case': i,
                               'message': 'unexpected %s: %s' % (type(e).__name__, safe(str(e), 300)),
                               'witness': {'trace': traceback.format_exc()[-4000:]}})
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        budget.stop()


def worker(check, tier, seed, wid, nproc, out_path, only=None):
    mon = Monitor()
    cov = Coverage()
    try:
        cov.start()
        for wl in check.workloads:
            if only is not None and wl.name != only[0]:
                continue
            n = wl.quick if tier == 'quick' else wl.thorough
            p = min(nproc, wl.procs or nproc)
            if only is not None:
                idx = [only[1]]
            else:
                if wid >= p:
                    continue
                idx = range(wid, n, p)
            if not idx:
                continue
            if wl.setup:
                try:
                    wl.setup(mon)
                except Violation as v:
                    mon.violations.append({'workload': wl.name, 'case': -1, 'message': v.message,
                                           'witness': {k: safe(x, 4000) for k, x in v.witness.items()}})
                    break
            for i in idx:
                run_case(check, wl, mon, seed, i)
                if len(mon.violations) >= MAX_VIOLATIONS or len(mon.errors) >= 5:
                    break
            if mon.violations or mon.errors:
                break
    except BaseException as e:
        if isinstance(e, Exception) and _repo_frames(e.__traceback__):
            mon.violations.append({'workload': 'setup', 'case': -1, 'message': 'the code does not start: %s: %s' % (
                type(e).__name__, safe(str(e), 300)), 'witness': {'trace': traceback.format_exc()[-4000:]}})
        else:
            mon.errors.append('worker: ' + traceback.format_exc())
    mon.lines = cov.lines
    with open(out_path, 'wb') as f:
        pickle.dump({'evaluations': mon.evaluations, 'events': mon.events, 'distinct': mon.distinct, 'sets': mon.sets,
                     'samples': mon.samples, 'violations': mon.violations, 'errors': mon.errors,
                     'lines': mon.lines}, f)


def run_check(pid, tier, seed, only=None, nproc=None):
    t0 = time.time()
    check = CHECKS[pid]
    nproc = nproc or int(os.environ.get('RV_PROCS', '0')) or max(1, min(8, os.cpu_count() or 1))
    if only is not None:
        nproc = 1
    scratch = tempfile.mkdtemp(prefix='rv-%s-' % pid.lower())
    os.environ['RV_SCRATCH'] = scratch
    try:
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(nproc):
            out = os.path.join(scratch, 'w%d.pickle' % w)
            child = os.fork()
            if child == 0:
                code = 0
                try:
                    os.environ['RV_WORKER'] = str(w)
                    worker(check, tier, seed, w, nproc, out, only)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append((child, out))
        total = Monitor()
        for child, out in pids:
            _, status = os.waitpid(child, 0)
            if not os.path.exists(out):
                total.errors.append('worker %d ended with status %d and no result' % (child, status))
                continue
            with open(out, 'rb') as f:
                r = pickle.load(f)
            total.evaluations += r['evaluations']
            for k, v in r['events'].items():
                total.events[k] = total.events.get(k, 0) + v
            total.distinct |= r['distinct']
            for k, v in r['sets'].items():
                total.sets.setdefault(k, set()).update(v)
            total.samples += r['samples']
            total.violations += r['violations']
            total.errors += r['errors']
            for k, v in r['lines'].items():
                total.lines.setdefault(k, set()).update(v)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    if only is None and not total.violations and not total.errors:
        for name, least in check.require.items():
            have = len(total.sets[name[4:]]) if name.startswith('set:') and name[4:] in total.sets else \
                total.events.get(name, 0)
            if have < least:
                total.errors.append('monitor starved: %s = %d, need %d' % (name, have, least))

    return report(check, tier, seed, total, time.time() - t0, only)


def report(check, tier, seed, mon, wall, only):
    replays = []
    os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
    for v in mon.violations[:MAX_VIOLATIONS]:
        path = os.path.join(EVIDENCE, 'replays', '%s-%s-%d.json' % (check.id, v['workload'], v['case']))
        with open(path, 'w') as f:
            json.dump(dict(property=check.id, seed=seed, tier=tier, **v), f, indent=1)
        replays.append((v, path))

    samples = []
    for wl in check.workloads:
        samples += [s for s in mon.samples if s['workload'] == wl.name][:MAX_SAMPLES]

    evidence = {
        'property': check.id,
        'tier': tier,
        'seed': seed,
        'level': check.level,
        'coverage': {
            'evaluations': mon.evaluations,
            'distinct_nontrivial': len(mon.distinct),
            'rule': check.rule,
            'samples': samples or ['none'],
            'events_observed': {k: mon.events[k] for k in sorted(mon.events)},
            'distinct_observations': {k: (len(v) if len(v) > 40 else sorted(map(str, v)))
                                      for k, v in sorted(mon.sets.items())},
            'repository_lines_executed': {k: len(v) for k, v in sorted(mon.lines.items())},
            'workloads': {w.name: (w.quick if tier == 'quick' else w.thorough) for w in check.workloads},
            'exhaustive': False,
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(mon.violations),
    }
    if only is None:
        with open(os.path.join(EVIDENCE, '%s.json' % check.id), 'w') as f:
            json.dump(evidence, f, indent=1, default=str)

    print('%s %s seed=%d: %d cases, %d distinct, %d assertions, %.1f s' % (
        check.id, tier, seed, mon.evaluations, len(mon.distinct), mon.events.get('assertions', 0), wall))
    if replays:
        for v, path in replays:
            print('  %s case %d: %s' % (v['workload'], v['case'], v['message']))
            for k, x in v['witness'].items():
                print('    %s: %s' % (k, x))
        for v, path in replays:
            print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    if mon.errors:
        print('INCONCLUSIVE property=%s' % check.id)
        for e in mon.errors[:5]:
            print('  ' + safe(e, 3000))
        return 2
    if only is None and mon.evaluations == 0:
        print('INCONCLUSIVE property=%s nothing was observed' % check.id)
        return 2
    return 0
