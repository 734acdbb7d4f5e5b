"""Runner of property checks.

A check module declares WORKLOADS; a workload is a function of one Case that
drives the real yargy code under a monitor and calls case.fail(...) when the
monitor refutes the property.  Case number i of a workload is generated from
(VERIF_SEED, property, workload, i) only, so that a replay file is just that
tuple plus a readable description.

Verdicts: 0 held on everything observed, 1 violation, 2 error/inconclusive.
"""
import argparse
import functools
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('YARGY_REPO', '/repo')
YARGY = os.path.join(os.path.realpath(REPO), 'yargy') + os.sep

QUICK_WALL = 300      # generous wall budgets: work stops, minimums decide
THOROUGH_WALL = 720
CASE_SOFT = 20        # s of processor time, then function calls are counted
CASE_STEPS = 60 * 1000 * 1000
CASE_CPU = 60         # s of processor time (cases take milliseconds): endless
CASE_HARD = 400       # s, inconclusive
MEMORY = 3 << 30
COLLECT = 700 << 20


class Violation(Exception):
    def __init__(self, message, detail=None):
        super().__init__(message)
        self.message = message
        self.detail = detail


class Skip(Exception):
    """Case is out of the scope of the workload (too large, not well formed)."""


class StepLimit(Exception):
    pass


class Inconclusive(Exception):
    pass


class Workload(object):
    def __init__(self, name, function, quick, thorough=None):
        self.name = name
        self.function = function
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10

    def size(self, tier):
        return self.quick if tier == 'quick' else self.thorough


W = Workload


class Stats(object):
    def __init__(self):
        self.cases = 0
        self.skipped = 0
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.values = {}
        self.samples = []
        self.known = {}
        self.functions = set()
        self.workloads = {}

    def merge(self, other):
        self.cases += other.cases
        self.skipped += other.skipped
        self.evaluations += other.evaluations
        self.distinct |= other.distinct
        for key, value in other.counters.items():
            self.counters[key] = self.counters.get(key, 0) + value
        for key, value in other.values.items():
            self.values.setdefault(key, set()).update(value)
        self.samples.extend(other.samples)
        self.known.update(other.known)
        self.functions |= other.functions
        for key, values in other.workloads.items():
            row = self.workloads.setdefault(key, dict.fromkeys(values, 0))
            for name, value in values.items():
                row[name] = max(row[name], value) if name == 'slowest_s' else row[name] + value


def digest(value):
    data = repr(value).encode('utf8', 'backslashreplace')
    return hashlib.blake2b(data, digest_size=8).digest()


class Case(object):
    def __init__(self, property, workload, index, seed, tier, stats):
        self.property = property
        self.workload = workload
        self.i = index
        self.seed = seed
        self.tier = tier
        self.stats = stats
        self.rng = random.Random('%s/%s/%s/%s' % (seed, property, workload, index))
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def note(self, *lines):
        """Readable description of the case, goes to the replay file."""
        self.notes.extend(str(_) for _ in lines)

    def ok(self, count=1):
        """The oracle has judged `count` observations."""
        self.stats.evaluations += count

    def count(self, name, count=1):
        counters = self.stats.counters
        counters[name] = counters.get(name, 0) + count

    def seen(self, *key):
        """Register a distinct non trivial observation."""
        self.stats.distinct.add(digest((self.workload, key)))

    def value(self, name, value):
        """Number of different values is reported."""
        self.stats.values.setdefault(name, set()).add(value)

    def sample(self, value, limit=2):
        key = '_samples_' + self.workload
        if self.stats.counters.get(key, 0) < limit:
            self.count(key)
            self.stats.samples.append({
                'workload': self.workload, 'index': self.i, 'case': value
            })

    def fail(self, message, **detail):
        raise Violation(message, detail)

    def check(self, condition, message, **detail):
        self.ok()
        if not condition:
            raise Violation(message, detail)

    def equal(self, actual, expected, what, **detail):
        self.ok()
        if not (actual == expected):
            raise Violation(
                '%s: got %s, expected %s' % (what, short(actual), short(expected)),
                detail
            )

    def known(self, id, message):
        """A listed known finding was observed."""
        if id in known_findings(self.property):
            self.stats.known[id] = message
        else:
            raise Violation(message, {'finding': id})


def short(value, size=600):
    try:
        value = repr(value)
    except Exception as error:
        value = '<%s, repr raised %s>' % (type(value).__name__, type(error).__name__)
    if len(value) > size:
        value = value[:size] + '...'
    return value


_known = None


def known_findings(property):
    global _known
    if _known is None:
        with open(os.path.join(VERIF, 'known_findings.json'), encoding='utf8') as file:
            _known = json.load(file)
    return {
        _['id']: _ for _ in _known['findings']
        if _['property'] == property
    }


def through_yargy(tb):
    for frame, _ in traceback.walk_tb(tb):
        name = os.path.realpath(frame.f_code.co_filename)
        if name.startswith(YARGY):
            return True
    return False


def malformed(error):
    if isinstance(error, AttributeError):
        return error.obj is None
    return isinstance(error, (
        LookupError, ValueError, TypeError, AssertionError, ArithmeticError
    ))


class Steps(object):
    """After CASE_SOFT seconds count function calls, so that "does not finish"
    is decided on steps and not on the speed of the machine."""

    def __init__(self):
        self.steps = 0
        self.counting = False
        self.cpu = time.process_time()
        self.wall = time.monotonic()

    def profile(self, frame, event, arg):
        if event == 'call':
            self.steps += 1
            if self.steps > CASE_STEPS:
                sys.setprofile(None)
                raise StepLimit('no result after %d function calls' % CASE_STEPS)

    def alarm(self, signum, frame):
        if not self.counting and time.process_time() - self.cpu >= CASE_SOFT:
            self.counting = True
            sys.setprofile(self.profile)
        if time.process_time() - self.cpu > CASE_CPU:
            # a loop without calls
            sys.setprofile(None)
            raise StepLimit('no result after %d s of processor time' % CASE_CPU)
        if time.monotonic() - self.wall > CASE_HARD:
            sys.setprofile(None)
            raise Inconclusive('case took more than %d s' % CASE_HARD)
        signal.alarm(5)

    def __enter__(self):
        signal.signal(signal.SIGALRM, self.alarm)
        signal.alarm(CASE_SOFT)

    def __exit__(self, *_):
        signal.alarm(0)
        sys.setprofile(None)


def monitor_functions(stats):
    monitoring = sys.monitoring
    tool = monitoring.COVERAGE_ID
    monitoring.use_tool_id(tool, 'vlib')

    def start(code, offset):
        name = code.co_filename
        if name.startswith(YARGY):
            stats.functions.add(
                name[len(YARGY):] + ':' + code.co_qualname
            )
        return monitoring.DISABLE

    monitoring.register_callback(tool, monitoring.events.PY_START, start)
    monitoring.set_events(tool, monitoring.events.PY_START)


def run_case(case, function):
    """-> None or (kind, message, detail, trace)"""
    try:
        with Steps():
            function(case)
    except Skip:
        case.stats.skipped += 1
    except Violation as error:
        return 'violation', error.message, error.detail, None
    except StepLimit as error:
        return 'violation', 'endless: %s' % error, None, traceback.format_exc()
    except Inconclusive as error:
        return 'inconclusive', str(error), None, traceback.format_exc()
    except Exception as error:
        trace = traceback.format_exc()
        message = 'unexpected %s: %s' % (type(error).__name__, short(str(error), 300))
        if through_yargy(error.__traceback__):
            return 'violation', message, None, trace
        if malformed(error):
            # the oracle stumbled over what yargy returned
            return 'violation', 'result cannot be interpreted, ' + message, None, trace
        return 'error', message, None, trace
    else:
        case.stats.cases += 1


def plan(module, tier):
    # cheap checks run more cases, within the size of the thorough tier
    factor = getattr(module, 'QUICK', 1) if tier == 'quick' else 1
    sizes = [
        (_, _.size(tier) if factor == 1 else min(int(_.quick * factor), max(_.quick, _.thorough)))
        for _ in module.WORKLOADS
    ]
    top = max((size for _, size in sizes), default=0)
    # spread cases of every workload evenly over the run
    items = []
    for order, (workload, size) in enumerate(sizes):
        for index in range(size):
            items.append(((index + 0.5) / size * top, order, index, workload))
    items.sort(key=lambda _: _[:3])
    return [(workload, index) for _, _, index, workload in items]


def release():
    """Cached analyses keep analyzers of earlier cases, 17 MB each"""
    for item in gc.get_objects():
        if isinstance(item, functools._lru_cache_wrapper) and str(item.__module__).startswith('yargy'):
            item.cache_clear()
    gc.collect()


def resident():
    try:
        with open('/proc/self/statm') as file:
            return int(file.read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0


def shard(pid, module, tier, seed, number, total, pipe, deadline):
    stats = Stats()
    monitor_functions(stats)
    outcome = None
    for position, (workload, index) in enumerate(plan(module, tier)):
        if position % total != number:
            continue
        if time.monotonic() > deadline:
            stats.counters['_truncated'] = 1
            break
        case = Case(pid, workload.name, index, seed, tier, stats)
        cpu = time.process_time()
        before = stats.skipped, stats.evaluations, len(stats.distinct)
        result = run_case(case, workload.function)
        seconds = round(time.process_time() - cpu, 2)
        if not position // total % 16 and resident() > COLLECT:
            release()
        row = stats.workloads.setdefault(
            workload.name, {'cases': 0, 'out_of_scope': 0, 'evaluations': 0, 'non_trivial': 0, 'slowest_s': 0})
        row['cases'] += 1
        row['slowest_s'] = max(row['slowest_s'], seconds)
        row['out_of_scope'] += stats.skipped - before[0]
        row['evaluations'] += stats.evaluations - before[1]
        row['non_trivial'] += len(stats.distinct) > before[2]
        if result:
            outcome = (workload.name, index, case.notes) + result
            break
    with os.fdopen(pipe, 'wb') as file:
        file.write(pack(stats, outcome))


def pack(stats, outcome):
    # observed values may be of classes made at run time, report their text
    if outcome:
        workload, index, notes, kind, message, detail, trace = outcome
        outcome = (
            workload, index, [str(_) for _ in notes], kind, str(message),
            {str(key): short(value, 4000) for key, value in (detail or {}).items()},
            trace
        )
    try:
        return pickle.dumps((stats, outcome))
    except Exception:
        stats.samples = [short(_, 2000) for _ in stats.samples]
        stats.values = {
            key: {short(_) for _ in value}
            for key, value in stats.values.items()
        }
        return pickle.dumps((stats, outcome))


def run_shards(pid, module, tier, seed, jobs):
    wall = QUICK_WALL if tier == 'quick' else THOROUGH_WALL
    deadline = time.monotonic() + wall
    children = {}
    sys.stdout.flush()
    for number in range(jobs):
        read, write = os.pipe()
        child = os.fork()
        if not child:
            code = 0
            try:
                os.close(read)
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                shard(pid, module, tier, seed, number, jobs, write, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(write)
        children[read] = (child, [])

    total = Stats()
    outcomes = []
    errors = []
    open_ = set(children)
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 5)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            if data:
                children[fd][1].append(data)
                continue
            open_.discard(fd)
            os.close(fd)
            child, chunks = children[fd]
            _, status = os.waitpid(child, 0)
            try:
                stats, outcome = pickle.loads(b''.join(chunks))
            except Exception:
                errors.append('shard ended without a report, status %s' % status)
                continue
            total.merge(stats)
            if outcome:
                outcomes.append(outcome)
                if outcome[3] == 'violation':
                    for other in list(open_):
                        os.kill(children[other][0], signal.SIGKILL)
                        os.waitpid(children[other][0], 0)
                        os.close(other)
                    open_.clear()
                    break
    return total, outcomes, errors


def write_replay(pid, tier, seed, outcome):
    workload, index, notes, kind, message, detail, trace = outcome
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s-%s-%s.json' % (pid, workload, seed, index))
    with open(path, 'w', encoding='utf8', errors='backslashreplace') as file:
        json.dump({
            'property': pid,
            'tier': tier,
            'seed': seed,
            'workload': workload,
            'index': index,
            'message': message,
            'case': notes,
            'detail': {key: short(value, 4000) for key, value in (detail or {}).items()},
            'trace': trace,
            'rerun': './check %s --replay %s' % (pid, os.path.relpath(path, VERIF)),
        }, file, ensure_ascii=False, indent=1)
    return os.path.relpath(path, VERIF)


def report(outcome):
    workload, index, notes, kind, message, detail, trace = outcome
    print('%s in %s:%s' % (kind, workload, index))
    print('  %s' % message)
    for line in notes[:40]:
        print('  | %s' % line)
    for key, value in (detail or {}).items():
        print('  %s = %s' % (key, short(value)))
    if trace:
        print(trace)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--case')
    parser.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    args = parser.parse_args()

    pid, tier, seed = args.property, args.tier, args.seed
    started = time.monotonic()

    import yargy
    if not os.path.realpath(yargy.__file__).startswith(YARGY):
        print('wrong yargy: %s' % yargy.__file__)
        sys.exit(2)
    module = importlib.import_module('checks.%s' % pid.lower())

    if args.replay or args.case:
        if args.replay:
            path = args.replay
            if not os.path.exists(path):
                path = os.path.join(VERIF, path)
            with open(path, encoding='utf8') as file:
                data = json.load(file)
            workload, index = data['workload'], data['index']
            seed, tier = data['seed'], data['tier']
        else:
            workload, index = args.case.split(':')
            index = int(index)
        stats = Stats()
        function, = [_.function for _ in module.WORKLOADS if _.name == workload]
        case = Case(pid, workload, index, seed, tier, stats)
        result = run_case(case, function)
        if result:
            outcome = (workload, index, case.notes) + result
            report(outcome)
            if result[0] == 'violation':
                print('VIOLATION property=%s replay=%s' % (
                    pid, args.replay or write_replay(pid, tier, seed, outcome)
                ))
                sys.exit(1)
            sys.exit(2)
        for line in case.notes:
            print('  | %s' % line)
        print('held on this case', stats.evaluations, 'evaluations', 'skipped' if stats.skipped else '')
        sys.exit(0)

    prepare = getattr(module, 'prepare', None)
    if prepare:
        prepare()
    stats, outcomes, errors = run_shards(pid, module, tier, seed, args.jobs)
    wall = time.monotonic() - started

    violations = [_ for _ in outcomes if _[3] == 'violation']
    others = [_ for _ in outcomes if _[3] != 'violation']

    minimums = dict(getattr(module, 'MINIMUMS', {}))
    minimums.setdefault('evaluations', 1)
    counters = {
        key: value for key, value in stats.counters.items()
        if not key.startswith('_')
    }
    observed = dict(counters)
    observed['evaluations'] = stats.evaluations
    observed['distinct'] = len(stats.distinct)
    for key, value in stats.values.items():
        observed[key] = len(value)
    for workload in module.WORKLOADS:
        # a workload that never gets to the oracle decides nothing
        row = stats.workloads.get(workload.name)
        if row and not stats.counters.get('_truncated'):
            observed['evaluations of workload ' + workload.name] = row['evaluations']
            minimums.setdefault('evaluations of workload ' + workload.name, 1)
    short_of = {
        key: (observed.get(key, 0), value)
        for key, value in minimums.items()
        if observed.get(key, 0) < value
    }

    coverage = {
        'evaluations': stats.evaluations,
        'distinct_nontrivial': len(stats.distinct),
        'rule': module.RULE,
        'samples': stats.samples[:12],
        'cases': stats.cases,
        'cases_out_of_scope': stats.skipped,
        'workloads': dict(sorted(stats.workloads.items())),
        'counters': dict(sorted(counters.items())),
        'different_values': {key: len(value) for key, value in sorted(stats.values.items())},
        'yargy_functions_executed': len(stats.functions),
        'truncated': bool(stats.counters.get('_truncated')),
    }
    evidence = {
        'property': pid,
        'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed,
        'level': 'exploration',
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    folder = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, pid + '.json'), 'w', encoding='utf8', errors='backslashreplace') as file:
        json.dump(evidence, file, ensure_ascii=False, indent=1, default=repr)

    for id, message in sorted(stats.known.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, id, message))

    if violations:
        outcome = violations[0]
        report(outcome)
        print('VIOLATION property=%s replay=%s' % (pid, write_replay(pid, tier, seed, outcome)))
        sys.exit(1)
    for outcome in others[:1]:
        report(outcome)
    for error in errors:
        print(error)
    if others or errors:
        sys.exit(2)
    if short_of:
        print('INCONCLUSIVE property=%s observed too little: %s' % (pid, short_of))
        sys.exit(2)
    print('OK property=%s tier=%s seed=%s cases=%d evaluations=%d distinct=%d wall=%.1fs' % (
        pid, tier, seed, stats.cases, stats.evaluations, len(stats.distinct), wall
    ))
    sys.exit(0)


if __name__ == '__main__':
    main()
