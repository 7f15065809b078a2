"""Core of the explorer: work units, cases, coverage counters, violations, evidence.

A check module (mc.checks.cNN) defines
    ID, LEVEL, RULE             identification and what a (non-trivial) case is
    units(tier) -> [unit]       JSON-able descriptions of independent parts of the space
    run(unit, ctx)              enumerate every case of the unit

Units are spread over processes; every count reported is measured on the run.
"""
import contextlib
import errno
import hashlib
import json
import os
import pathlib
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
OUT = os.environ.get('MC_OUT', VERIF)  # evidence and replays
CASE_TIMEOUT = 60
MAX_VIOLATIONS_PER_UNIT = 2


class Violation(BaseException):
    """The property does not hold in the current case (not an Exception, not to be caught by a case)"""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class StopUnit(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(obj, digest_size=8).digest()


def short(obj, n=600):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + f"...({len(s)})"


class Ctx:
    """Collects what a unit covered"""

    def __init__(self, check_id, unit, tier, scratch):
        self.check_id = check_id
        self.unit = unit
        self.tier = tier
        self.scratch = scratch
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.nontrivial_keys = set()
        self.state_keys = set()
        self.outcome_keys = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.extra = {}
        self._known_keys = known_findings(check_id)
        self._seq = 0
        self._fixed_order = False

    # -- counters
    def nontrivial(self, key):
        self.nontrivial_keys.add(digest(key))

    def state(self, key):
        """Record a state, return True if it is new"""
        d = digest(key)
        if d in self.state_keys:
            return False
        self.state_keys.add(d)
        return True

    def outcome(self, key):
        self.outcome_keys.add(digest(key))

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maxi(self, name, v):
        name = f"max_{name}"
        self.extra[name] = max(self.extra.get(name, 0), v)

    # -- oracle helpers (inside a case)
    @staticmethod
    def fail(msg, key=None):
        raise Violation(msg, key)

    @staticmethod
    def check(cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    @staticmethod
    def equal(got, expected, what, key=None):
        if got != expected:
            raise Violation(f"{what}: got {short(got)}, expected {short(expected)}", key)

    @contextlib.contextmanager
    def case(self, desc, timeout=None):
        """One case. Any exception in it, expected results aside, is a violation."""
        from . import guard, order
        self.evaluations += 1
        if not self._fixed_order:
            order.choose(self.evaluations)
        if len(self.samples) < 3 or (self.evaluations & (self.evaluations - 1)) == 0 and len(self.samples) < 8:
            self.samples.append(desc() if callable(desc) else desc)
        guard.escapes.clear()
        signal.setitimer(signal.ITIMER_REAL, timeout or CASE_TIMEOUT)
        try:
            try:
                yield self
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if guard.escapes:
                raise Violation(f"effect outside of the scratch directory: {guard.escapes[0]}")
        except Violation as e:
            self._violation(desc() if callable(desc) else desc, str(e), e.key)
        except CaseTimeout:
            self._violation(desc() if callable(desc) else desc, f"no answer after {timeout or CASE_TIMEOUT} s", None)
        except StopUnit:
            raise
        except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            self._violation(desc() if callable(desc) else desc, f"unexpected {type(e).__name__}: {e}\n{tb}", None)

    def _violation(self, desc, msg, key):
        if key is not None and key in self._known_keys:
            self.known.append((key, self._known_keys[key]))
            return
        self.violations.append({'case': desc, 'message': msg, 'key': key})
        if len(self.violations) >= MAX_VIOLATIONS_PER_UNIT:
            raise StopUnit()

    # -- scratch directories
    def mkdtemp(self):
        self._seq += 1
        path = f"{self.scratch}/w{os.getpid()}.{self._seq}"
        os.mkdir(path)
        return path

    @contextlib.contextmanager
    def tmp(self):
        path = self.mkdtemp()
        # a sentinel: upward removal of empty directories stops here
        with open(f"{path}/.sentinel", 'w'):
            pass
        try:
            yield path
        finally:
            shutil.rmtree(path, ignore_errors=True)


_known_cache = None

def known_findings(check_id):
    """Parse known_findings.txt: {key: description} for the property"""
    global _known_cache
    if _known_cache is None:
        _known_cache = []
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if line.startswith('finding: '):
                        fields = line[len('finding: '):].rstrip('\n').split(' ', 2)
                        prop = fields[0].split('=', 1)[1]
                        key = fields[1].split('=', 1)[1]
                        _known_cache.append((prop, key, fields[2]))
    return {key: desc for prop, key, desc in _known_cache if prop == check_id}


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _unit_worker(args):
    from . import order
    check_id, index, unit, tier, scratch = args
    signal.signal(signal.SIGALRM, _on_alarm)
    mod = load(check_id)
    ctx = Ctx(check_id, unit, tier, scratch)
    ctx._fixed_order = getattr(mod, 'FIXED_ORDER', False)
    order.choose(index)
    t0 = time.perf_counter()
    error = None
    lines = covered_lines() if os.environ.get('MC_COV') else None
    try:
        mod.run(unit, ctx)
    except StopUnit:
        pass
    except Violation as e:
        ctx.violations.append({'case': {'set-up of the unit': unit}, 'message': str(e), 'key': None})
    except CaseTimeout:
        error = 'timer fired outside of a case'
    except Exception as e:
        if isinstance(e, MemoryError) or isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN):
            error = traceback.format_exc()
        else:
            # what the unit starts from cannot be built with the code under test
            ctx.violations.append({'case': {'set-up of the unit': unit}, 'message': f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()}", 'key': None})
    return {
        'index': index,
        'evaluations': ctx.evaluations,
        'transitions': ctx.transitions,
        'traces': ctx.traces,
        'nontrivial': ctx.nontrivial_keys,
        'states': ctx.state_keys,
        'outcomes': ctx.outcome_keys,
        'samples': ctx.samples,
        'violations': ctx.violations,
        'known': ctx.known,
        'extra': ctx.extra,
        'error': error,
        'lines': lines,
        'wall': time.perf_counter() - t0,
    }


_lines = None

def covered_lines():
    """The set which gets the lines of the code under test executed from now on (for tools/mutate.py)"""
    global _lines
    mon = sys.monitoring
    if _lines is None:
        base = os.environ['MC_REPO'] + '/cdtb/'

        def line(code, n):
            if code.co_filename.startswith(base):
                _lines.add((code.co_filename[len(base):], n))
            return mon.DISABLE
        mon.use_tool_id(3, 'mc')
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
    _lines = set()
    mon.restart_events()
    return _lines


def load(check_id):
    import importlib
    from . import clock  # noqa: F401 (before the code under test)
    return importlib.import_module(f"mc.checks.{check_id.lower()}")


def readable_by_all(path):
    for d in (path, *pathlib.Path(path).resolve().parents):
        if not os.stat(d).st_mode & 1:
            return False
    return all(os.stat(f"{path}/{n}").st_mode & 4 for n in os.listdir(path))


MEMORY = 4 << 30   # per worker


def _init_worker(scratch, level):
    from . import guard, order
    import logging
    order.install()
    logging.disable(logging.CRITICAL)
    # what takes too much memory fails, instead of ending other processes
    # (not the address space, which threads reserve generously)
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))
    guard.drop_privileges()
    guard.install(scratch)


def main(argv):
    check_id = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    jobs = int(argv[argv.index('--jobs') + 1]) if '--jobs' in argv else (os.cpu_count() or 4)

    t0 = time.perf_counter()
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix='mc-', dir=base)
    try:
        os.chmod(scratch, 0o777)
        return _main(check_id, tier, seed, replay, jobs, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(check_id, tier, seed, replay, jobs, scratch, t0):
    from . import guard
    os.makedirs(f"{scratch}/hashes")
    os.makedirs(f"{scratch}/home")
    os.environ['CDTB_HASHES_DIR'] = f"{scratch}/hashes"
    os.environ['HOME'] = f"{scratch}/home"
    guard.chown_scratch(scratch)
    if not readable_by_all(f"{REPO}/cdtb"):
        # workers have no privileges
        shutil.copytree(f"{REPO}/cdtb", f"{scratch}/code/cdtb", ignore=shutil.ignore_patterns('__pycache__'))
        os.environ['PYTHONPATH'] = os.environ['PYTHONPATH'].replace(REPO, f"{scratch}/code")
        sys.path[:] = [f"{scratch}/code" if p == REPO else p for p in sys.path]
        os.environ['MC_REPO'] = f"{scratch}/code"
    guard.chown_scratch(scratch)
    import multiprocessing
    mod = load(check_id)   # import once, workers are forked
    for name, hashes in getattr(mod, 'HASHFILES', {}).items():
        width = 8 if 'bin' in name else 16
        with open(f"{scratch}/hashes/{name}", 'w') as f:
            f.write(''.join(f"{h:0{width}x} {s}\n" for h, s in hashes.items()))
    guard.chown_scratch(scratch)
    if replay:
        with open(replay) as f:
            data = json.load(f)
        tier = data['tier']
        units = [data['unit']]
    else:
        units = mod.units(tier)
    work = [(check_id, i, u, tier, scratch) for i, u in enumerate(units)]
    if os.environ.get('MC_UNITS'):
        only = set(map(int, os.environ['MC_UNITS'].split(',')))
        work = [w for w in work if w[1] in only]
    failfast = os.environ.get('MC_FAILFAST')
    results = []
    mp = multiprocessing.get_context('fork')
    # workers of a pool cannot fork helpers when daemonic: use plain non-daemonic processes
    with mp.Pool(max(1, min(jobs, len(work))), initializer=_init_worker, initargs=(scratch, None)) as pool:
        workers = {p.pid for p in pool._pool}
        it = pool.imap_unordered(_unit_worker, work, chunksize=1)
        while True:
            try:
                r = it.next(timeout=5)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                # the pool waits for ever for the result of a worker which was killed
                if workers - {p.pid for p in pool._pool}:
                    print(f"{check_id}: a worker process died", file=sys.stderr)
                    return 3
                continue
            results.append(r)
            if failfast and (r['violations'] or r['error']):
                break
    results.sort(key=lambda r: r['index'])

    errors = [r for r in results if r['error']]
    if os.environ.get('MC_COV'):
        with open(f"{os.environ['MC_COV']}/{check_id}.json", 'w') as f:
            json.dump([{'unit': r['index'], 'wall': r['wall'], 'lines': sorted(r['lines'])} for r in results], f)
    if os.environ.get('MC_PROFILE'):
        for r in sorted(results, key=lambda r: -r['wall'])[:25]:
            print(f"{r['wall']:.1f}s {r['evaluations']} {short(units[r['index']], 150)}")
    violations = [(units[r['index']], v) for r in results for v in r['violations']]
    known = {}
    for r in results:
        known.update(dict(r['known']))

    nontrivial, states, outcomes, extra, samples = set(), set(), set(), {}, []
    for r in results:
        nontrivial |= r['nontrivial']
        states |= r['states']
        outcomes |= r['outcomes']
        for k, v in r['extra'].items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith('max_') else extra.get(k, 0) + v
    step = max(1, len(results) // 6)
    for r in results[::step]:
        samples += r['samples'][-2:]
    evaluations = sum(r['evaluations'] for r in results)
    transitions = sum(r['transitions'] for r in results)
    traces = sum(r['traces'] for r in results)

    coverage = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(nontrivial),
        'rule': mod.RULE,
        'samples': samples[:12] or ['(none)'],
        'work_units': len(units),
        'distinct_outcomes': len(outcomes),
        'exhaustive': not errors and not violations,
        'bounds': mod.BOUNDS[tier] if isinstance(getattr(mod, 'BOUNDS', None), dict) else getattr(mod, 'BOUNDS', ''),
    }
    if mod.LEVEL == 'model_checking':
        coverage['states'] = len(states)
        coverage['transitions'] = transitions
        coverage['traces_validated_against_impl'] = traces
    elif states:
        coverage['states'] = len(states)
        coverage['transitions'] = transitions
    if extra:
        coverage['detail'] = extra
    wall = time.perf_counter() - t0
    evidence = {
        'property': check_id,
        'tier': tier,
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': len(violations),
    }
    if not replay:
        os.makedirs(f"{OUT}/evidence", exist_ok=True)
        tmp = f"{OUT}/evidence/.{check_id}.tmp"
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, default=repr)
            f.write('\n')
        os.replace(tmp, f"{OUT}/evidence/{check_id}.json")

    print(f"{check_id} [{tier}] evaluations={evaluations} distinct_nontrivial={len(nontrivial)} states={len(states)} "
          f"transitions={transitions} traces={traces} outcomes={len(outcomes)} units={len(units)} wall={wall:.1f}s"
          + (f" {extra}" if extra else ""))
    for key, desc in sorted(known.items()):
        print(f"KNOWN-FINDING: property={check_id} {desc}")
    if violations:
        os.makedirs(f"{OUT}/replays", exist_ok=True)
        for i, (unit, v) in enumerate(violations[:3]):
            path = f"{OUT}/replays/{check_id}-{i}.json"
            with open(path, 'w') as f:
                json.dump({'property': check_id, 'tier': tier, 'unit': unit, **v}, f, indent=1, default=repr)
                f.write('\n')
            print(f"  case: {short(v['case'], 800 if i == 0 else 300)}")
            msg = v['message'].strip()
            print(f"  {short(msg, 1800) if i == 0 else short(msg.splitlines()[0], 400)}")
            print(f"VIOLATION property={check_id} replay={path}")
        return 1
    if errors:
        for r in errors[:3]:
            print(f"ERROR in unit {short(units[r['index']])}:\n{r['error']}", file=sys.stderr)
        return 3
    return 0
