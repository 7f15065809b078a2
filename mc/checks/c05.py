"""Parallel downloads of bundles: the real worker threads are blocked at each request and
file-system effect, and released one at a time in every order"""
import gc
import os
import shutil
import sys
import threading
import time

from .. import fsx, world
from ..http import net
from ..world import CDN
import cdtb
from cdtb.patcher import PatcherStorage, PatcherRelease

ID = 'C05'
LEVEL = 'model_checking'
RULE = 'distinct complete schedules (sequences of released steps); non-trivial when at least two downloads overlap'
BOUNDS = {'quick': 'every interleaving of 2 bundle downloads (with and without directory to create, failing request or write on either of them), every interleaving of 3 downloads up to 1 preemption (besides all orders of completion), 10 downloads (more than the workers) up to 1 deviation from the default order',
          'thorough': '3 downloads up to 3 preemptions (2 with faults), 10 downloads up to 2 deviations'}
ASSUMPTIONS = ['scheduling points are the requests, the responses and the file-system effects; code between two of them runs without interruption']

CDTB_DIR = os.path.dirname(cdtb.__file__) + '/'
TS = 1600000000


class Scheduler:
    """Release one blocked thread at a time"""

    def __init__(self):
        self.cond = threading.Condition()
        self.waiting = {}    # {thread id: label}
        self.granted = None
        self.owner = threading.get_ident()
        self.labels = {}     # {thread id: bundle handled}
        self.seen = set()    # bundles whose download started
        self.closed = False

    def point(self, label, bundle=None):
        me = threading.get_ident()
        if me == self.owner or self.closed:
            return
        with self.cond:
            if bundle is not None:
                self.labels[me] = bundle
                self.seen.add(bundle)
            self.waiting[me] = (self.labels.get(me, ''), label)
            self.cond.notify_all()
            while self.granted != me and not self.closed:
                self.cond.wait()
            self.granted = None
            del self.waiting[me]

    def request_point(self, method, url):
        self.point('request', url.rsplit('/', 1)[1])

    def response_point(self, method, url):
        self.point('response')

    def fs_point(self, op, path):
        self.point(op)

    def close(self):
        with self.cond:
            self.closed = True
            self.cond.notify_all()


def in_cdtb(tid):
    frame = sys._current_frames().get(tid)
    while frame is not None:
        if frame.f_code.co_filename.startswith(CDTB_DIR):
            return True
        frame = frame.f_back
    return False


class Run:
    """One execution under a given prefix of choices"""

    def __init__(self, fn, scheduler, tasks):
        self.fn, self.s, self.tasks = fn, scheduler, tasks
        self.error = None
        self.done = False

    def body(self):
        try:
            self.fn()
        except BaseException as e:
            self.error = e
        self.done = True

    def wait_blocked(self, count, started, grace):
        """Wait until `count` threads are blocked, or no more is expected"""
        s = self.s
        limit = time.monotonic() + grace
        with s.cond:
            while len(s.waiting) < count and not self.done and time.monotonic() < limit:
                s.cond.wait(0.001)

    def settle(self, last, width):
        """Wait until the released thread is blocked again, or has finished its download"""
        s = self.s
        with s.cond:
            while last not in s.waiting or s.granted is not None:
                s.cond.wait(0.0004)
                if s.granted is None and last not in s.waiting and not in_cdtb(last):
                    break
        if len(s.seen) < self.tasks:
            # a worker now takes the next download
            self.wait_blocked(min(width, self.tasks - len(s.seen) + len(s.waiting)), None, 0.05)

    def execute(self, prefix, width):
        """Return [(enabled threads, position of the previous one or None, choice)]"""
        trace = []
        thread = threading.Thread(target=self.body, daemon=True)
        thread.start()
        s = self.s
        self.wait_blocked(width, None, 2)
        last_label = None
        while True:
            with s.cond:
                enabled = sorted(s.waiting.items(), key=lambda x: x[1])
            if not enabled:
                if self.done:
                    break
                time.sleep(0.0002)
                continue
            labels = [x[1][0] for x in enabled]
            previous = labels.index(last_label) if last_label in labels else None
            if len(trace) < len(prefix):
                choice = prefix[len(trace)]
                if choice >= len(enabled):
                    choice = len(enabled) - 1
            else:
                choice = previous or 0
            tid, (last_label, what) = enabled[choice]
            trace.append((len(enabled), previous, choice, (last_label, what)))
            with s.cond:
                s.granted = tid
                s.cond.notify_all()
            self.settle(tid, width)
        thread.join(20)
        return trace


FAULTS = {
    'none': None,
    'status': lambda n: ('status', 503),
    'connect': lambda n: ('connect',),
    'cut': lambda n: ('cut', n),
}


def scenario_units(tier):
    deep = tier == 'thorough'
    u = []
    for fault in ('none', 'status', 'connect', 'cut', 'write', 'open'):
        for target in ((0, 1) if fault != 'none' else (0,)):
            for existing in (False, True):
                u.append({'tasks': 2, 'fault': fault, 'target': target, 'existing': existing, 'preemptions': 99, 'horizon': 999})
    for existing in (False, True):
        u.append({'tasks': 3, 'fault': 'none', 'target': 0, 'existing': existing, 'preemptions': 3 if deep else 1, 'horizon': 999})
    for fault in ('status', 'cut', 'write'):
        for target in range(3):
            u.append({'tasks': 3, 'fault': fault, 'target': target, 'existing': False, 'preemptions': 2 if deep else 1, 'horizon': 999})
    for fault in ('none', 'status'):
        u.append({'tasks': 10, 'fault': fault, 'target': 4, 'existing': False, 'preemptions': 2 if deep else 1, 'horizon': 999})
    return u


def units(tier):
    out = []
    for u in scenario_units(tier):
        u['deviations'] = u['tasks'] == 10
        u['parts'] = 4 if u['tasks'] == 2 else 24 if u['fault'] == 'none' else 8
        out += [{**u, 'part': i} for i in range(u['parts'])]
    return out


def run(unit, ctx):
    fsx.install()
    n = unit['tasks']
    chunks = {i + 1: b'chunk %d' % i * (i + 1) for i in range(n)}
    bundles = {0xB0 + i: [i + 1] for i in range(n)}
    width = [min(n, 8)]
    with ctx.tmp() as tmp:
        world.reset_net()
        cdn = CDN(chunks, bundles)
        cdn.manifest(0xA1, [(f"d/{i}", [i + 1], None, None) for i in range(n)] + [('all', list(chunks), None, None)])
        cdn.publish()
        base = f"{tmp}/cdn"
        world.write_release(base, TS, game=0xA1)
        PatcherStorage(base).download_manifest(world.manifest_url(0xA1))
        if unit['existing']:
            os.makedirs(f"{base}/channels/public/bundles")
        initial = fsx.snapshot(base)
        wanted = {f"{b:016X}.bundle": net.routes[world.bundle_url(b)] for b in bundles}
        target = f"{0xB0 + unit['target']:016X}.bundle"

        def one(prefix):
            shutil.rmtree(f"{base}/channels/public/bundles", ignore_errors=True)
            if unit['existing']:
                os.makedirs(f"{base}/channels/public/bundles")
            net.log.clear()
            s = Scheduler()
            release = PatcherRelease(PatcherStorage(base), TS)
            elem = release.element('game')
            elem.manif
            if unit['fault'] in FAULTS and unit['fault'] != 'none':
                net.fault = lambda index, method, url, body: FAULTS[unit['fault']](len(body) // 2) if url.endswith(target) else None
            failing = unit['fault']

            def decide(index, op, path, size):
                if op == failing and s.labels.get(threading.get_ident()) == target:
                    return ('raise', fsx.enospc())

            net.before, net.after = s.request_point, s.response_point
            c = fsx.Controller(base, decide, s.fs_point)
            r = Run(elem.download_bundles, s, n)
            try:
                with fsx.active(c):
                    trace = r.execute(prefix, width[0])
            finally:
                s.close()
                net.before = net.after = net.fault = None
            ctx.check(r.done, 'the download does not end')
            folder = f"{base}/channels/public/bundles"
            got = {k: x[1] for k, x in fsx.snapshot(folder).items()} if os.path.isdir(folder) else {}
            names = [u.rsplit('/', 1)[1] for u in net.gets()]
            ctx.check(len(set(names)) == len(names), f"bundles requested several times: {names}")
            if failing == 'none':
                if r.error is not None:
                    raise r.error
                ctx.equal(got, wanted, 'bundles')
            else:
                ctx.check(r.error is not None, 'the failure is not reported')
                ctx.check(isinstance(r.error, OSError), f"unexpected failure: {r.error!r}")
                for k, v in got.items():
                    ctx.equal(v, wanted.get(k), f"bundle {k} after a failure")
                net.log.clear()
                PatcherRelease(PatcherStorage(base), TS).element('game').download_bundles()
                ctx.equal({k: x[1] for k, x in fsx.snapshot(folder).items()}, wanted, 'bundles after the next run')
                ctx.equal(sorted(u.rsplit('/', 1)[1] for u in net.gets()), sorted(set(wanted) - set(got)), 'requests of the next run')
            return trace

        def cost_of(previous, choice):
            # preemptions, or any deviation from the default order
            return choice != (previous or 0) if unit['deviations'] else previous is not None and choice != previous

        # calibration: number of concurrent downloads
        with ctx.case({**unit, 'calibration': True}):
            trace = one([])
            width[0] = max(x[0] for x in trace)
            ctx.maxi('concurrent downloads', width[0])

        runs = [0]
        stack = [[]]
        while stack:
            prefix = stack.pop()
            trace = None
            with ctx.case(lambda: {**unit, 'choices': prefix}):
                trace = one(prefix)
            if trace is None:
                continue
            ctx.trace()
            runs[0] += 1
            if runs[0] % 20 == 0:
                gc.collect()   # ends the threads of previous pools
            steps = [x[3] for x in trace]
            ctx.transition(len(steps))
            for i in range(len(steps)):
                ctx.state((unit['tasks'], unit['fault'], unit['target'], unit['existing'], sorted_state(steps[:i + 1])))
            switches = sum(1 for a, b in zip(steps, steps[1:]) if a[0] != b[0])
            if switches >= n:
                ctx.nontrivial((sorted(unit.items(), key=str), steps))
            ctx.outcome((len(steps), sorted(steps)[:3]))
            cost = branch = 0
            for i, (count, previous, choice, _) in enumerate(trace):
                preempt = cost_of(previous, choice)
                if i >= len(prefix) and i < unit['horizon']:
                    for alt in range(count):
                        if alt == choice:
                            continue
                        extra = cost_of(previous, alt)
                        if cost + extra > unit['preemptions']:
                            continue
                        branch += 1
                        if prefix or branch % unit['parts'] == unit['part']:
                            stack.append([x[2] for x in trace[:i]] + [alt])
                cost += preempt


def sorted_state(steps):
    """State reached: what each download has done, and the order of file-system effects"""
    per = {}
    for b, what in steps:
        per.setdefault(b, []).append(what)
    return (sorted(per.items()), [s for s in steps if s[1] not in ('request', 'response')])
