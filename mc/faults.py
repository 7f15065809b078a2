"""Downloads interrupted at one of their steps: requests, bodies, file-system effects, lines of code.

Each run is a forked process. Its steps are named (kind, target, occurrence), so that the same step
is found again whatever the order of unrelated ones.
"""
import contextlib
import io
import os
import pickle
import re
import shutil
import signal
import sys
import threading
import time

from . import clock, enc, fsx, world
from .http import net
from .world import CDN, RadsCDN
import cdtb
import cdtb.__main__ as cdtb_main
import cdtb.hashes
from cdtb.hashes import HashFile
from cdtb.storage import Storage

CDTB_DIR = os.path.dirname(cdtb.__file__) + '/'
T0 = 1600000000
_TS = re.compile(r'(?<![0-9A-Fa-f])16[0-9]{8}(?![0-9A-Fa-f])')


def normalized(snap):
    """Snapshot with timestamps replaced by their rank; without empty directories and temporary files"""
    files = {k: v for k, v in snap.items() if v != ('d',) and not fsx.is_temporary(k)}
    stamps = sorted({m for k in files for m in _TS.findall(k)})
    names = {s: f"<release {i}>" for i, s in enumerate(stamps)}
    sub = lambda s: _TS.sub(lambda m: names.get(m.group(0), '<unknown release>'), s)
    out = {}
    for k, v in files.items():
        if v[0] == 'f' and k.endswith('latest.timestamp'):
            v = ('f', sub(v[1].decode('latin-1')).encode())
        elif v[0] == 'l':
            v = ('l', sub(v[1]))
        out[sub(k)] = v
    return out


def seen(root):
    """Contents read through links"""
    return {k: v for k, v in fsx.view(root).items() if not fsx.is_temporary(k)}


class Injector:
    """Name the steps of a run, and act on the target one"""

    def __init__(self, root, target=None, action=None):
        self.root, self.target, self.action = root, target, action
        self.counts, self.events = {}, []
        self.lock = threading.Lock()
        self.main = threading.get_ident()
        self.hit = None    # 'main' or 'worker'
        self.left = threading.Event()   # the main thread left the command

    def point(self, kind, name):
        name = _TS.sub('TS', name)
        with self.lock:
            n = self.counts[kind, name] = self.counts.get((kind, name), 0) + 1
            event = (kind, name, n)
            self.events.append(event)
            if event != self.target:
                return None
            self.hit = 'main' if threading.get_ident() == self.main else 'worker'
        return self.action

    def interrupt(self):
        if threading.get_ident() != self.main:
            # Ctrl-C is for the main thread, once it waits for this one, which does not go further
            for _ in range(200):
                frame = sys._current_frames()[self.main]
                if frame.f_code.co_name == 'wait' and frame.f_code.co_filename.endswith('threading.py'):
                    break
                time.sleep(0.001)
            time.sleep(0.001)
            signal.pthread_kill(self.main, signal.SIGINT)
            if not self.left.wait(1):
                return      # the main thread waits for this one, which is not interrupted
            threading.Event().wait(10)      # the process normally exits
            return
        raise KeyboardInterrupt()

    # file-system effects
    def decide(self, index, op, path, size):
        action = self.point(op, os.path.relpath(os.path.abspath(os.fsdecode(path)), self.root))
        if action is None:
            return None
        if action == 'error':
            return ('raise', OSError(5, 'Input/output error'))
        if action == 'full':
            return ('raise', fsx.enospc())
        if action == 'partial':
            return ('partial', fsx.enospc())
        if action == 'partial ctrl-c' and threading.get_ident() == self.main:
            return ('partial', KeyboardInterrupt())
        if action in ('ctrl-c', 'partial ctrl-c'):
            return self.interrupt()
        if action == 'kill':
            os._exit(77)
        if action in ('kill_partial', 'kill_after'):
            return (action,)
        raise AssertionError(action)

    # requests
    def fault(self, index, method, url, body):
        action = self.point(method, url)
        if action is None:
            return None
        if action == 'kill':
            os._exit(77)
        if action == 'ctrl-c':
            return self.interrupt()
        if action == 'cut 0':
            return ('cut', 0)
        if action == 'cut half':
            return ('cut', len(body) // 2)
        if action == 'cut last':
            return ('cut', max(0, len(body) - 1))
        if action in ('connect', 'timeout'):
            return (action,)
        return ('status', int(action))

    # lines of code of the main thread
    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(CDTB_DIR):
            return None
        return self.trace_line

    def trace_line(self, frame, event, arg):
        if event == 'line' and self.point('line', f"{frame.f_code.co_filename[len(CDTB_DIR):]}:{frame.f_lineno} {frame.f_code.co_name}"):
            raise KeyboardInterrupt()
        return self.trace_line


FS_ERRORS = {'write': ['error', 'partial', 'ctrl-c', 'partial ctrl-c'], 'open': ['full', 'ctrl-c'], 'mkdir': ['full', 'ctrl-c']}
FS_KILLS = {'write': ['kill', 'kill_partial', 'kill_after']}
NET_ERRORS = ['403', '500', 'connect', 'timeout', 'cut 0', 'cut half', 'cut last', 'ctrl-c']


def errors_for(event, scenario):
    """Faults of a step, for C01"""
    kind = event[0]
    if kind == 'line':
        return ['ctrl-c']
    if kind == 'GET':
        return NET_ERRORS + scenario.statuses
    if kind == 'HEAD':
        return ['403', '500', 'connect', 'timeout', 'ctrl-c'] + scenario.statuses
    return FS_ERRORS.get(kind, ['error', 'ctrl-c'])


def kills_for(event):
    return ['kill'] if event[0] in ('GET', 'HEAD') else FS_KILLS.get(event[0], ['kill', 'kill_after'])


class one_worker:
    """Thread pools get a single worker, to make runs reproducible (schedules are explored by C05)"""

    def __enter__(self):
        import concurrent.futures
        import multiprocessing.pool as mp
        init = mp.ThreadPool.__init__
        mp.ThreadPool.__init__ = lambda self, processes=None, *args, **kw: init(self, 1, *args, **kw)
        einit = concurrent.futures.ThreadPoolExecutor.__init__
        concurrent.futures.ThreadPoolExecutor.__init__ = lambda self, max_workers=None, *args, **kw: einit(self, 1, *args, **kw)

    def __exit__(self, *exc):
        return False


class Result:
    status = None      # done, raised, interrupted, killed, stuck
    error = ''
    events = ()
    output = ''
    hit = None
    values = None

    def __repr__(self):
        return f"{self.status} {self.error}"


def run(scenario, root, attempt=0, target=None, action=None, lines=False, command=None, again=False):
    """Run a command in a forked process. With `again`, repeat it on the same objects after a failure"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 99
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.setitimer(signal.ITIMER_REAL, 20)
            data = pickle.dumps(_child(scenario, root, attempt, target, action, lines, command, again))
            while data:
                data = data[os.write(w, data):]
            status = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(status)
    os.close(w)
    chunks = []
    with open(r, 'rb') as f:
        while data := f.read(1 << 16):
            chunks.append(data)
    _, code = os.waitpid(pid, 0)
    res = Result()
    if os.WIFSIGNALED(code):
        res.status = 'stuck' if os.WTERMSIG(code) == signal.SIGALRM else f"signal {os.WTERMSIG(code)}"
    elif os.WEXITSTATUS(code) == 77:
        res.status = 'killed'
    elif os.WEXITSTATUS(code) != 0:
        raise AssertionError(f"child failed: {os.WEXITSTATUS(code)}")
    else:
        res.__dict__.update(pickle.loads(b''.join(chunks)))
    return res


def _child(scenario, root, attempt, target, action, lines, command, again):
    tick = [T0 + 1000 + 100 * attempt]

    def now():
        tick[0] += 1
        return float(tick[0])
    clock.fake = now
    os.chdir(root)
    inj = Injector(root, target, action)
    # cyclic garbage keeps no file open
    ctl = fsx.Controller(root, inj.decide)
    net.fault = inj.fault
    net.log = []
    go = command or scenario.go
    state = {}
    runs = []
    with one_worker():
        for i in range(2 if again else 1):
            out, err = io.StringIO(), io.StringIO()
            status, error = 'done', ''
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                with fsx.active(ctl):
                    try:
                        if lines:
                            sys.settrace(inj.trace)
                        try:
                            go(root, state)
                        finally:
                            sys.settrace(None)
                    except SystemExit as e:
                        if e.code:
                            status, error = 'raised', f"exit {e.code}: {err.getvalue()[-200:]}"
                    except KeyboardInterrupt:
                        status = 'interrupted'
                    except Exception as e:
                        status, error = 'raised', f"{type(e).__name__}: {e}"
                    inj.left.set()
            inj.target = None
            runs.append(dict(status=status, error=error, output=_TS.sub('TS', out.getvalue()), hit=inj.hit, events=list(inj.events) if i == 0 else (), snapshot=fsx.snapshot(root) if again else None, seen=seen(root) if again else None))
            if status == 'done':
                break
    res = runs[0]
    res['second'] = runs[1] if len(runs) > 1 else None
    return res


# ---------------------------------------------------------------- scenarios

def data(tag, n):
    """Contents which compress badly, with size classes around the buffer sizes"""
    import hashlib
    out = b''
    while len(out) < n:
        out += hashlib.sha256(f"{tag} {len(out)}".encode()).digest()
    return out[:n]


class Scenario:
    statuses = ['404']
    between = None      # command run between an interrupted one and the next

    def setup(self, root):
        """Initial content, and routes"""

    def go(self, root, state):
        raise NotImplementedError


def cli(*args):
    cdtb_main.main(list(args))


class Patcher(Scenario):
    """A first release was recorded (and downloaded if `old`), then a second one is published"""

    def __init__(self, args, old=True, conf=None, path='cdn', downloaded=True):
        self.args, self.old, self.conf, self.path, self.downloaded = args, old, conf, path, downloaded

    def setup(self, root):
        world.reset_net()
        chunks = {1: data('a', 9000), 2: data('b', 40), 3: data('c', 17000), 4: data('d', 1), 5: data('e', 500),
                  0x11: world.system_yaml('10.1'), 0x12: world.system_yaml('10.2'), 0x21: world.content_metadata('10.1'), 0x22: world.content_metadata('10.2')}
        cdn = CDN(chunks, {0xB1: [1, 2, 0x12], 0xB2: [3, 0x22], 0xB3: [4, 5], 0xB4: [0x11, 0x21]})
        cdn.manifest(0xC1, [('system.yaml', [0x11], None, None), ('a/p.wad', [2, 4], None, None)])
        cdn.manifest(0xA1, [('content-metadata.json', [0x21], None, None), ('DATA/x.wad.client', [1, 2], None, None), ('DATA/y', [5], None, None)])
        cdn.manifest(0xC2, [('system.yaml', [0x12], None, None), ('a/p.wad', [2, 4], None, None), ('a/fr.wad', [4], ['fr_FR'], None), ('a/e', [], None, None)])
        cdn.manifest(0xA2, [('content-metadata.json', [0x22], None, None), ('DATA/x.wad.client', [1, 2], None, None), ('DATA/y', [3, 5], None, None), ('DATA/dup', [3, 5], None, None), ('DATA/l', [], None, 'y')])
        cdn.publish()
        base = f"{root}/{self.path}"
        if self.conf is not None:
            os.makedirs(base)
            with open(f"{base}/cdtb.storage.conf", 'w') as f:
                f.write(self.conf)
        if self.old:
            world.announce(0xC1, 0xA1)
            saved, clock.fake = clock.fake, lambda: T0 + 500.0
            try:
                st = Storage.from_path(base if self.conf else f"patcher:{base}")
                if self.downloaded:
                    for e in st.patch().elements:
                        e.download()
                else:
                    st.fetch_latest_update()
            finally:
                clock.fake = saved
        world.announce(0xC2, 0xA2)

    def go(self, root, state):
        cli(*self.args)


class PatcherObjects(Patcher):
    """The same through objects, kept after a failure"""

    def __init__(self, overwrite=False, **kw):
        super().__init__((), **kw)
        self.overwrite = overwrite

    def setup(self, root):
        super().setup(root)
        if self.overwrite:
            # damaged files, with the right size
            for e in ('DATA/y', 'content-metadata.json'):
                p = f"{root}/cdn/cdtb/releases/live/{T0 + 500}/files/{e}"
                n = os.path.getsize(p)
                os.remove(p)
                with open(p, 'wb') as f:
                    f.write(b'?' * n)

    def go(self, root, state):
        if 'storage' not in state:
            state['storage'] = Storage.from_path(f"patcher:{root}/cdn")
        if self.overwrite:
            if 'release' not in state:
                state['release'] = next(state['storage'].iter_releases())
            state['release'].download_bundles(skip_extracted=False)
            state['release'].extract(overwrite=True)
            return
        if 'patch' not in state:
            state['patch'] = state['storage'].patch()
        for e in state['patch'].elements:
            e.download(langs=False)
            e.download()
            print(*e.relpaths())


class Rads(Scenario):
    """Solutions of which one version is stored"""
    statuses = []     # a file which is not found has a meaning

    def __init__(self, args, old=True, game=False):
        self.args, self.old, self.game = args, old, game

    def cdn(self, n):
        versions = ['0.0.0.9', '0.0.0.10'][:n]
        slns = {'league_client_sln': [], 'lol_game_client_sln': []}
        projects = {}
        for i, v in enumerate(versions):
            slns['league_client_sln'].insert(0, (v, [('league_client', f"0.0.0.{5 + i}", True), ('league_client_fr_fr', '0.0.0.2', False)], [('fr_fr', ['league_client_fr_fr'])]))
            projects['league_client', f"0.0.0.{5 + i}"] = [('a/big.wad', data(f"big{i}", 17000), False), ('system.yaml', world.system_yaml(f"7.{i + 1}"), True), ('a/z.wad', data(f"z{i}", 9000), True), ('empty', b'', False)]
            if self.game:
                slns['lol_game_client_sln'].insert(0, (v, [('lol_game_client', f"0.0.0.{7 + i}", True)], []))
                projects['lol_game_client', f"0.0.0.{7 + i}"] = [('League of Legends.exe', enc.exe(f"7.{i + 1}.190.1"), True), ('b', data('b', 40), True)]
        projects['league_client_fr_fr', '0.0.0.2'] = [('fr.wad', data('fr', 100), False)]
        world.reset_net()
        RadsCDN(slns, projects).publish()

    def setup(self, root):
        if self.old:
            self.cdn(1)
            for e in Storage.from_path(f"rads:{root}/rads").patch().elements:
                e.download()
        self.cdn(2)

    def go(self, root, state):
        cli(*self.args)


class RadsObjects(Rads):
    def __init__(self, **kw):
        super().__init__((), **kw)

    def go(self, root, state):
        if 'storage' not in state:
            state['storage'] = Storage.from_path(f"rads:{root}/rads")
        if 'patch' not in state:
            state['patch'] = state['storage'].patch()
        for e in state['patch'].elements:
            e.download(langs=False)
            e.download()
            print(*sorted(e.relpaths()))


class Hashes(Scenario):
    """Refresh of the lists of hashes"""
    NAMES = ['hashes.binentries.txt', 'hashes.game.txt', 'hashes.lcu.txt', 'hashes.rst.xxh3.txt']
    ALL = ['hashes.binentries.txt', 'hashes.binfields.txt', 'hashes.binhashes.txt', 'hashes.bintypes.txt', 'hashes.game.txt', 'hashes.lcu.txt', 'hashes.rst.txt', 'hashes.rst.xxh64.txt', 'hashes.rst.xxh3.txt']

    def __init__(self, old=True):
        self.old = old

    def setup(self, root):
        world.reset_net()
        for name in self.ALL:
            url = world.HASH_URL + name
            net.routes[url] = data(name, 9000 if 'game' in name else 50)
            net.headers[url] = {'last-modified': 'Mon, 01 Jun 2020 10:00:00 GMT'}
        if self.old:
            os.makedirs(f"{root}/h")
            for i, name in enumerate(self.ALL):
                if i == 2:
                    continue
                with open(f"{root}/h/{name}", 'wb') as f:
                    f.write(b'old ' + name.encode())
                t = 1.7e9 if i % 3 == 0 else 1.5e9
                os.utime(f"{root}/h/{name}", (t, t))

    def go(self, root, state):
        from pathlib import Path
        for mod in (cdtb_main, cdtb.hashes):
            mod.default_hash_dir = Path(f"{root}/h")
        cli('fetch-hashes')


class SaveHashes(Scenario):
    """A list of hashes gets new lines"""

    def setup(self, root):
        world.reset_net()
        os.makedirs(f"{root}/h")
        with open(f"{root}/h/list.txt", 'w') as f:
            for i in range(500):
                f.write(f"{i:016x} some/path/{i:05}.txt\n")

    def go(self, root, state):
        h = HashFile(f"{root}/h/list.txt")
        n = len(h.load())
        for i in range(800):
            h.load()[i] = f"some/path/{i:05}.txt"
        h.save()


class Single(Scenario):
    """A single file downloaded again"""

    def setup(self, root):
        world.reset_net()
        net.routes[world.BASE + 'd/f'] = data('new', 20000)
        net.routes[world.BASE + 'd/g'] = data('g', 10)
        os.makedirs(f"{root}/s/d")
        with open(f"{root}/s/d/f", 'wb') as f:
            f.write(data('old', 15000))

    def go(self, root, state):
        st = state.setdefault('storage', Storage.from_path(f"patcher:{root}/s"))
        st.download('d/g', 'e/g')
        st.download('d/f', None, force=True)
        st.download('d/f', 'copy')


PLAIN = '{"type": "patcher", "use_extract_symlinks": false}'
SCENARIOS = {
    'first patcher download': lambda: Patcher(['download', '-s', 'cdn', 'patch='], old=False),
    'patcher update': lambda: Patcher(['download', '-s', 'cdn', 'patch=']),
    'patcher update without links': lambda: Patcher(['download', '-s', 'cdn', 'game=', 'client='], conf=PLAIN),
    'first patcher download without links': lambda: Patcher(['download', '-s', 'cdn', 'patch='], old=False, conf=PLAIN),
    'default patcher storage': lambda: Patcher(['download', 'game='], old=False),
    'patcher versions': lambda: Patcher(['versions', '-s', 'cdn', 'patch'], downloaded=False),
    'first patcher versions': lambda: Patcher(['versions', '-a', '-s', 'cdn', 'client'], old=False),
    'patcher files': lambda: Patcher(['files', '-s', 'cdn', 'patch=10.2']),
    'patcher objects': lambda: PatcherObjects(),
    'patcher extraction': lambda: PatcherObjects(overwrite=True),
    'first RADS download': lambda: Rads(['download', '-s', 'rads:rads', 'client='], old=False),
    'RADS update': lambda: Rads(['download', '-s', 'rads:rads', 'patch=']),
    'RADS versions': lambda: Rads(['versions', '-a', '-s', 'rads:rads', 'patch'], old=False),
    'RADS game versions': lambda: Rads(['versions', '-a', '-s', 'rads:rads', 'game'], old=False, game=True),
    'RADS objects': lambda: RadsObjects(old=False),
    'first hash refresh': lambda: Hashes(old=False),
    'hash refresh': lambda: Hashes(),
    'hash saving': lambda: SaveHashes(),
    'single files': lambda: Single(),
}
OBJECTS = ['patcher objects', 'patcher extraction', 'RADS objects', 'hash saving', 'single files']


class Stage:
    """A scenario, its initial content and its run without fault"""

    def __init__(self, name, tmp, lines=False):
        self.name, self.tmp = name, tmp
        self.s = SCENARIOS[name]()
        os.mkdir(f"{tmp}/initial")
        # links are relative: the place does not matter
        self.root = f"{tmp}/w"
        os.mkdir(self.root)
        with one_worker():
            self.s.setup(self.root)
        shutil.rmtree(f"{tmp}/initial")
        shutil.copytree(self.root, f"{tmp}/initial", symlinks=True)
        self.initial = normalized(fsx.snapshot(self.root))
        self.initial_seen = seen(self.root)
        self.reference = run(self.s, self.root, lines=lines)
        self.final = normalized(fsx.snapshot(self.root))
        self.final_seen = seen(self.root)

    def restore(self):
        shutil.rmtree(self.root)
        shutil.copytree(f"{self.tmp}/initial", self.root, symlinks=True)

    def complete(self, ctx, snapshot, contents):
        """Every file is complete"""
        now = normalized(snapshot)
        for k, v in now.items():
            if v == self.initial.get(k) or v == self.final.get(k):
                continue
            ctx.fail(f"incomplete file {k}: {str(v)[:60]} ({len(v[1])})" if k in self.initial or k in self.final else f"unexpected file {k}: {str(v)[:60]}")
        for k, v in contents.items():
            if v is None:
                ctx.fail(f"link without its file: {k}")
        return now
