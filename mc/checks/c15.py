"""Hash refresh: every relation between the local and the published lists, every fault; directory selection"""
import contextlib
import importlib
import io
import itertools
import os
import shutil
import sys
import time

import requests

from .. import fsx
from ..http import net
from ..world import HASH_URL

ID = 'C15'
LEVEL = 'model_checking'
RULE = 'distinct (local state, published state, fault) and histories; non-trivial when a list is published'
BOUNDS = {'quick': '14 age relations x 5 contents x 6 time zones x 3 dates; 12 network faults x 5 ages; disk full, Ctrl-C and kill at every file-system step; all histories of 4 steps (publish older, same second, newer; refresh; failed refresh; local edit; local removal); all 9 lists: subsets of outdated ones x failure position; 720 environments; relative directories, links to directories and to lists',
          'thorough': 'histories of 6 steps; subsets of 9 lists'}
ASSUMPTIONS = ['the date of a local list is its modification time, as set when it was written', 'published dates have no fraction of a second (HTTP)', 'a list published while it is being fetched is got by the refresh which follows a later publication']

NAMES = ['hashes.binentries.txt', 'hashes.binfields.txt', 'hashes.binhashes.txt', 'hashes.bintypes.txt', 'hashes.game.txt', 'hashes.lcu.txt', 'hashes.rst.txt', 'hashes.rst.xxh64.txt', 'hashes.rst.xxh3.txt']
ZONES = ['UTC', 'America/Los_Angeles', 'Asia/Kolkata', 'XST+11:30', 'XST-13', 'EST5EDT,M3.2.0,M11.1.0']
DATES = [1_700_000_000, 1_720_000_000, 1_710_064_800]   # winter, summer, day of the change of hour
CONTENTS = [b'', b'0123456789abcdef a/b.c\n', b'01 x\r\n02 \xc3\xa9\n', b'no end', b'x' * 70000]
DAYS, MONTHS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'], ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def http_date(t):
    g = time.gmtime(t)
    return f"{DAYS[g.tm_wday]}, {g.tm_mday:02} {MONTHS[g.tm_mon - 1]} {g.tm_year} {g.tm_hour:02}:{g.tm_min:02}:{g.tm_sec:02} GMT"


def fresh(directory):
    """The modules, as imported with this directory configured"""
    os.environ['CDTB_HASHES_DIR'] = directory
    for name in [n for n in sys.modules if n == 'cdtb' or n.startswith('cdtb.')]:
        del sys.modules[name]
    return importlib.import_module('cdtb.hashes')


@contextlib.contextmanager
def zone(name):
    saved = os.environ.get('TZ')
    os.environ['TZ'] = name
    time.tzset()
    try:
        yield
    finally:
        if saved is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = saved
        time.tzset()


NAME = 'hashes.game.txt'
URL = HASH_URL + NAME


def publish(name, data, date):
    net.routes[HASH_URL + name] = data
    net.headers[HASH_URL + name] = {'Last-Modified': http_date(date)} if date is not None else {}


def write(path, data, mtime):
    with open(path, 'wb') as f:
        f.write(data)
    os.utime(path, ns=(int(mtime * 1000) * 1_000_000,) * 2)


def state(directory):
    return {n: (v, os.stat(f"{directory}/{n}").st_mtime_ns) for n, v in fsx.snapshot(directory).items()}


def units(tier):
    u = [{'part': 'ages', 'zone': z} for z in ZONES]
    u += [{'part': p} for p in ('net', 'fs', 'dirs', 'places')]
    k = 4 if tier == 'quick' else 16
    u += [{'part': 'history', 'k': i, 'n': k} for i in range(k)]
    u += [{'part': 'command', 'k': i, 'n': 4} for i in range(4)]
    return u


def run(unit, ctx):
    fsx.install()
    with ctx.tmp() as tmp:
        d = f"{tmp}/h"
        os.mkdir(d)
        hmod = fresh(d)
        globals()[f"run_{unit['part']}"](unit, ctx, d, hmod)


def clear(d):
    for n in os.listdir(d):
        os.remove(f"{d}/{n}")


def expect_requests(ctx, exp):
    ctx.equal(net.log, [(m, URL) for m in exp], 'requests')


def run_ages(unit, ctx, d, hmod):
    ages = [None, -10**6, -3601, -3600, -1, -0.5, -0.001, 0, 0.001, 0.999, 1, 3599, 3600, 10**6]
    with zone(unit['zone']):
        for date, age, local, remote in itertools.product(DATES, ages, CONTENTS, CONTENTS):
            if age is None and local:
                continue
            with ctx.case({'zone': unit['zone'], 'published': date, 'local - published': age, 'local': local[:40], 'remote': remote[:40]}):
                clear(d)
                net.reset()
                publish(NAME, remote, date)
                if age is not None:
                    write(f"{d}/{NAME}", local, date + age)
                before = state(d)
                t0 = time.time()
                hmod.update_default_hashfile(NAME)
                if age is not None and age >= 0:
                    expect_requests(ctx, ['HEAD'])
                    ctx.equal(state(d), before, 'local list (up to date)')
                else:
                    expect_requests(ctx, ['GET'] if age is None else ['HEAD', 'GET'])
                    ctx.equal(fsx.snapshot(d), {NAME: ('f', remote)}, 'local list (outdated)')
                    # the next refresh has nothing to do
                    after = state(d)
                    ctx.check(after[NAME][1] >= int((t0 - 1) * 1e9) or after[NAME][1] >= date * 10**9, 'the updated list is older than the published one')
                    net.log = []
                    hmod.update_default_hashfile(NAME)
                    expect_requests(ctx, ['HEAD'])
                    ctx.equal(state(d), after, 'local list, after another refresh')
                ctx.nontrivial((date, age, local, remote))
                ctx.state((age, local, remote))
                ctx.transition(2)
                ctx.trace()


def run_net(unit, ctx, d, hmod):
    faults = [('status', 404), ('status', 500), ('status', 403), ('connect',), ('timeout',), ('interrupt',), ('cut', 0), ('cut', 5), ('cut', 10**9)]
    for age, fault, at, local in itertools.product([None, -10**6, -1, 0, 10**6], faults, ('HEAD', 'GET'), CONTENTS[:2]):
        if age is None and local:
            continue
        with ctx.case({'local - published': age, 'fault': fault, 'at': at, 'local': local}):
            clear(d)
            net.reset()
            publish(NAME, CONTENTS[1] * 3, DATES[0])
            if age is not None:
                write(f"{d}/{NAME}", local, DATES[0] + age)
            before = state(d)
            hit = []

            def inject(index, method, url, body):
                if method == at and not hit:
                    hit.append(1)
                    return fault
            net.fault = inject
            reached = at == 'HEAD' and age is not None and fault[0] != 'cut' or at == 'GET' and (age is None or age < 0)
            err = None
            try:
                hmod.update_default_hashfile(NAME)
            except (requests.RequestException, KeyboardInterrupt) as e:
                err = e
            ctx.equal(err is not None, reached, 'an error is reported')
            if reached:
                ctx.equal(state(d), before, 'local list after a failed refresh')
            # without fault
            net.fault = None
            hmod.update_default_hashfile(NAME)
            ctx.equal(fsx.snapshot(d), {NAME: ('f', CONTENTS[1] * 3 if age is None or age < 0 else local)}, 'local list after the next refresh')
            ctx.nontrivial((age, fault, at, local))
            ctx.transition(2)
            ctx.trace()
    for value in (None, '', 'yesterday'):
        with ctx.case({'last-modified': value}):
            clear(d)
            net.reset()
            publish(NAME, b'new', None)
            if value is not None:
                net.headers[URL] = {'Last-Modified': value}
            write(f"{d}/{NAME}", b'old', DATES[0])
            before = state(d)
            try:
                hmod.update_default_hashfile(NAME)
            except Exception:
                pass
            else:
                ctx.fail('no error without a date')
            ctx.equal(state(d), before, 'local list after a failed refresh')
            clear(d)
            hmod.update_default_hashfile(NAME)
            ctx.equal(fsx.snapshot(d), {NAME: ('f', b'new')}, 'local list (was absent)')
            ctx.nontrivial(value)


def run_fs(unit, ctx, d, hmod):
    """Write errors, Ctrl-C and kills at each step"""
    faults = {'disk full': lambda: ('raise', fsx.enospc()), 'ctrl-c': lambda: ('raise', KeyboardInterrupt()), 'partial': lambda: ('partial', fsx.enospc()),
              'kill': lambda: ('kill',), 'kill in write': lambda: ('kill_partial',), 'kill after': lambda: ('kill_after',)}
    for local, size, fault in itertools.product((None, b'old list\n'), (10, 40000), faults):
        new = b'n' * size
        for step in range(40):
            done = []
            with ctx.case({'local': local, 'size': size, 'fault': fault, 'step': step}):
                clear(d)
                net.reset()
                publish(NAME, new, DATES[0])
                if local is not None:
                    write(f"{d}/{NAME}", local, DATES[0] - 50)
                before = state(d)
                hit = []

                def decide(i, op, path, size):
                    if i == step and not (fault == 'disk full' and op in ('remove', 'unlink')) and not (fault in ('partial', 'kill in write') and op != 'write'):
                        hit.append(op)
                        return faults[fault]()
                c = fsx.Controller(d, decide)

                def go():
                    with fsx.active(c):
                        hmod.update_default_hashfile(NAME)
                if fault.startswith('kill'):
                    code = fsx.run_killed(go)
                    done.append(code == 0 and step > 6)
                    got = {n: v for n, v in fsx.snapshot(d).items() if not fsx.is_temporary(n)}
                    if code == 77:
                        ctx.check(got in ({NAME: ('f', new)}, {n: v[0] for n, v in before.items()}), lambda: f"local list after a kill: {got}")
                else:
                    try:
                        go()
                    except (OSError, KeyboardInterrupt):
                        ctx.check(hit, 'unexpected error')
                        if len(c.log) and c.log[step][0] not in ('remove', 'unlink'):
                            ctx.equal(state(d), before, 'local list after a failed refresh')
                    else:
                        ctx.check(not hit or c.log[step][0] in ('mkdir', 'remove', 'unlink'), 'the error is not reported')
                        ctx.equal(fsx.snapshot(d), {NAME: ('f', new)}, 'local list')
                    done.append(len(c.log) <= step)
                hmod.update_default_hashfile(NAME)
                got = {n: v for n, v in fsx.snapshot(d).items() if not fsx.is_temporary(n)}
                ctx.equal(got, {NAME: ('f', new)}, 'local list after the next refresh')
                ctx.nontrivial((local, size, fault, step))
                ctx.transition(2)
                ctx.trace()
            if done and done[0]:
                break


EVENTS = ['newer', 'same', 'older', 'refresh', 'head fails', 'get fails', 'edit', 'remove']


def run_history(unit, ctx, d, hmod):
    """Histories of publications and refreshes, against the model"""
    depth = 4 if ctx.tier == 'quick' else 6
    n = -1
    for seq in itertools.product(EVENTS, repeat=depth):
        n += 1
        if n % unit['n'] != unit['k']:
            continue
        if any(a == b and a in ('edit', 'remove', 'refresh') for a, b in zip(seq, seq[1:])) or 'refresh' not in seq:
            continue
        with ctx.case({'history': seq}):
            clear(d)
            net.reset()
            serial = 0
            pub, date = b'list 0\n', DATES[0]
            publish(NAME, pub, date)
            local = None   # (content, mtime in ns)
            for ev in seq:
                net.fault = None
                net.log = []
                serial += 1
                if ev in ('newer', 'same', 'older'):
                    base = local[1] // 10**9 if local else date
                    date = base + {'newer': 1, 'same': 0, 'older': -100}[ev]
                    pub = b'list %d\n' % serial
                    publish(NAME, pub, date)
                elif ev == 'edit':
                    write(f"{d}/{NAME}", b'edited %d\n' % serial, date + 0.25)
                    local = (b'edited %d\n' % serial, os.stat(f"{d}/{NAME}").st_mtime_ns)
                elif ev == 'remove':
                    clear(d)
                    local = None
                else:
                    if ev != 'refresh':
                        net.fault = lambda i, method, url, body: ('status', 503) if method == ev.split()[0].upper() else None
                    outdated = local is None or local[1] < date * 10**9
                    calls = ([] if local is None else ['HEAD']) + (['GET'] if outdated else [])
                    fails = ev != 'refresh' and ev.split()[0].upper() in calls
                    try:
                        hmod.update_default_hashfile(NAME)
                        ctx.check(not fails, 'a failed refresh is not reported')
                    except requests.HTTPError:
                        ctx.check(fails, 'a refresh fails')
                    if fails and ev == 'head fails':
                        calls = ['HEAD']
                    expect_requests(ctx, calls)
                    if outdated and not fails:
                        got = state(d)
                        ctx.equal({k: v[0] for k, v in got.items()}, {NAME: ('f', pub)}, 'refreshed list')
                        # dates of the next steps are relative to this one
                        local = (pub, got[NAME][1])
                ctx.equal(state(d), {} if local is None else {NAME: (('f', local[0]), local[1])}, f"local list after {ev}")
                ctx.transition()
                ctx.state((None if local is None else (local[0] == pub, (local[1] > date * 10**9) - (local[1] < date * 10**9)), ev))
            ctx.nontrivial(seq)
            ctx.trace()


def run_command(unit, ctx, d, hmod):
    main = importlib.import_module('cdtb.__main__').main
    names = NAMES
    patterns = []
    if ctx.tier == 'thorough':
        for bits in range(512):
            patterns.append([('old' if bits >> i & 1 else 'recent') for i in range(9)])
    for combo in itertools.product(('old', 'recent', 'absent'), repeat=3):
        patterns.append([combo[i % 3] for i in range(9)])
        patterns.append([combo[i // 3] for i in range(9)])
    n = -1
    for pattern in patterns:
        for fail in [None] + list(range(9)):
            n += 1
            if n % unit['n'] != unit['k']:
                continue
            if ctx.tier == 'thorough' and fail is not None and n % 5:
                continue
            with ctx.case({'lists': pattern, 'failing': fail}):
                clear(d)
                net.reset()
                if all(p == 'absent' for p in pattern):
                    os.rmdir(d)
                for name, p in zip(names, pattern):
                    publish(name, b'new ' + name.encode(), DATES[0])
                    if p != 'absent':
                        write(f"{d}/{name}", b'local ' + name.encode(), DATES[0] + {'old': -1, 'recent': 1}[p])
                if fail is not None:
                    net.fault = lambda i, method, url, body: ('status', 500) if url.endswith('/' + names[fail]) else None
                out = io.StringIO()
                try:
                    with contextlib.redirect_stdout(out):
                        main(['fetch-hashes'])
                    ctx.check(fail is None, 'a failure is not reported')
                except requests.HTTPError:
                    ctx.check(fail is not None, 'unexpected failure')
                ctx.check(d in out.getvalue(), 'the directory is not printed')
                got = fsx.snapshot(d)
                new = {name for name in names if got.get(name) == ('f', b'new ' + name.encode())}
                for i, (name, p) in enumerate(zip(names, pattern)):
                    local = None if p == 'absent' else ('f', b'local ' + name.encode())
                    if p == 'recent' or i == fail:
                        ctx.equal(got.get(name), local, f"list {name}")
                    elif fail is None:
                        ctx.check(name in new, f"{name} is not updated")
                    else:
                        ctx.check(name in new or got.get(name) == local, f"{name} is damaged")
                ctx.equal(set(got) - set(names), set(), 'other files')
                if fail is not None:
                    net.fault = None
                    with contextlib.redirect_stdout(out):
                        main(['fetch-hashes'])
                    for name, p in zip(names, pattern):
                        ctx.equal(fsx.snapshot(d).get(name), ('f', (b'local ' if p == 'recent' else b'new ') + name.encode()), f"list {name} after the next refresh")
                # lists are those which are loaded
                if fail is None:
                    ctx.equal([os.fspath(hmod.hashfile_lcu.filename), os.fspath(hmod.hashfile_game.filename)], [f"{d}/hashes.lcu.txt", f"{d}/hashes.game.txt"], 'default lists')
                ctx.nontrivial((pattern, fail))
                ctx.transition(2)
                ctx.trace()


def run_places(unit, ctx, d, hmod):
    """Directories given by relative paths, links to directories and to lists"""
    tmp, cwd = os.path.dirname(d), os.getcwd()
    try:
        for place, exists, local, linked in itertools.product(('.', 'r', './r/s', '../w/r', 'r/..', 'k', 'k/x', f"{tmp}/w/k"), (False, True), (None, -1, 1), (False, True)):
            if not exists and (local is not None or linked) or linked and local is None:
                continue
            with ctx.case({'directory': place.replace(tmp, 'TMP'), 'exists': exists, 'local - published': local, 'lists are links': linked}):
                os.chdir(cwd)
                for n in ('w', 'o'):
                    shutil.rmtree(f"{tmp}/{n}", ignore_errors=True)
                    os.makedirs(f"{tmp}/{n}")
                os.makedirs(f"{tmp}/o/lists")
                if place != '.':
                    os.makedirs(f"{tmp}/w/r")   # (for r/..)
                    os.symlink(f"../o", f"{tmp}/w/k")
                    if place == 'r':
                        os.rmdir(f"{tmp}/w/r")
                os.chdir(f"{tmp}/w")
                net.reset()
                if exists:
                    os.makedirs(place, exist_ok=True)
                for i, name in enumerate(NAMES):
                    publish(name, b'new ' + name.encode(), DATES[0])
                    if local is not None and i % 2:
                        write(f"{tmp}/o/lists/{i}" if linked else f"{place}/{name}", b'local ' + name.encode(), DATES[0] + local)
                        if linked:
                            os.symlink(f"{tmp}/o/lists/{i}", f"{place}/{name}")
                fresh(place)
                mod = importlib.import_module('cdtb.hashes')
                with contextlib.redirect_stdout(io.StringIO()):
                    importlib.import_module('cdtb.__main__').main(['fetch-hashes'])
                for i, name in enumerate(NAMES):
                    exp = (b'local ' if local == 1 and i % 2 else b'new ') + name.encode()
                    with open(f"{place}/{name}", 'rb') as f:
                        ctx.equal(f.read(), exp, f"list {name}")
                    if linked and i % 2:
                        ctx.check(os.path.islink(f"{place}/{name}"), f"{name} is not a link anymore")
                        with open(f"{tmp}/o/lists/{i}", 'rb') as f:
                            ctx.equal(f.read(), exp, f"list linked by {name}")
                where = os.path.realpath(place)
                ctx.equal({os.path.realpath(h.filename) for h in (mod.hashfile_lcu, mod.hashfile_game)}, {os.path.realpath(f"{where}/hashes.{n}.txt") for n in ('lcu', 'game')}, 'default lists')
                extra = [n for n in os.listdir(place) if n not in (*NAMES, 'r', 'k', 'lists', 'x')]
                ctx.equal(extra, [], 'other files')
                ctx.nontrivial((place, exists, local, linked))
                ctx.transition()
    finally:
        os.chdir(cwd)


def run_dirs(unit, ctx, d, hmod):
    saved = {k: os.environ.get(k) for k in ('CDTB_HASHES_DIR', 'CDRAGON_DATA', 'XDG_DATA_HOME', 'LOCALAPPDATA', 'HOME')}
    home = f"{os.path.dirname(d)}/home"
    try:
        for a, b, x, l, h, made in itertools.product((None, '', '/one/a', 'rel/a'), (None, '', '/two/b'), (None, '', '/x/data', 'rel/x', '.'), (None, '', '/local'), (home, '/elsewhere'), (False, True)):
            with ctx.case({'CDTB_HASHES_DIR': a, 'CDRAGON_DATA': b, 'XDG_DATA_HOME': x, 'LOCALAPPDATA': l, 'HOME': h, 'exists': made}):
                for k, v in zip(('CDTB_HASHES_DIR', 'CDRAGON_DATA', 'XDG_DATA_HOME', 'LOCALAPPDATA', 'HOME'), (a, b, x, l, h)):
                    if v is None:
                        os.environ.pop(k, None)
                    else:
                        os.environ[k] = v
                if made:
                    os.makedirs(f"{home}/.local/share/cdragon/data/hashes/lol", exist_ok=True)
                for name in [n for n in sys.modules if n == 'cdtb' or n.startswith('cdtb.')]:
                    del sys.modules[name]
                got = os.fspath(importlib.import_module('cdtb.hashes').default_hash_dir)
                tail = 'cdragon/data/hashes/lol'
                if a:
                    exp = a
                elif b:
                    exp = f"{b}/hashes/lol"
                elif x and x.startswith('/'):
                    exp = f"{x}/{tail}"
                elif l:
                    exp = f"{l}/{tail}"
                else:
                    exp = f"{h}/.local/share/{tail}"
                ctx.equal(got, exp, 'directory of the lists')
                ctx.nontrivial((a, b, x, l, h))
                ctx.outcome(got)
    finally:
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
