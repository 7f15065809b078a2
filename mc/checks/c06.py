"""Release tracking: all histories of publications and polls on two patchlines (breadth-first search)"""
import itertools
import json
import os
import re
import shutil

from .. import clock, fsx, world
from ..http import net
from ..world import CDN
from cdtb.patcher import PatcherStorage

ID = 'C06'
LEVEL = 'model_checking'
RULE = 'distinct (recorded releases, operation) transitions; non-trivial when a release is already recorded'
BOUNDS = {'quick': 'all sequences of 4 polls over 2 patchlines x 4 published pairs, or failing in one of 6 ways (3 polls with other files or an orphan directory there); all sequences of 3 polls through the list of patches; all sequences of 3 polls of a patchline x 3 published pairs, each complete or stopped by a kill or a disk error at each of its file-system effects',
          'thorough': 'all sequences of 6 polls (4 through the list of patches, 4 with stopped ones)'}
ASSUMPTIONS = ['the clock increases by at least one second between two polls']

LINES = ('live', 'pbe')
PAIRS = list(itertools.product((1, 2), (1, 2)))
FAULTS = ['client status', 'client connect', 'game status', 'game cut', 'no region', 'two versions']
MIDS = {('live', 1): 0x11, ('live', 2): 0x12, ('pbe', 1): 0x21, ('pbe', 2): 0x22}
GMIDS = {k: v + 0x100 for k, v in MIDS.items()}
INITIAL = {
    'empty': {},
    'other files': {'cdtb/releases/live/readme.txt': b'x', 'cdtb/releases/live/old/release.json': b'{}', 'cdtb/releases/pbe/1/other.json': b'{}', 'cdtb/releases/5': b'not a patchline', 'channels/public/x': b''},
    'orphan directory': {'cdtb/releases/live/2000000000/files/a': b'x', 'cdtb/releases/pbe/2000000000/patch_version.game': b'main\n'},
}
START = 999999998


def url(line, kind, n):
    return world.manifest_url((MIDS if kind == 'client' else GMIDS)[line, n])


class World:
    def __init__(self, ctx, tmp, patches):
        self.ctx, self.tmp, self.patches = ctx, tmp, patches
        self.path = f"{tmp}/cdn"
        world.reset_net()
        if patches:
            chunks, bundles = {}, {}
            for i, (k, mid) in enumerate([*MIDS.items(), *GMIDS.items()]):
                chunks[mid] = world.system_yaml(f"9.{k[1]}") if mid < 0x100 else world.content_metadata(f"9.{k[1]}")
                bundles[mid] = [mid]
            cdn = CDN(chunks, bundles)
            for mid in chunks:
                cdn.manifest(mid, [('system.yaml' if mid < 0x100 else 'content-metadata.json', [mid], None, None)])
            cdn.publish()

    def announce(self, line, pair, fault):
        world._announced.clear()
        for other in LINES:
            world.announce(MIDS[other, pair[0] if other == line else 1], GMIDS[other, pair[1] if other == line else 1], other)
        curl = world.quoted(world.CLIENT_URL)
        if fault == 'no region':
            data = json.loads(net.routes[curl])
            for c in data[f"keystone.products.league_of_legends.patchlines.{line}"]['platforms']['win']['configurations']:
                c['id'] = 'NA'
            net.routes[curl] = json.dumps(data).encode()
        gurl = world.quoted(world.game_url('EUW1' if line == 'live' else 'PBE1'))
        if fault == 'two versions':
            data = json.loads(net.routes[gurl])
            net.routes[gurl] = json.dumps({'releases': data['releases'] * 2}).encode()
        net.fault = None
        if fault and fault.split()[0] in ('client', 'game') and fault != 'no region':
            target = curl if fault.startswith('client') else gurl
            action = {'status': ('status', 503, 'same body'), 'connect': ('connect',), 'cut': ('cut', 20)}[fault.split()[1]]
            net.fault = lambda index, method, u, body: action if u == target else None

    def restore(self, snap):
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)
        for p, x in snap.items():
            os.makedirs(os.path.dirname(f"{self.path}/{p}"), exist_ok=True)
            if x[0] == 'd':
                os.makedirs(f"{self.path}/{p}", exist_ok=True)
            elif x[0] == 'l':
                os.symlink(x[1], f"{self.path}/{p}")
            else:
                with open(f"{self.path}/{p}", 'wb') as f:
                    f.write(x[1])

    def poll(self, line):
        storage = PatcherStorage(self.path, line)
        if self.patches:
            return [(str(p.version), sorted(e.name for e in p.elements)) for p in storage.patches()]
        storage.fetch_latest_update()

    def recorded(self):
        return {line: [(r.data['client_patch_url'], r.data['game_patch_url']) for r in PatcherStorage(self.path, line).iter_releases()] for line in LINES}


def ranked(snap):
    """Snapshot with timestamps replaced by their rank"""
    text = repr(sorted((k, v) for k, v in snap.items()))
    stamps = sorted({int(m) for m in STAMP.findall(text)})
    return STAMP.sub(lambda m: f"<{stamps.index(int(m.group(0)))}>", text)


STAMP = re.compile(r'(?<!\d)(?:99999999\d|10000000\d\d)(?!\d)')
STOPS = ('kill', 'kill_partial', 'error')


def run_stops(unit, ctx, tmp):
    """Polls stopped at any point"""
    w = World(ctx, tmp, False)
    w.announce('live', (1, 1), None)
    os.makedirs(w.path)
    line = 'live'
    pairs = [(1, 1), (2, 1), (2, 2)]
    ops = [(pair, kind, step) for pair in pairs for kind, step in [(None, 0), *itertools.product(STOPS, range(8))]]
    frontier = [(fsx.snapshot(w.path), (), False, ())]
    for depth in range(unit['depth']):
        nxt = []
        # the last levels are shared between units
        for i, (snap, model, dirty, trace) in enumerate(frontier):
            if depth == 2 and i % unit['parts'] != unit['part']:
                continue
            for pair, kind, step in ops:
                reached = kind is None
                result = None
                with ctx.case(lambda: {'polls ((client, game), stop, effect)': [*trace, (pair, kind, step)]}):
                    w.restore(snap)
                    clock.fake = lambda t=START + 2 * depth + 0.7: t
                    new = (url(line, 'client', pair[0]), url(line, 'game', pair[1]))
                    status = 'done'
                    hit = []

                    def decide(index, op, path, size):
                        if kind is None or index != step or kind == 'kill_partial' and op != 'write' or kind == 'error' and op in ('remove', 'unlink'):
                            return None
                        hit.append(op)
                        return ('raise', OSError(28, 'No space left on device')) if kind == 'error' else (kind,)
                    try:
                        w.announce(line, pair, None)
                        ctx.transition()
                        if kind in ('kill', 'kill_partial'):
                            def go():
                                with fsx.active(fsx.Controller(w.path, decide)):
                                    w.poll(line)
                            status = {0: 'done', 77: 'killed'}.get(fsx.run_killed(go), 'failed')
                            reached = status == 'killed'
                        else:
                            try:
                                with fsx.active(fsx.Controller(w.path, decide)):
                                    w.poll(line)
                            except OSError:
                                status = 'failed'
                            reached = kind is None or status == 'failed'
                            ctx.check(hit or status == 'done', 'unexpected error')
                    finally:
                        clock.fake = None
                    after = fsx.snapshot(w.path)
                    recorded = w.recorded()[line]
                    updated = (new, *model) if model[:1] != (new,) else model
                    if reached and kind is not None:
                        ctx.check(tuple(recorded) in (model, updated), lambda: f"recorded releases after a stopped poll: {recorded}, from {model} and {new}")
                    else:
                        ctx.equal(tuple(recorded), updated, 'recorded releases')
                        files = lambda s: {k: v for k, v in s.items() if not fsx.is_temporary(k)}
                        if updated == model and not dirty:
                            ctx.equal(files(after), files(snap), 'storage after a poll without new release')
                    former = {k: v for k, v in snap.items() if k.endswith('/release.json')}
                    ctx.equal({k: v for k, v in after.items() if k in former}, former, 'former releases')
                    ctx.nontrivial((pair, kind, step, dirty, model, trace))
                    ctx.outcome((kind, status, len(recorded), dirty))
                    result = tuple(recorded)
                # stops after the last effect are not different from none
                if result is not None and reached:
                    content = ranked(after)
                    if depth + 1 < unit['depth'] and ctx.state(content):
                        nxt.append((after, result, kind is not None, (*trace, (pair, kind, step))))
                        ctx.trace()
        frontier = nxt


def run(unit, ctx):
    fsx.install()
    with ctx.tmp() as tmp:
        if unit.get('stops'):
            return run_stops(unit, ctx, tmp)
        w = World(ctx, tmp, unit['patches'])
        for p, data in INITIAL[unit['initial']].items():
            os.makedirs(os.path.dirname(f"{w.path}/{p}"), exist_ok=True)
            with open(f"{w.path}/{p}", 'wb') as f:
                f.write(data)
        os.makedirs(w.path, exist_ok=True)
        ops = [(line, pair, None) for line in LINES for pair in PAIRS] + [(line, (2, 2), fault) for line in LINES for fault in FAULTS]
        model = {line: () for line in LINES}
        frontier = [(fsx.snapshot(w.path), model, ())]
        for depth in range(unit['depth']):
            nxt = []
            for snap, model, trace in frontier:
                for n, op in enumerate(ops):
                    if depth == 0 and n != unit['first']:
                        continue
                    line, pair, fault = op
                    result = None
                    with ctx.case(lambda: {'polls (patchline, (client, game), failure)': [*trace, op], 'initial directory': unit['initial'], 'through the list of patches': unit['patches']}):
                        w.restore(snap)
                        clock.fake = lambda t=START + 2 * depth + 0.7: t
                        try:
                            w.announce(line, pair, fault)
                            ctx.transition()
                            before = fsx.snapshot(w.path)
                            listed, failed = None, None
                            try:
                                listed = w.poll(line)
                            except Exception as e:
                                failed = e
                        finally:
                            clock.fake = None
                            net.fault = None
                        after = fsx.snapshot(w.path)
                        new = (url(line, 'client', pair[0]), url(line, 'game', pair[1]))
                        if fault:
                            ctx.check(failed is not None, 'the failure is not reported')
                            ctx.equal(after, before, 'storage after a failed poll')
                            result = model
                        else:
                            if failed is not None:
                                raise failed
                            if model[line] and model[line][0] == new:
                                result = model
                                if not unit['patches']:
                                    ctx.equal(after, before, 'storage after a poll without new release')
                            else:
                                result = {**model, line: (new, *model[line])}
                        ctx.equal(w.recorded(), {k: list(v) for k, v in result.items()}, 'recorded releases')
                        release_files = {k: v for k, v in before.items() if k.endswith('/release.json')}
                        ctx.equal({k: v for k, v in after.items() if k in release_files}, release_files, 'former releases')
                        ctx.equal({k: v for k, v in after.items() if k in INITIAL[unit['initial']]}, {k: ('f', v) for k, v in INITIAL[unit['initial']].items()}, 'other files')
                        if listed is not None:
                            seen = []
                            if line == 'pbe':
                                seen = [('main', ['client', 'game'])] if result[line] else []
                                ctx.equal(listed, seen, 'patches')
                        if model[line]:
                            ctx.nontrivial((unit['initial'], unit['patches'], sorted(model.items()), op))
                        ctx.outcome((len(result['live']), len(result['pbe']), fault))
                    if result is not None and ctx.state((unit['initial'], unit['patches'], sorted(result.items()))):
                        nxt.append((after, result, (*trace, op)))
                        ctx.trace()
            frontier = nxt
        if unit['first'] == 0 and not unit['patches']:
            run_conf(ctx, w)


def run_conf(ctx, w):
    """Client configuration taken from a file or another URL"""
    for line, kind in itertools.product(LINES, ('file', 'http', 'https', 'missing file')):
        with ctx.case({'patchline': line, 'client configuration': kind}):
            w.restore({})
            w.announce(line, (1, 1), None)
            data = net.routes.pop(world.quoted(world.CLIENT_URL))
            storage = PatcherStorage.from_conf_data({'path': w.path, 'patchline': line, 'clientconfig_data': {'file': f"{w.tmp}/conf.json", 'http': 'http://example.com/c', 'https': 'https://example.com/c', 'missing file': f"{w.tmp}/missing.json"}[kind]})
            with open(f"{w.tmp}/conf.json", 'wb') as f:
                f.write(data)
            net.routes[f"{kind}://example.com/c"] = data
            clock.fake = lambda t=START: t
            try:
                storage.fetch_latest_update()
            except Exception:
                ctx.check(kind == 'missing file', 'failed')
            finally:
                clock.fake = None
            expected = [] if kind == 'missing file' else [(url(line, 'client', 1), url(line, 'game', 1))]
            ctx.equal(w.recorded()[line], expected, 'recorded releases')
            ctx.nontrivial((line, kind))


def units(tier):
    n = len(LINES) * (len(PAIRS) + len(FAULTS))
    deep = tier == 'thorough'
    u = [{'initial': i, 'patches': False, 'first': f, 'depth': 6 if deep else 4 if i == 'empty' else 3} for i in INITIAL for f in range(n)]
    u += [{'initial': i, 'patches': True, 'first': f, 'depth': 4 if deep else 3} for i in ('empty',) for f in range(n)]
    u += [{'stops': True, 'patches': False, 'initial': 'empty', 'depth': 4 if deep else 3, 'part': i, 'parts': 8} for i in range(8)]
    return u
