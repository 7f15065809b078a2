"""Histories of downloads of several releases in one storage (breadth-first search)"""
import os
import shutil

from .. import fsx, world
from ..http import net
from ..world import CDN
from cdtb.patcher import PatcherStorage, PatcherRelease

ID = 'C04'
LEVEL = 'model_checking'
RULE = 'distinct (state, operation) transitions; states are full snapshots of the storage directory with the model state'
BOUNDS = {'quick': 'all sequences of 3 operations among 26 (download of 3 releases x 4 language selections, extraction with overwriting of 3 releases, 5 kinds of damage x 2 files, removal of bundles) in both layouts, and of 2 operations with both layouts mixed',
          'thorough': 'sequences of 4 operations, and of 3 operations with both layouts mixed'}
ASSUMPTIONS = ['damage happens to entries of the release directories (removed, replaced), not inside of the content store', 'without overwriting, a file replaced by another one of the same size is taken for extracted (documented)']

CHUNKS = {1: b'first', 2: b'second!', 3: b'third..', 4: b'', 5: b'5555', 0x11: b'-eleven-'}  # 1 then 0x11, 0x11 then 1: same digits
BUNDLES = {0xB1: [1, 2], 0xB2: [3, 0x11], 0xB3: [4, 5]}
# {release: {path: (chunks, languages)}}; releases share contents under other paths, and paths with other contents
RELEASES = {
    10: {'a': ([1], None), 'd/b': ([2, 3], None), 'l/fr': ([3], ['fr_FR']), 'l/en': ([1, 5], ['en_US'])},
    11: {'a': ([1, 2], None), 'd/b': ([2, 3], None), 'd/c': ([1], ['fr_FR']), 'l/en': ([1, 0x11], ['en_US', 'fr_FR'])},
    12: {'a': ([0x11, 1], None), 'd/c': ([4], None), 'e': ([5, 1], ['en_US']), 'l/fr': ([3], None)},
}
SELECTIONS = [True, False, 'fr_FR', ['en_US', 'xx_XX']]
DAMAGED = [(10, 'a'), (11, 'd/b'), (12, 'd/c')]
DAMAGES = ['removed', 'shorter', 'same size', 'dangling link', 'link to another file']


def select(files, langs):
    names = None if isinstance(langs, bool) else {langs} if isinstance(langs, str) else set(langs)
    return [p for p, (_, fl) in files.items() if langs is True or (not fl if langs is False else names & set(fl or ()))]


class World:
    def __init__(self, ctx, tmp):
        self.ctx, self.tmp, self.path = ctx, tmp, f"{tmp}/cdn"
        world.reset_net()
        self.cdn = CDN(CHUNKS, BUNDLES)
        for ts, files in RELEASES.items():
            self.cdn.manifest(ts, [(p, cs, fl, None) for p, (cs, fl) in files.items()])
        self.cdn.publish()

    def data(self, ts, path):
        return self.cdn.data(RELEASES[ts][path][0])

    def restore(self, snap):
        shutil.rmtree(self.path, ignore_errors=True)
        for p, x in snap.items():
            full = f"{self.path}/{p}"
            if x[0] == 'd':
                os.makedirs(full, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if x[0] == 'l':
                os.symlink(x[1], full)
            else:
                with open(full, 'wb') as f:
                    f.write(x[1])

    def full(self, ts, path):
        return f"{self.path}/cdtb/releases/live/{ts}/files/{path}"

    def damage(self, ts, path, kind):
        """Return the data read afterwards (None if there is none)"""
        full = self.full(ts, path)
        data = self.data(ts, path)
        if os.path.lexists(full):
            os.remove(full)
        if kind == 'removed':
            return None
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if kind == 'dangling link':
            os.symlink('nowhere', full)
            return None
        if kind == 'link to another file':
            with open(f"{self.tmp}/other", 'wb') as f:
                f.write(b'other file')
            os.symlink(f"{self.tmp}/other", full)
            return b'other file'
        new = b'\xee' * (len(data) - 1 if kind == 'shorter' else len(data)) if data else b'not empty' if kind == 'shorter' else b''
        with open(full, 'wb') as f:
            f.write(new)
        return new

    def storage(self, ts, shared):
        s = PatcherStorage(self.path if ts != 11 else os.path.relpath(self.path))
        s.use_extract_symlinks = shared
        return s

    def step(self, model, op):
        """Run an operation on the storage and on the model; return the new model, None after an allowed failure"""
        ctx = self.ctx
        files, bundles, manifests = dict(model[0]), set(model[1]), set(model[2])
        kind, ts, arg, shared = op
        net.log.clear()
        if kind == 'damage':
            path, how = arg
            if (ts, path) not in files:
                return None
            files[ts, path] = self.damage(ts, path, how)
            return freeze(files, bundles, manifests)
        if kind == 'remove bundles':
            shutil.rmtree(f"{self.path}/channels/public/bundles", ignore_errors=True)
            return freeze(files, (), manifests)
        before = fsx.snapshot(self.path)
        storage = self.storage(ts, shared)
        release = PatcherRelease(storage, ts)
        wanted = select(RELEASES[ts], arg)
        size_ok = lambda p: files.get((ts, p)) is not None and len(files[ts, p]) == len(self.data(ts, p))
        if kind == 'download':
            todo = [p for p in wanted if not size_ok(p)]
            need = {self.cdn.owner[c] for p in todo for c in RELEASES[ts][p][0]}
            release.download_bundles(langs=arg)
            release.extract(langs=arg)
        else:
            todo = wanted
            need = set()
            try:
                release.extract(langs=arg, overwrite=True)
            except FileNotFoundError:
                missing = {self.cdn.owner[c] for p in todo for c in RELEASES[ts][p][0]} - bundles
                ctx.check(missing, 'files cannot be extracted though bundles are available')
                # what was not restored is unchanged
                view = self.view()
                for p in wanted:
                    ctx.check(view.get((ts, p)) in (files.get((ts, p)), self.data(ts, p)), f"content of {ts}/{p} after an error: {view.get((ts, p))}")
                return None
        for p in todo:
            files[ts, p] = self.data(ts, p)
        requests = [u for u in net.gets() if '/bundles/' in u]
        ctx.equal(len(requests), len(set(requests)), f"bundles requested several times: {requests}")
        ctx.check(set(requests) <= {world.bundle_url(b) for b in need - bundles}, f"requests: {requests}, needed bundles: {sorted(need - bundles)}")
        others = [u for u in net.gets() if '/bundles/' not in u]
        ctx.check(others in ([], [world.manifest_url(ts)]), f"requests: {others}")
        ctx.check(not others or ts not in manifests, 'manifest requested again')
        after = fsx.snapshot(self.path)
        ctx.equal({k: v for k, v in after.items() if k.startswith('cdtb/files/') and k in before}, {k: v for k, v in before.items() if k.startswith('cdtb/files/')}, 'content store altered')
        ctx.equal({k: v for k, v in after.items() if k.startswith('channels/') and k in before}, {k: v for k, v in before.items() if k.startswith('channels/')}, 'bundles or manifests altered')
        if kind == 'download' and not todo and ts in manifests:
            ctx.equal(after, before, 'storage after a repeated download')
        with open(f"{self.tmp}/other", 'rb') as f:
            ctx.equal(f.read(), b'other file', 'file which a replaced link pointed to')
        return freeze(files, bundles | need, manifests | {ts})

    def view(self):
        base = f"{self.path}/cdtb/releases/live"
        out = {}
        for ts in RELEASES:
            if os.path.isdir(f"{base}/{ts}/files"):
                for p, data in fsx.view(f"{base}/{ts}/files").items():
                    if data is not None:
                        out[ts, p] = data
        return out

    def compare(self, model):
        expected = {k: v for k, v in model[0] if v is not None}
        self.ctx.equal(self.view(), expected, 'files of the releases')
        # the storage is a plain directory: it may be moved
        path, self.path = self.path, f"{self.tmp}/elsewhere/moved"
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        os.rename(path, self.path)
        try:
            self.ctx.equal(self.view(), expected, 'files of the releases, in the moved storage')
        finally:
            os.rename(self.path, path)
            self.path = path


def freeze(files, bundles, manifests):
    return (tuple(sorted(files.items())), frozenset(bundles), frozenset(manifests))


def operations(layouts):
    ops = []
    for shared in layouts:
        ops += [('download', ts, sel, shared) for ts in RELEASES for sel in SELECTIONS]
        ops += [('overwrite', ts, True, shared) for ts in RELEASES]
    ops += [('damage', ts, (p, how), None) for ts, p in DAMAGED for how in (DAMAGES if p != 'd/c' else DAMAGES[:2])]
    ops.append(('remove bundles', None, None, None))
    return ops


def run(unit, ctx):
    fsx.install()
    ops = operations(unit['layouts'])
    with ctx.tmp() as tmp:
        w = World(ctx, tmp)
        with open(f"{tmp}/other", 'wb') as f:
            f.write(b'other file')
        for ts in RELEASES:
            world.write_release(w.path, ts, game=ts)
        first = fsx.snapshot(w.path)
        empty = freeze({}, (), ())
        # the unit starts with one operation, and explores all the next ones
        frontier = [(first, empty, ())]
        for depth in range(unit['depth']):
            nxt = []
            for snap, model, trace in frontier:
                for n, op in enumerate(ops):
                    if depth == 0 and n != unit['first']:
                        continue
                    result = None
                    with ctx.case(lambda: {'operations': [*trace, op]}):
                        w.restore(snap)
                        ctx.transition()
                        result = w.step(model, op)
                        if result is not None:
                            w.compare(result)
                            ctx.nontrivial((sorted(snap.items()), model, op))
                            ctx.trace()
                    if result is not None:
                        after = fsx.snapshot(w.path)
                        # names of links and files of the store are part of the state
                        if ctx.state((sorted(after.items()), result)):
                            nxt.append((after, result, (*trace, op)))
            frontier = nxt
        ctx.outcome(len(frontier))


def units(tier):
    u = []
    for layouts, depth in (([True], 3), ([False], 3), ([True, False], 2)):
        for n in range(len(operations(layouts))):
            u.append({'layouts': layouts, 'first': n, 'depth': depth + (tier == 'thorough')})
    return u
