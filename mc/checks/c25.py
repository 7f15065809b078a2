"""Updates of export directories and choice of the previous patch, through the command line and the API"""
import contextlib
import io
import itertools
import os
import shutil

from .. import fsx, patches
from ..patches import Store, element
from cdtb.__main__ import main
from cdtb.export import CdragonRawPatchExporter
from cdtb.storage import Storage, PatchVersion

ID = 'C25'
LEVEL = 'exploration'
RULE = 'distinct (stored patches, directories, arguments) combinations; non-trivial when at least a patch is exported'
BOUNDS = {'quick': 'all subsets of 4 stored patches x all subsets of their directories x 5 sets of other directories and files (with one of the beta) x 7 first patches x links; the default, given and environment output directories; all single exports of 7 patch arguments x 8 previous ones, with the other patches unknown or not downloaded; API: 3 values of symlinks as well',
          'thorough': 'as quick with 5 patches'}
ASSUMPTIONS = ['a directory of a requested patch which the storage does not have is an error', 'the patch to export is stored']

# patches before 9.14: no TFT nor Arena data
VERSIONS = ['8.10', '8.9', '8.2', '7.24', '7.3']
HASHFILES = patches.RST_HASHFILES
JUNK = {'none': ((), ()), 'names': (('foo', '.tmp', 'latest', '8.x', '8.9-old', '8.', '.8', '', 'x8.9'), ()), 'numbers': (('9', '8.9.1', '10.1.2.3', '123'), ()), 'beta': (('main', 'main.1', 'Main'), ()), 'files': ((), ('8.9', '8.2', '7.24', '12.1', 'readme.txt'))}


def key(v):
    return tuple(map(int, v.split('.')))


class FakeStorage(patches.FakeStorage):
    storage_type = 'mcfake'
    elements = ()
    remote = ()   # versions which are known, but not downloaded

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf['path'], FakeStorage.elements)

    def patch_elements(self, stored=False):
        extra = [] if stored else [patches.Element(name, v, [(f"/nonexistent/{v}/{name}", f"{name}/same.txt")]) for v in FakeStorage.remote for name in ('game', 'client')]
        return iter(sorted([*self.elements, *extra], key=lambda e: key(str(e.version)), reverse=True))


def files_of(v):
    """Content of a patch: since.X changes at patch X, so what changed tells the previous patch"""
    return {'same.txt': b'same', **{f"since.{w}.txt": b'after' if key(v) >= key(w) else b'before' for w in VERSIONS + ['0.1']}}


def make(store, stored):
    return [element(store, name, v, [(f"{name}/{p}", c, '') for p, c in files_of(v).items()]) for v in stored for name in ('game', 'client')]


def expected_dir(v, prev, links):
    """(regular files, links) of the export of `v` compared with `prev`"""
    full = {f"{n}/{p}" for n in ('game', 'client') for p in files_of(v)}
    if prev is None:
        return full, set()
    a, b = files_of(v), files_of(prev)
    changed = {f"{n}/{p}" for n in ('game', 'client') for p in a if a[p] != b[p]}
    if not links:
        return changed, None
    if not changed:
        return changed, {'game', 'client'}
    return changed, full - changed


def run_main(argv):
    """Return (exit code, stderr)"""
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            main(argv)
        return 0, err.getvalue()
    except SystemExit as e:
        return e.code or 0, err.getvalue()


def check_dir(ctx, out, v, prev, links):
    regular, linked = expected_dir(v, prev, links)
    snap = {k: x for k, x in fsx.snapshot(f"{out}/{v}").items() if not k.startswith('cdragon/')}
    ctx.equal(sorted(k for k, x in snap.items() if x[0] == 'f'), sorted(regular), f"extracted files of {v}")
    ctx.equal(sorted(k for k, x in snap.items() if x[0] == 'l'), sorted(linked or ()), f"links of {v}")
    for k in regular:
        ctx.equal(snap[k][1], files_of(v)[k.split('/')[1]], f"content of {v}/{k}")
    for k in linked or ():
        want = os.path.relpath(f"{prev}/{k}", os.path.dirname(f"{v}/{k}"))
        got = os.path.realpath(f"{out}/{v}/{k}")
        ctx.equal(got.startswith(os.path.realpath(out) + '/'), True, f"target of {k}: {snap[k][1]}, expected under {want}")
        ctx.check(os.path.exists(got), f"dangling link {v}/{k}")


def setup_dirs(out, dirs, junk):
    os.makedirs(out)
    for d in dirs:
        os.mkdir(f"{out}/{d}")
        with open(f"{out}/{d}/stale.txt", 'w') as f:
            f.write(d)
    for d in JUNK[junk][0]:
        if d:
            os.mkdir(f"{out}/{d}")
            with open(f"{out}/{d}/kept.txt", 'w') as f:
                f.write(d)
    for d in JUNK[junk][1]:
        if not os.path.exists(f"{out}/{d}"):
            with open(f"{out}/{d}", 'w') as f:
                f.write(d)


def processed_order(log):
    """Versions in the order in which their lists were written"""
    res = []
    for op, path in log:
        if path.endswith('cdragon/files.exported.txt') and path.split('/')[1] not in res:
            res.append(path.split('/')[1])
    return res


def run_update(unit, ctx):
    stored = unit['stored']
    every = unit['versions']
    with ctx.tmp() as tmp:
        FakeStorage.elements = make(Store(f"{tmp}/store"), stored)
        for n in range(len(every) + 1):
            for dirs in itertools.combinations(every, n):
                for junk, first, links, remote in itertools.product(JUNK, [None, *every, '8.5', '0.1'], (True, False), (False, True)):
                    if remote and (junk != 'none' or len(stored) == len(every)):
                        continue
                    FakeStorage.remote = [v for v in every if v not in stored] if remote else []
                    out = f"{tmp}/export"
                    argv = ['export', '-s', 'mcfake:any', '-o', out] + (['--from', first] if first else []) + (['-L'] if links else [])
                    with ctx.case(lambda: {'stored': stored, 'remote': FakeStorage.remote, 'directories': dirs, 'others': junk, 'arguments': argv[5:]}):
                        setup_dirs(out, dirs, junk)
                        before = fsx.snapshot(out)
                        c = fsx.Controller(tmp)
                        failed = None
                        with fsx.active(c):
                            try:
                                code, err = run_main(argv)
                            except ValueError as e:
                                code, err, failed = 1, str(e), e
                        after = fsx.snapshot(out)
                        if first is None:
                            ctx.equal(code, 2, 'status without --from')
                            ctx.equal(after, before, 'content without --from')
                        else:
                            wanted = sorted((d for d in dirs if key(d) >= key(first)), key=key)
                            if not set(wanted) <= set(stored):
                                ctx.check(code != 0, 'no error for a patch which is not stored')
                                ctx.equal(after, before, 'content after an error')
                            else:
                                ctx.check(code == 0, f"failed: {err}")
                                ctx.equal(processed_order(c.log), wanted, 'processed patches')
                                for i, v in enumerate(wanted):
                                    check_dir(ctx, out, v, wanted[i - 1] if i else None, links and i > 0)
                                rest = lambda s: {k: x for k, x in s.items() if k.split('/')[0] not in wanted}
                                ctx.equal(rest(after), rest(before), 'other content')
                                if wanted:
                                    ctx.nontrivial((stored, dirs, junk, first, links))
                                ctx.outcome((wanted, links))
                    shutil.rmtree(out, ignore_errors=True)


def default_directory(ctx, tmp, stored):
    """Exports go to the given directory, to the one of the environment, or to the default one"""
    cwd, saved = os.getcwd(), os.environ.get('CDTB_EXPORT')
    try:
        for env, opt, v in itertools.product((None, 'e/1', f"{tmp}/w/abs"), (None, 'o', f"{tmp}/w/abs2"), stored):
            with ctx.case({'stored': stored, 'CDTB_EXPORT': env and env.replace(tmp, 'TMP'), 'output': opt and opt.replace(tmp, 'TMP'), 'patch': v}):
                os.mkdir(f"{tmp}/w")
                os.chdir(f"{tmp}/w")
                os.environ.pop('CDTB_EXPORT', None)
                if env is not None:
                    os.environ['CDTB_EXPORT'] = env
                code, err = run_main(['export', '-s', 'mcfake:any', '--full', v] + (['-o', opt] if opt else []))
                ctx.check(code == 0, f"failed: {err}")
                out = os.path.join(f"{tmp}/w", opt or env or 'export')
                check_dir(ctx, out, v, None, False)
                files = [k for k, x in fsx.snapshot(f"{tmp}/w").items() if x[0] != 'd']
                ctx.check(all(f"{tmp}/w/{k}".startswith(f"{out}/{v}/") for k in files), lambda: f"files elsewhere: {files}")
                ctx.nontrivial((stored, env, opt, v))
            os.chdir(cwd)
            shutil.rmtree(f"{tmp}/w")
    finally:
        os.chdir(cwd)
        os.environ.pop('CDTB_EXPORT', None)
        if saved is not None:
            os.environ['CDTB_EXPORT'] = saved


def run_single(unit, ctx):
    stored = unit['stored']
    every = unit['versions']
    with ctx.tmp() as tmp:
        FakeStorage.elements = make(Store(f"{tmp}/store"), stored)
        default_directory(ctx, tmp, stored)
        for arg, previous, links, first, remote in itertools.product([*every, 'latest', '8.5', 'main', 'foo'], [None, 'full', *every, '8.5', 'latest'], (False, True), (None, '7.3'), (False, True)):
            FakeStorage.remote = [v for v in every if v not in stored] if remote else []
            # a patch which is exported must be stored
            if remote and (not FakeStorage.remote or arg in FakeStorage.remote or arg == 'latest' and stored[:1] != every[:1]):
                continue
            out = f"{tmp}/export"
            argv = ['export', '-s', 'mcfake:any', '-o', out]
            argv += ['--full'] if previous == 'full' else ['--previous', previous] if previous else []
            argv += ['-L'] if links else []
            argv += ['--from', first] if first else []
            argv.append(arg)
            with ctx.case(lambda: {'stored': stored, 'remote': FakeStorage.remote, 'arguments': argv[5:]}):
                setup_dirs(out, [v for v in stored if v != arg and not (arg == 'latest' and v == stored[0])], 'none')
                # other exports, which links refer to
                for v in stored:
                    for p, c in files_of(v).items():
                        for n in ('game', 'client'):
                            if os.path.isdir(f"{out}/{v}"):
                                os.makedirs(f"{out}/{v}/{n}", exist_ok=True)
                                with open(f"{out}/{v}/{n}/{p}", 'wb') as f:
                                    f.write(c)
                before = fsx.snapshot(out)
                c = fsx.Controller(tmp)
                with fsx.active(c):
                    try:
                        code, err = run_main(argv)
                    except ValueError as e:
                        ctx.check(links and previous == 'full', f"unexpected ValueError: {e}")
                        code, err = 1, str(e)
                after = fsx.snapshot(out)
                v = (stored[0] if stored else None) if arg == 'latest' else arg if arg in stored else None
                ok, prev = v is not None and first is None, None
                if ok and previous is None:
                    i = stored.index(v)
                    ok = i + 1 < len(stored)
                    prev = stored[i + 1] if ok else None
                elif ok and previous != 'full':
                    ok = previous in stored
                    prev = previous
                elif ok:
                    ok = not links
                if not ok:
                    ctx.check(code != 0, 'no error')
                    ctx.check(err.strip() != '', 'no message')
                    ctx.equal(after, before, 'content after an error')
                    ctx.outcome(('error', code))
                else:
                    ctx.check(code == 0, f"failed: {err}")
                    ctx.equal(processed_order(c.log), [v], 'processed patches')
                    if prev != v:
                        check_dir(ctx, out, v, prev, links)
                    rest = lambda s: {k: x for k, x in s.items() if k.split('/')[0] != v}
                    ctx.equal(rest(after), rest(before), 'other content')
                    ctx.nontrivial((stored, arg, previous, links))
                    ctx.outcome((v, prev, links))
            shutil.rmtree(out, ignore_errors=True)


def run_api(unit, ctx):
    stored, every = unit['stored'], unit['versions']
    with ctx.tmp() as tmp:
        store = Store(f"{tmp}/store")
        FakeStorage.elements = make(store, stored)
        FakeStorage.remote = [v for v in every if v not in stored]
        storage = FakeStorage('x', FakeStorage.elements)
        for n in range(len(every) + 1):
            for dirs in itertools.combinations(every, n):
                for junk in JUNK:
                    out = f"{tmp}/export"
                    setup_dirs(out, dirs, junk)
                    for first, links in itertools.product([None, *every, '8.5', '0.1'], (None, True, False)):
                        with ctx.case(lambda: {'API': True, 'stored': stored, 'directories': dirs, 'others': junk, 'first': first, 'symlinks': links}):
                            wanted = sorted((d for d in dirs if first is None or key(d) >= key(first)), key=key)
                            try:
                                got = CdragonRawPatchExporter.from_directory(storage, out, PatchVersion(first) if first else None, symlinks=links)
                            except ValueError as e:
                                ctx.check(not set(wanted) <= set(stored) or junk == 'beta' and not first, f"unexpected ValueError: {e}")
                                continue
                            ctx.check(set(wanted) <= set(stored) and (junk != 'beta' or first), 'no error for a patch which is not stored')
                            ctx.equal([(str(e.patch.version), str(e.prev_patch.version) if e.prev_patch else None, os.path.relpath(e.output, out), bool(e.create_symlinks)) for e in got],
                                      [(v, wanted[i - 1] if i else None, v, bool(i and links is not False)) for i, v in enumerate(wanted)], 'exporters')
                            ctx.nontrivial((stored, dirs, junk, first, links))
                    shutil.rmtree(out)
        # beta: a single version, which other directories are not compared with
        if not stored:
            for dirs, first in itertools.product(((), ('main',), ('main', 'foo'), ('main', '8.9'), ('7.24', 'main', '8.9'), ('8.9',)), (None, PatchVersion('main'))):
                if '8.9' in dirs and first is None:
                    continue
                with ctx.case({'API': True, 'beta': True, 'directories': dirs, 'first': first and str(first)}):
                    out = f"{tmp}/pbe"
                    setup_dirs(out, dirs, 'none')
                    got = CdragonRawPatchExporter.from_directory(patches.FakeStorage('x', [element(store, n, 'main', [('a', b'a', '')]) for n in ('game', 'client')]), out, first)
                    ctx.equal([(str(e.patch.version), e.prev_patch, bool(e.create_symlinks)) for e in got], [('main', None, False)] if 'main' in dirs else [], 'exporters')
                    shutil.rmtree(out)


def units(tier):
    every = VERSIONS[:4] if tier == 'quick' else VERSIONS
    u = []
    for n in range(len(every) + 1):
        for stored in itertools.combinations(every, n):
            for kind in ('update', 'single', 'api'):
                u.append({'kind': kind, 'stored': list(stored), 'versions': every})
    return u


def run(unit, ctx):
    fsx.install()
    {'update': run_update, 'single': run_single, 'api': run_api}[unit['kind']](unit, ctx)
