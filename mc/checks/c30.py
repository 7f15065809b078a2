"""Storage and component arguments of the command line, and what the commands do with them"""
import contextlib
import io
import itertools
import json
import os
import re
import shutil

from .. import fsx, world
from ..http import net
from ..world import CDN
import cdtb.__main__ as cdtb_main
from cdtb.patcher import PatcherStorage
from cdtb.rads import RadsStorage
from cdtb.storage import Storage, PatchElement, PatchVersion

ID = 'C30'
LEVEL = 'exploration'
RULE = 'distinct (command line, storage) combinations; non-trivial when a storage or an element is selected'
BOUNDS = {'quick': 'all configurations (4 types x 5 paths x 3 patchlines x 3 link options x 2 client configurations x 7 URL options) as a file with 2 or 3 patchline options; 50 of them in 7 other locations by argument, environment and API; 22 other storage arguments x 4 environments; 12 component texts (33 on one in 8, 29 malformed ones on one in 20) on all histories of up to 4 elements over 2 patches (all stored subsets up to 3 elements), 3 patches, beta; all language options on 32 histories, pairs of components on 8; all language options on a patcher storage',
          'thorough': 'as quick with all configurations at all locations, 5 elements, and all stored subsets'}
ASSUMPTIONS = ['an element asked for by patch number may be looked for among stored releases only', 'the order of files of different elements is not specified']

HASHFILES = {}


@contextlib.contextmanager
def environment(value):
    old = os.environ.pop('CDTB_STORAGE', None)
    if value is not None:
        os.environ['CDTB_STORAGE'] = value
    try:
        yield
    finally:
        os.environ.pop('CDTB_STORAGE', None)
        if old is not None:
            os.environ['CDTB_STORAGE'] = old


def cli(*args):
    """Run a command: (lines or None if refused, messages)"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            cdtb_main.main(list(args))
        except SystemExit as e:
            if e.code:
                return None, err.getvalue()
        except Exception as e:
            return None, f"{type(e).__name__}: {e}"
    return out.getvalue().splitlines(), err.getvalue()


# ---------------------------------------------------------------- storages

used = []


class Recorder:
    """Record the storages used, which become empty"""

    def __enter__(self):
        used.clear()
        self.old = PatcherStorage.patch_elements, RadsStorage.patch_elements

        def record(storage, stored=False):
            used.append(storage)
            return iter(())
        PatcherStorage.patch_elements = RadsStorage.patch_elements = record

    def __exit__(self, *a):
        PatcherStorage.patch_elements, RadsStorage.patch_elements = self.old


def describe(s):
    d = {'type': s.storage_type, 'path': os.path.abspath(s.path)}
    if isinstance(s, PatcherStorage):
        d.update(patchline=s.patchline, links=s.use_extract_symlinks, clientconfig=s.clientconfig_data)
    else:
        d.update(url=s.url)
    return d


def resolved(conf, base, patchline):
    """Expected storage of a configuration file in directory `base`, None if refused"""
    if conf.get('type') not in ('patcher', 'rads'):
        return None
    d = {'type': conf['type'], 'path': os.path.normpath(os.path.join(base, conf.get('path', '.')))}
    if conf['type'] == 'patcher':
        d.update(patchline=patchline or conf.get('patchline', 'live'), links=conf.get('use_extract_symlinks') is not False, clientconfig=conf.get('clientconfig_data'))
        return d
    if patchline or ('cdn' in conf and 'url' in conf):
        return None
    if 'cdn' in conf and conf['cdn'] not in CDNS:
        return None
    return dict(d, url=CDNS[conf['cdn']] if 'cdn' in conf else conf.get('url', CDNS['default']))


CDNS = {'default': 'http://l3cdn.riotgames.com/releases/live/', 'kr': 'http://l3cdn.riotgames.com/KR_CBT/', 'pbe': 'http://l3cdn.riotgames.com/releases/pbe/'}
URLS = [{}, {'url': 'http://example.org/x/'}, {'cdn': 'default'}, {'cdn': 'kr'}, {'cdn': 'pbe'}, {'cdn': 'kr', 'url': 'http://example.org/x/'}, {'cdn': 'none'}]


def configurations(top):
    def opt(key, *values):
        return [{}] + [{key: v} for v in values]
    for parts in itertools.product(opt('type', 'patcher', 'rads', 'nope'), opt('path', '.', 'sub/x', '../up', f"{top}/absolute"), opt('patchline', 'live', 'pbe'), opt('use_extract_symlinks', True, False),
                                   opt('clientconfig_data', 'conf.json'), URLS):
        yield {k: v for p in parts for k, v in p.items()}


def check_storage(ctx, desc, expected, arg, env, patchline, api=False):
    """Resolution of a storage by the command line, and by the API"""
    with ctx.case(desc), environment(env), Recorder():
        args = ['versions', *(['-s', arg] if arg is not None else []), *(['--patchline', patchline] if patchline else []), 'patch']
        out, err = cli(*args)
        if expected is None:
            ctx.check(out is None and not used, 'refused')
            ctx.check(err.strip(), 'error message')
        else:
            ctx.check(out is not None, f"not refused: {err.strip()[-200:]}")
            ctx.equal([describe(s) for s in used], [expected], 'storage')
            ctx.nontrivial(desc)
        ctx.outcome(expected and (expected['type'], expected.get('patchline'), expected.get('links')))
        if api:
            try:
                s = Storage.from_path(arg)
            except (ValueError, AttributeError, OSError):
                ctx.check(expected is None, 'refused by the API')
            else:
                ctx.equal(describe(s), expected, 'storage of the API')
    ctx.check(not os.path.exists('cdn'), 'nothing written')


LOCATIONS = ['dir', 'dir with channels', 'slash', 'link', 'link to file', 'absolute', 'odd name']


def place(conf, where):
    """Write a configuration, return the argument and the base directory of its path"""
    data = json.dumps(conf)
    shutil.rmtree('w', ignore_errors=True)
    os.makedirs('w/d')
    name = 'w/d/cdtb.storage.conf'
    arg, base = 'w/d', 'w/d'
    if where == 'file':
        name = arg = 'w/d/any.name'
    elif where == 'dir with channels':
        os.makedirs('w/d/channels')
    elif where == 'slash':
        arg = 'w/d/'
    elif where == 'link':
        os.symlink('d', 'w/l')
        arg, base = 'w/l', 'w/l'
    elif where == 'link to file':
        os.symlink('d/cdtb.storage.conf', 'w/l')
        arg, base = 'w/l', 'w'
    elif where == 'absolute':
        arg = os.path.abspath(name)
    elif where == 'odd name':
        name = arg = 'w/d/rads:x'
    with open(name, 'w') as f:
        f.write(data)
    return arg, os.path.abspath(base)


def run_confs(unit, ctx, top):
    for n, conf in enumerate(configurations(top)):
        if n % unit['parts'] != unit['part']:
            continue
        arg, base = place(conf, 'file')
        for patchline in (None, 'pbe', 'live')[:3 if ctx.tier == 'thorough' or n % 4 == 0 or conf.get('patchline') == 'pbe' else 2]:
            check_storage(ctx, {'conf': conf, 'patchline': patchline}, resolved(conf, base, patchline), arg, None, patchline, patchline is None)
        if ctx.tier == 'thorough' or n % 47 == 0:
            for where in LOCATIONS:
                arg, base = place(conf, where)
                for patchline, how in itertools.product((None, 'live', 'pbe'), ('argument', 'environment', 'both')):
                    check_storage(ctx, {'conf': conf, 'where': where, 'patchline': patchline, 'by': how}, resolved(conf, base, patchline),
                                  None if how == 'environment' else arg, {'argument': None, 'environment': arg, 'both': 'rads:elsewhere'}[how], patchline, how == 'argument' and patchline is None)


def run_args(ctx, top):
    """Storage arguments without configuration"""
    os.makedirs('guessed/channels')
    os.makedirs('unknown/projects')
    os.makedirs('nofile/cdtb.storage.conf')
    os.makedirs('both/cdtb.storage.conf')
    os.makedirs('both/channels')
    os.makedirs('rads:dir/channels')
    os.makedirs('file/x')
    os.symlink('guessed', 'link')
    os.symlink('missing', 'dangling')
    for name, content in {'text.conf': 'type: patcher', 'list.conf': '["type", "patcher"]', 'empty.conf': '', 'string.conf': '"type"', 'file/channels': 'not a directory'}.items():
        with open(name, 'w') as f:
            f.write(content)

    def patcher(path):
        return lambda line: {'type': 'patcher', 'path': os.path.abspath(path), 'patchline': line or 'live', 'links': True, 'clientconfig': None}

    def rads(path):
        return lambda line: None if line else {'type': 'rads', 'path': os.path.abspath(path), 'url': CDNS['default']}

    refused = lambda line: None
    args = {
        'missing': patcher('missing'), 'missing/sub': patcher('missing/sub'), f"{top}/missing": patcher('missing'), './missing': patcher('missing'), '../x': patcher('../x'), 'dangling': patcher('dangling'),
        'guessed': patcher('guessed'), 'guessed/': patcher('guessed'), './guessed': patcher('guessed'), 'link': patcher('link'), f"{top}/guessed": patcher('guessed'), 'both': patcher('both'),
        'unknown': refused, 'nofile': refused, 'file': refused, 'rads:dir': patcher('rads:dir'),
        'patcher:p': patcher('p'), 'patcher:guessed': patcher('guessed'), f"patcher:{top}/p": patcher('p'), 'patcher:unknown': patcher('unknown'), 'patcher:a:b': patcher('a:b'),
        'rads:r': rads('r'), f"rads:{top}/r": rads('r'), 'rads:guessed': rads('guessed'), 'rads:c:d': rads('c:d'),
        'nope:x': refused, ':x': refused, 'Patcher:x': refused, 'patchers:x': refused, 'text.conf': refused, 'list.conf': refused, 'empty.conf': refused, 'string.conf': refused,
    }
    for arg, want in args.items():
        for patchline in (None, 'live', 'pbe'):
            for env, by_env in ((None, False), ('rads:elsewhere', False), ('nope:x', False), (arg, True)):
                check_storage(ctx, {'storage': arg.replace(top, 'TOP'), 'environment': by_env or env, 'patchline': patchline}, want(patchline), None if by_env else arg, env, patchline, env is None and patchline is None)
    for patchline in (None, 'live', 'pbe'):
        check_storage(ctx, {'storage': None, 'patchline': patchline}, patcher('cdn')(patchline), None, None, patchline)
    # an existing default directory, and refused patchlines
    for sub in ('cdn', 'cdn/channels', 'cdn/cdtb'):
        os.makedirs(sub)
        with ctx.case({'storage': None, 'existing': sub}), environment(None), Recorder():
            ctx.check(cli('versions', 'patch')[0] is not None, 'not refused')
            ctx.equal([describe(s) for s in used], [patcher('cdn')(None)], 'storage')
        shutil.rmtree('cdn')
    for args in (['versions', '--patchline', 'main', 'patch'], ['versions', 'lcu'], ['versions'], ['versions', '-s'], ['files'], ['download'], ['files', 'patch=', 'game=']):
        with ctx.case({'arguments': args}), environment(None), Recorder():
            ctx.check(cli(*args)[0] is None and not used, 'refused')


# ---------------------------------------------------------------- components

class SelElement(PatchElement):
    def __init__(self, name, version, ident, stored):
        super().__init__(name, PatchVersion(version))
        self.ident, self.stored = ident, stored

    def listed(self, langs):
        codes = LANGS if langs is True else [] if langs is False else list(langs)
        return ['common', 'Common 2'] + [f"lang/{c}" for c in codes]

    def download(self, langs=True):
        SelStorage.downloaded.append((self.ident, tuple(self.listed(langs))))

    def fspaths(self, langs=True):
        return (f"/{self.ident}/{n}" for n in self.listed(langs))

    def relpaths(self, langs=True):
        return (f"{self.ident}/{n}".lower() for n in self.listed(langs))


class SelStorage(Storage):
    storage_type = 'mcsel'
    content = []
    downloaded = []

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf['path'], None)

    def patch_elements(self, stored=False):
        return (e for e in self.content if e.stored or not stored)


LANGS = ['fr_fr', 'en_us', 'zh_cn']
LANG_ARGS = {(): LANGS, ('--no-lang',): [], ('--lang', 'fr_fr'): ['fr_fr'], ('--lang', 'zh_cn', 'en_us'): ['zh_cn', 'en_us'], ('--lang',): [], ('--no-lang', '--lang', 'en_us'): ['en_us'], ('--lang', 'en_us', '--no-lang'): []}
VERSIONS = ['', '10.1', '9.20', '9.2', '10.1.', '9.20.', '9.2.', 'main', '9.1', '9', '1.0']
SHORT = ['', '10.1', '9.2', '9.2.']
MALFORMED = ['', 'patch', 'game', '=', '=9.2', 'patch 9.2', 'patch=x', 'patch=9.2x', 'patch=9,2', 'patch=.', 'patch=.9', 'patch=9..2', 'patch=-9.2', 'patch= 9.2', 'patch=9.2 ', ' patch=9.2', 'Patch=9.2', 'lcu=9.2', 'patch==9.2', 'patch=latest',
             'patch=main.', 'patch=Main', 'xpatch=9.2', 'patchx=9.2', 'game=9.2,', 'client:9.2', 'patch=9.2=', 'game=\u0669.2', 'patch=9.2\n']


def histories(tier):
    """[(name, version, stored)] from the latest"""
    for n in range((5 if tier == 'thorough' else 4) + 1):
        for names in itertools.product(('game', 'client'), repeat=n):
            for split in range(n + 1):
                vs = ['10.1'] * split + ['9.2'] * (n - split)
                flags = list(itertools.product((True, False), repeat=n)) if n <= (4 if tier == 'thorough' else 3) else [(True,) * n]
                for stored in flags:
                    yield list(zip(names, vs, stored))
    for names in itertools.product(('game', 'client'), repeat=3):
        yield list(zip(names, ['10.1', '9.20', '9.2'], [True] * 3))
        yield list(zip(names, ['main'] * 3, [True] * 3))
        yield list(zip(names, ['main'] * 3, [True, False, True]))


def select(history, name, version):
    """Allowed selections (tuples of indices), None: not found"""
    version = version.rstrip('.')
    everything = list(enumerate(history))
    if name == 'patch':
        if not version:
            version = history[0][1] if history else None
        latest = {}
        for i, (n, v, _) in everything:
            if v == version:
                latest.setdefault(n, i)
        return [tuple(sorted(latest.values())) or None]
    match = [(i, s) for i, (n, v, s) in everything if n == name and (not version or v == version)]
    allowed = [(match[0][0],) if match else None]
    if version:
        stored = [i for i, s in match if s]
        allowed.append((stored[0],) if stored else None)
    return allowed


def load(history):
    SelStorage.content = [SelElement(n, v, i, s) for i, (n, v, s) in enumerate(history)]
    SelStorage.downloaded.clear()


def lines_of(sel, langs, relative):
    names = ['common', 'Common 2'] + [f"lang/{c}" for c in langs]
    return sorted(f"{i}/{n}".lower() if relative else f"/{i}/{n}" for i in sel for n in names)


def run_components(unit, ctx):
    for k, history in enumerate(histories(ctx.tier)):
        if k % unit['parts'] != unit['part']:
            continue
        load(history)
        for name, version in itertools.product(('patch', 'game', 'client'), VERSIONS if k % 8 == 3 or ctx.tier == 'thorough' else SHORT):
            comp = f"{name}={version}"
            allowed = select(history, name, version)
            with ctx.case(lambda: {'history': history, 'component': comp}):
                out, err = cli('files', '-s', 'mcsel:x', comp)
                if out is None:
                    ctx.check(None in allowed, f"not refused: {err[-200:]}")
                    ctx.check(comp in err, f"message: {err[-200:]}")
                    SelStorage.downloaded.clear()
                    out2, _ = cli('download', '-s', 'mcsel:x', comp)
                    ctx.check(out2 is None and not SelStorage.downloaded, 'nothing downloaded')
                    continue
                sels = [s for s in allowed if s is not None and lines_of(s, LANGS, False) == sorted(out)]
                ctx.check(sels, f"files {out} instead of {allowed}")
                SelStorage.downloaded.clear()
                cli('download', '-s', 'mcsel:x', comp)
                ctx.equal(sorted(SelStorage.downloaded), [(i, ('common', 'Common 2', *(f"lang/{c}" for c in LANGS))) for i in sels[0]], 'downloads')
                ctx.nontrivial((history, comp))
        with ctx.case(lambda: {'history': history, 'command': 'versions'}):
            for typ, stored in itertools.product(('patch', 'game', 'client'), (True, False)):
                out, err = cli('versions', '-s', 'mcsel:x', *([] if stored else ['-a']), typ)
                want = []
                for n, v, s in history:
                    if (s or not stored) and typ in ('patch', n) and v not in want:
                        want.append(v)
                ctx.equal(out, want, f"versions of {typ}")
        if k % 20 == 0:
            for comp in MALFORMED:
                with ctx.case(lambda: {'history': history, 'component': comp}):
                    SelStorage.downloaded.clear()
                    for args in (['files', comp], ['download', comp], ['download', 'patch=', comp], ['download', comp, 'game=10.1']):
                        out, err = cli(args[0], '-s', 'mcsel:x', '--', *args[1:])
                        ctx.check(out is None and not SelStorage.downloaded and err.strip(), f"refused: {args}")


def run_languages(unit, ctx):
    some = [h for h in histories('quick') if len(h) == 3 and all(s for *_, s in h)][unit['part']::unit['parts']]
    comps = [f"{n}={v}" for n in ('patch', 'game', 'client') for v in ('', '10.1', '9.2.', '9.2')]
    for num, history in enumerate(some):
        load(history)

        def sel(comp):
            return select(history, *comp.split('='))[0]
        for (opts, langs), comp in itertools.product(LANG_ARGS.items(), comps):
            with ctx.case(lambda: {'history': history, 'component': comp, 'options': opts}):
                for relative in (False, True):
                    out, err = cli('files', '-s', 'mcsel:x', *(['-r'] if relative else []), comp, *opts)
                    ctx.equal(out if out is None else sorted(out), None if sel(comp) is None else lines_of(sel(comp), langs, relative), 'files')
                SelStorage.downloaded.clear()
                out, err = cli('download', '-s', 'mcsel:x', comp, *opts)
                ctx.equal(sorted(SelStorage.downloaded), [(i, ('common', 'Common 2', *(f"lang/{c}" for c in langs))) for i in sel(comp) or ()], 'downloads')
                ctx.nontrivial((history, comp, opts))
        for a, b in itertools.product(comps, repeat=2) if num % 4 == 0 or ctx.tier == 'thorough' else ():
            with ctx.case(lambda: {'history': history, 'components': [a, b]}):
                SelStorage.downloaded.clear()
                out, err = cli('download', '-s', 'mcsel:x', a, b)
                if sel(a) is None or sel(b) is None:
                    ctx.check(out is None and not SelStorage.downloaded, 'refused as a whole')
                else:
                    ctx.check(out is not None, err)
                    ctx.equal({i for i, _ in SelStorage.downloaded}, {*sel(a), *sel(b)}, 'downloads')
                    ctx.equal({x for _, x in SelStorage.downloaded}, {('common', 'Common 2', *(f"lang/{c}" for c in LANGS))}, 'languages of downloads')


# ---------------------------------------------------------------- a real storage

def run_patcher(ctx, top):
    """Two releases of 2 patches, files in some languages"""
    fsx.install()
    chunks = {0x10: world.content_metadata('9.2'), 0x11: world.content_metadata('10.1'), 0x20: world.system_yaml('9.2'), 0x21: world.system_yaml('10.1'),
              0x30: b'common', 0x31: b'french', 0x32: b'english', 0x33: b'both', 0x34: b'client'}
    cdn = CDN(chunks, {0xB000 + c: [c] for c in chunks})
    game = [('a.txt', [0x30], []), ('b/fr.txt', [0x31], ['fr_fr']), ('c/en.txt', [0x32], ['en_us']), ('d.txt', [0x33], ['fr_fr', 'en_us'])]
    client = [('Z.txt', [0x34], []), ('fr/x.txt', [0x31], ['fr_fr'])]
    return cdn, game, client


def run_patcher_case(ctx, top):
    cdn, game, client = run_patcher(ctx, top)
    mids = {'game': {'9.2': 0x101, '10.1': 0x102}, 'client': {'9.2': 0x201, '10.1': 0x202}}

    def fresh():
        shutil.rmtree('store', ignore_errors=True)
        world.reset_net()
        for i, v in enumerate(('9.2', '10.1')):
            cdn.manifest(mids['game'][v], [(*f, None) for f in [*game, ('content-metadata.json', [0x10 + i], [])]])
            cdn.manifest(mids['client'][v], [(*f, None) for f in [*client, ('system.yaml', [0x20 + i], [])]])
            world.write_release(f"{top}/store", 100 + i, client=mids['client'][v], game=mids['game'][v])
        world.announce(mids['client']['10.1'], mids['game']['10.1'])
        cdn.publish()
    for (opts, langs), comp in itertools.product(LANG_ARGS.items(), ('patch=', 'patch=9.2', 'game=9.2', 'client=', 'game=10.1.', 'client=9.2')):
        v = comp.split('=')[1].rstrip('.') or '10.1'
        want = {}
        for name, files, extra in (('game', game, 'content-metadata.json'), ('client', client, 'system.yaml')):
            if comp.split('=')[0] in ('patch', name):
                for p, c, tags in [*files, (extra, [{'9.2': 0, '10.1': 1}[v] + {'game': 0x10, 'client': 0x20}[name]], [])]:
                    # a list of languages selects the files of these languages only
                    if set(tags) & set(langs) or (not tags if opts[-1:] == ('--no-lang',) else not opts):
                        want[p] = b''.join(cdn.chunks[x] for x in c)
        with ctx.case({'storage': 'patcher', 'component': comp, 'options': opts}):
            fresh()
            out, err = cli('files', '-r', '-s', 'patcher:store', comp, *opts)
            ctx.check(out is not None, err[-300:])
            ctx.equal(sorted(out), sorted(p.lower() for p in want), 'relative paths')
            out, err = cli('files', '-s', 'patcher:store', comp, *opts)
            fresh()
            ctx.check(cli('download', '-s', 'patcher:store', comp, *opts)[0] is not None, 'download')
            ctx.equal(sorted(open(p, 'rb').read() for p in out), sorted(want.values()), 'files on disk')
            snap = {k for k, x in fsx.snapshot('store/cdtb').items() if x[0] != 'd' and '/files/' in k and not k.startswith('files/')}
            got = {re.sub(r'^releases/live/\d+/files/', '', k) for k in snap}
            # files giving the version of a release may be there as well
            ctx.check(set(want) <= got | {'system.yaml', 'content-metadata.json'} and got <= set(want) | {'system.yaml', 'content-metadata.json'}, f"downloaded files: {sorted(got)} instead of {sorted(want)}")
            ctx.nontrivial(('patcher', comp, opts))


create_parser = getattr(cdtb_main, 'create_parser', None)
parsers = []


def same_parser():
    """Building the parser takes most of the time of a command; it has no state"""
    if not parsers:
        parsers.append(create_parser())
    return parsers[0]


def run(unit, ctx):
    if create_parser is not None:
        cdtb_main.create_parser = create_parser if unit['kind'] in ('args', 'patcher') else same_parser
    cwd = os.getcwd()
    with ctx.tmp() as top, environment(None):
        os.chdir(top)
        try:
            {'confs': lambda: run_confs(unit, ctx, top), 'args': lambda: run_args(ctx, top), 'components': lambda: run_components(unit, ctx),
             'languages': lambda: run_languages(unit, ctx), 'patcher': lambda: run_patcher_case(ctx, top)}[unit['kind']]()
        finally:
            os.chdir(cwd)


def units(tier):
    return [{'kind': 'args'}, {'kind': 'patcher'}] + [{'kind': k, 'parts': n, 'part': i} for k, n in (('components', 16), ('confs', 8), ('languages', 8)) for i in range(n)]
