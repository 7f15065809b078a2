"""Hash lists and guessers: all lists of a small grammar; all sequences of guessing steps, to the fixpoint"""
import copy
import itertools
import os

from .. import enc, guess
from ..guess import h64
from ..world import subsets
from cdtb import hashes as hmod
from cdtb.hashes import HashFile
from cdtb.wad import Wad

ID = 'C13'
LEVEL = 'model_checking'
RULE = 'distinct hash lists, candidate sequences and sequences of guessing steps; non-trivial when a list is not empty or a hash is asked for'
BOUNDS = {'quick': 'lists of up to 3 of 14 texts and 4 hashes, both widths; candidate sequences of up to 4 of 5 candidates, 6 entry points, all subsets asked for; reachable states of 2 guessers under 15 and 20 steps to the fixpoint, 4 bases of known texts each; Ctrl-C at every candidate of each step; files of, and texts of, around 2**8, 2**15 and 2**16 lines or characters',
          'thorough': 'lists of up to 4 texts; candidate sequences of up to 5; larger pools of asked-for texts'}
ASSUMPTIONS = ['no line break in texts', 'no % in known paths', 'texts are encoded with UTF-8']

TEXTS = ['', ' ', 'a', 'a b', ' a', 'a ', '\ta\t', 'é', '\u2028x', 'x\x85y', 'A', 'a/b.c', '10', '\x0b\x0c']
HASHES = {16: [0, 1, 2**64 - 1, 0x0123456789abcdef], 8: [0, 1, 2**32 - 1, 0x01234567]}

LCU_KNOWN = ['plugins/rcp-fe-a/global/default/img/b-1_c.png', 'plugins/rcp-fe-b/euw/fr_fr/x.sfx.json', 'plugins/rcp-fe-b/global/default/y.js',
             'plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/k.png']
LCU_ASKED = ['plugins/rcp-fe-a/global/default/img/b-2_c.png', 'plugins/rcp-fe-b/global/default/img/b-2_c.png', 'plugins/rcp-fe-b/na/en_us/img/b-2_c.png',
             'plugins/rcp-fe-b/euw/fr_fr/y.js', 'plugins/rcp-fe-b/euw/fr_fr/y.json', 'plugins/rcp-fe-a/global/default/img/default-2_c.png',
             'plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/k_splash.png', 'plugins/rcp-fe-a/global/default/index.html']
GAME_KNOWN = ['assets/characters/annie/skins/base/annie_base_tx.dds', 'assets/characters/zed/skins/skin3/zed_skin3_tx.en_us.dds', 'data/a/b1.bin', 'assets/s.ps_2_0']
GAME_ASKED = ['assets/characters/annie/skins/base/annie_base_tx.en_us.dds', 'assets/characters/annie/skins/base/annie_base_tx.fr_fr.dds',
              'assets/characters/zed/skins/base/zed_base_tx.en_us.dds', 'assets/characters/zed/skins/base/2x_zed_base_tx.en_us.dds', 'data/a/b2.bin', 'data/a/b2.dds',
              'assets/s.ps_2_0.dx11_100', 'data/zed_skins_skin0_skins_skin3.bin', 'data/characters/zed/zed.bin', 'data/characters/b2.bin']

LCU_STEPS = {
    'numbers': lambda g: g.substitute_numbers(5),
    'digits': lambda g: g.substitute_numbers(9, digits=True),
    'basenames': lambda g: g.substitute_basenames(),
    'words': lambda g: g.substitute_basename_words(),
    'words2': lambda g: g.substitute_basename_words(words=['default', 'b'], nold=2, nnew=1),
    'words12': lambda g: g.substitute_basename_words('rcp-fe-a', '.png', ['b', 'c'], 1, 2),
    'add': lambda g: g.add_basename_word(),
    'ext': lambda g: g.substitute_extensions(),
    'region': lambda g: g.substitute_region_lang(),
    'plugin': lambda g: g.substitute_plugin(),
    'patterns': lambda g: g.guess_patterns(),
    'game': lambda g: g.guess_from_game_hashes(),
    'names': lambda g: g.check_basenames(['y.js', 'index.html']),
    'list': lambda g: g.check_text_list(' '.join(LCU_ASKED[:2]) + '\nfoo ' + LCU_KNOWN[0]),
    'is': lambda g: g.is_known(LCU_ASKED[4]),
}
GAME_STEPS = {
    'numbers': lambda g: g.substitute_numbers(),
    'digits': lambda g: g.substitute_numbers(9, digits=1),
    'basenames': lambda g: g.substitute_basenames(),
    'words': lambda g: g.substitute_basename_words(),
    'add': lambda g: g.add_basename_word(),
    'ext': lambda g: g.substitute_extensions(),
    'prefixes': lambda g: g.check_basename_prefixes(),
    'prefix': lambda g: g.check_basename_prefixes(['x_', '2x_']),
    'character': lambda g: g.substitute_character(),
    'skin': lambda g: g.substitute_skin_numbers(),
    'suffixes': lambda g: g.substitute_suffixes(),
    'lang': lambda g: g.substitute_lang(),
    'groups': lambda g: g.guess_skin_groups_bin(),
    'lcu': lambda g: g.guess_from_lcu_hashes(),
    'files': lambda g: g.guess_characters_files(),
    'files1': lambda g: g.guess_characters_files(['zed']),
    'shader': lambda g: g.guess_shader_variants(),
    'grep': lambda g: g.grep_file(data=b'\x0e\x00DATA/a/b2.bin DATA/a/b2.dds'),
    'list': lambda g: g.check_iter(iter(GAME_ASKED[:3] + ['foo'])),
    'check': lambda g: g.check(GAME_ASKED[4]),
}
STEPS = {'lcu': (LCU_KNOWN, LCU_ASKED, LCU_STEPS), 'game': (GAME_KNOWN, GAME_ASKED, GAME_STEPS)}


def bases(kind):
    known = STEPS[kind][0]
    return [tuple(known), tuple(known[:1]), tuple(known[1:]), ()]


def units(tier):
    u = [{'part': 'lists', 'width': w, 'n': n, 'k': k} for w in (16, 8) for n in range(4 if tier == 'quick' else 5) for k in range(1 if n < 3 else 3)]
    u += [{'part': 'large', 'width': w} for w in (16, 8)]
    u += [{'part': 'load'}, {'part': 'unknown'}, {'part': 'wads'}]
    u += [{'part': 'candidates', 'first': i} for i in range(5)]
    u += [{'part': 'steps', 'kind': kind, 'base': b} for kind in STEPS for b in range(4)]
    u += [{'part': 'sigint', 'kind': kind} for kind in STEPS]
    return u


def run(unit, ctx):
    globals()[f"run_{unit['part']}"](unit, ctx)


def run_lists(unit, ctx):
    width, n = unit['width'], unit['n']
    hashes = HASHES[width]
    combos = list(itertools.combinations(TEXTS, n))[unit['k']::1 if n < 3 else 3]
    with ctx.tmp() as tmp:
        for texts in combos:
            for hs in itertools.permutations(hashes, n):
                for order in ([0] if n < 2 else [0, 1]):
                    mapping = dict(zip(hs, texts))
                    if order:
                        mapping = dict(reversed(mapping.items()))
                    check_list(ctx, tmp, width, mapping)
        # same text for several hashes
        for t in TEXTS if n == 2 else ():
            check_list(ctx, tmp, width, {hashes[3]: t, hashes[0]: t, hashes[1]: 'm'})


def run_large(unit, ctx):
    from ..enc import LARGE
    width = unit['width']
    with ctx.tmp() as tmp:
        for n in LARGE:
            mapping = {(i * 0x9e3779b97f4a7c15 & 0xffffffffffffffff if width == 16 else i * 0x9e3779b1 & 0xffffffff): f"data/{i * 7919 % n}/file{i % 10}.bin" for i in range(n)}
            check_list(ctx, tmp, width, mapping, {'texts': n})
            check_list(ctx, tmp, width, {3: 'x' * n, 2: 'y', 5: 'z' * n}, {'length': n})


def check_list(ctx, tmp, width, mapping, desc=None):
    path = f"{tmp}/hashes.txt"
    with ctx.case({'save': desc or mapping, 'width': width}):
        hf = HashFile(path, width) if width != 16 else HashFile(path)
        hf.hashes = dict(mapping)
        hf.save()
        with open(path, 'rb') as f:
            raw = f.read()
        lines = raw.decode('utf-8').split('\n')
        ctx.equal(lines.pop(), '', 'what follows the last line')
        texts = [l[width + 1:] for l in lines]
        ctx.equal(texts, sorted(texts), 'saved texts (sorted)')
        ctx.equal(sorted(lines), sorted(f"{h:0{width}x} {t}" for h, t in mapping.items()), 'saved lines')
        hf = HashFile(path, width)
        ctx.equal(hf.load(), mapping, 'loaded list')
        hf.save()
        with open(path, 'rb') as f:
            ctx.equal(f.read(), raw, 'list saved again')
        ctx.equal(sorted(f for f in os.listdir(tmp) if f not in ('link', '.sentinel')), ['hashes.txt'], 'files')
        # a list which is a link to another directory (as set up by users who share their lists)
        link = f"{tmp}/link/{width}.txt"
        if not os.path.lexists(link):
            os.makedirs(os.path.dirname(link), exist_ok=True)
            os.symlink('../hashes.txt', link)
        hf = HashFile(link, width)
        hf.hashes = {**mapping, 77: 'more'}
        hf.save()
        ctx.equal((os.path.islink(link), HashFile(path, width).load(force=True), os.listdir(f"{tmp}/link").count('.part')), (True, {**mapping, 77: 'more'}, 0), 'list saved through a link')
        if mapping:
            ctx.nontrivial((width, sorted(mapping.items())))
        ctx.state((width, raw))
        ctx.transition(3)
        ctx.trace()


def run_load(unit, ctx):
    """Lists as they are published, cached and reloaded"""
    lines = [(0x1f, 'b'), (2**64 - 1, 'a/é x'), (3, '')]
    with ctx.tmp() as tmp:
        path = f"{tmp}/h.txt"
        for order in itertools.permutations(lines):
            for eol, last, upper, pad in itertools.product(('\n', '\r\n'), (True, False), (False, True), (True, False)):
                with ctx.case({'load': order, 'eol': eol, 'last': last, 'upper': upper, 'pad': pad}):
                    text = eol.join((f"{h:016X}" if upper else f"{h:016x}" if pad else f"{h:x}") + ' ' + t for h, t in order) + (eol if last else '')
                    with open(path, 'w', encoding='utf-8', newline='') as f:
                        f.write(text)
                    ctx.equal(HashFile(path).load(), dict(order), 'loaded list')
                    ctx.nontrivial(text)
        for a, b in itertools.product(range(8), repeat=2):
            with ctx.case({'reload': (a, b)}):
                la = [l for i, l in enumerate(lines) if a >> i & 1]
                lb = [l for i, l in enumerate(lines) if b >> i & 1]
                hf = HashFile(path)
                for content in (la, lb):
                    with open(path, 'w', encoding='utf-8') as f:
                        f.write(''.join(f"{h:016x} {t}\n" for h, t in content))
                    if content is la:
                        ctx.equal(hf.load(), dict(la), 'loaded list')
                ctx.equal(hf.load(), dict(la), 'cached list')
                ctx.equal(hf.load(force=True), dict(lb), 'reloaded list')
                ctx.equal(hf.load(), dict(lb), 'cached list, after a reload')
                ctx.transition(4)
                ctx.trace()
        with ctx.case({'load': 'missing'}):
            hf = HashFile(f"{tmp}/nothing.txt")
            try:
                hf.load()
            except FileNotFoundError as e:
                ctx.check('nothing.txt' in str(e), 'the error does not tell the file')
            else:
                ctx.fail('a missing list is loaded')
            ctx.check(not os.path.exists(f"{tmp}/nothing.txt"), 'the file is created')
            with open(f"{tmp}/nothing.txt", 'w') as f:
                f.write('1f b\n')
            ctx.equal(hf.load(), {0x1f: 'b'}, 'list, once present')


def run_unknown(unit, ctx):
    pool = [0, 5, 2**64 - 1]
    names = ['lcu.unknown.txt', 'game.unknown.txt', 'game.txt']
    contents = list(subsets(pool))
    for combo in itertools.product([None] + contents, repeat=3):
        with ctx.tmp() as tmp, ctx.case({'unknown': combo}):
            exp = set()
            for name, c in zip(names, combo):
                if c is None:
                    continue
                with open(f"{tmp}/{name}", 'w') as f:
                    f.write(''.join(f"{h:016x}\n" for h in c))
                if 'unknown' in name:
                    exp |= set(c)
            ctx.equal(hmod.HashGuesser.unknown_from_export(tmp), exp, 'unknown hashes')
            ctx.nontrivial(combo)


def run_wads(unit, ctx):
    """The hashes asked for are those of the WADs of the right kind, without the known ones"""
    texts = ['assets/a.dds', 'assets/b.dds', 'assets/c.dds']
    with ctx.tmp() as tmp:
        for kind in ('lcu', 'game'):
            guess.set_list(kind, ['assets/a.dds'], f"{tmp}/{kind}.txt")
        for na, nb, nc in itertools.product(range(8), repeat=3):
            with ctx.case({'wads': (na, nb, nc)}):
                wads = []
                for name, n in (('a.wad', na), ('b.wad.client', nb), ('c.wad', nc)):
                    entries = [enc.WadEntry(enc.wad_hash(t), t.encode(), duplicate=i == 2 or n == 3) for i, t in enumerate(texts) if n >> i & 1]
                    with open(f"{tmp}/{name}", 'wb') as f:
                        f.write(enc.wad((3, 1), entries))
                    wads.append(Wad(f"{tmp}/{name}"))
                for cls, mask in ((hmod.LcuHashGuesser, na | nc), (hmod.GameHashGuesser, nb)):
                    g = cls.from_wads(wads)
                    ctx.equal(set(g.unknown), {enc.wad_hash(t) for i, t in enumerate(texts) if i and mask >> i & 1}, f"hashes asked for by {cls.__name__}")
                ctx.nontrivial((na, nb, nc))


# ---- direct candidates: exact result

def entries_of(tmp):
    def text_list(g, cands):
        g.check_text_list(' \n'.join(cands))

    def xdbg(g, cands):
        with open(f"{tmp}/x.txt", 'w') as f:
            f.write('header "no"\n' + ''.join(f'hash: "{c}" "z"\nother "{c}x"\n' for c in cands))
        g.check_xdbg_hashes(f"{tmp}/x.txt")

    def one(g, cands):
        for c in cands:
            g.check(c)

    def known(g, cands):
        return [g.is_known(c) for c in cands]
    return {'check': one, 'is_known': known, 'iter': lambda g, c: g.check_iter(iter(c)), 'list': lambda g, c: g.check_iter(list(c)), 'text': text_list, 'xdbg': xdbg}


def run_candidates(unit, ctx):
    pool = ['k/known.a', 'u1', 'u2/é.b', 'missed', 'U1']
    known = ['k/known.a']
    maxlen = 4 if ctx.tier == 'quick' else 5
    with ctx.tmp() as tmp:
        table = entries_of(tmp)
        for n in range(maxlen):
            for rest in itertools.product(pool, repeat=n):
                cands = (pool[unit['first']],) + rest
                for asked in subsets(['k/known.a', 'u1', 'u2/é.b', 'U1']):
                    for name, f in table.items():
                        if n == maxlen - 1 and name != ('iter', 'is_known', 'text', 'check')[len(asked) % 4]:
                            continue
                        with ctx.case({'entry': name, 'candidates': cands, 'asked': asked}):
                            r = guess.Run('game', known, asked)
                            ret = r.step(lambda g: f(g, cands))
                            r.check_safe(ctx)
                            exp = {c for c in cands if c in asked and c not in known}
                            ctx.equal(r.found(), exp, 'found texts')
                            if ret is not None:
                                ctx.equal(ret, [c in asked or c in known for c in cands], 'answers')
                            order = [c for i, c in enumerate(cands) if c in exp and c not in cands[:i]]
                            ctx.equal(r.out, ''.join(f"{h64(c):016x} {c}\n" for c in order), 'printed matches')
                            if asked:
                                ctx.nontrivial((name, cands, asked))
                            ctx.transition()
        with ctx.case({'entry': 'a string'}):
            r = guess.Run('game', known, ['u1'])
            try:
                r.step(lambda g: g.check_iter('u1'))
            except TypeError:
                pass
            else:
                ctx.fail('a single string is accepted as a list')
            r.check_safe(ctx)


# ---- sequences of guessing steps

def run_steps(unit, ctx):
    kind = unit['kind']
    _, asked, steps = STEPS[kind]
    known = bases(kind)[unit['base']]
    asked = (asked[:6] + asked[7:] if ctx.tier == 'quick' and not unit['base'] else asked) + ['not/reachable.x']
    guess.set_list('game' if kind == 'lcu' else 'lcu', ['assets/a/y.dds', 'plugins/rcp-be-lol-game-data/global/default/assets/zz.png'])
    seen = set()
    todo = [((), copy.deepcopy(guess.Run(kind, known, asked)), None)]
    with ctx.tmp() as tmp:
        while todo:
            prefix, node, cache = todo.pop()
            for name in steps:
                seq = prefix + (name,)
                with ctx.case({'kind': kind, 'known': known, 'steps': seq}):
                    r = copy.deepcopy(node)
                    before = dict(r.g.known)
                    r.step(steps[name])
                    new_cache = frozenset(before) if name in ('basenames', 'names') and cache is None else cache
                    r.check_safe(ctx, before)
                    new = [(h, t) for h, t in r.g.known.items() if h not in before]
                    ctx.equal(sorted(r.last_out.splitlines()), sorted(f"{h:016x} {t}" for h, t in new), 'printed matches')
                    ctx.transition()
                    found = frozenset(r.found())
                    ctx.outcome(sorted(found))
                    key = (found, new_cache)
                    if key in seen:
                        continue
                    seen.add(key)
                    ctx.state((kind, unit['base'], sorted(found), sorted(new_cache or ())))
                    ctx.nontrivial((kind, known, seq))
                    ctx.maxi('depth', len(seq))
                    todo.append((seq, r, new_cache))
                    # the list is saved and loaded again, and the whole sequence gives the same on new objects
                    r.g.hashfile.filename = f"{tmp}/h.txt"
                    r.g.save()
                    ctx.equal(HashFile(f"{tmp}/h.txt").load(), dict(r.g.known), 'saved list')
                    if len(seen) % 16 == 1 or len(seq) < 4:
                        r2 = guess.Run(kind, known, asked)
                        for s in seq:
                            r2.step(steps[s])
                        ctx.equal(r2.found(), set(found), 'texts found by the same steps, again')
                        # a second guesser starts where the first one stopped
                        ctx.equal(set(guess.KINDS[kind][0](r2.asked).unknown), set(r.g.unknown), 'unknown hashes of a new guesser')
                        ctx.trace()


def run_sigint(unit, ctx):
    """Ctrl-C displays the progress of a step, and nothing else"""
    kind = unit['kind']
    known, asked, steps = STEPS[kind]
    guess.set_list('game' if kind == 'lcu' else 'lcu', ['assets/a/y.dds', 'plugins/rcp-be-lol-game-data/global/default/assets/zz.png'])
    cls = guess.KINDS[kind][0]
    import signal
    for name, f in steps.items():
        r = guess.Run(kind, known, asked)
        r.step(f)
        exp = r.found()
        calls = {}
        for every in (1, 2, 3):
            with ctx.case({'kind': kind, 'step': name, 'ctrl-c each': every}):
                r = guess.Run(kind, known, asked)
                n = 0
                real = r.g.check_iter
                with guess.terminal_sigint(every) as hit:
                    base_handler = signal.getsignal(signal.SIGINT)
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                    own = signal.getsignal(signal.SIGINT)

                    def check_iter(paths):
                        nonlocal n
                        n += 1
                        if n % every == 0 and signal.getsignal(signal.SIGINT) is not own:
                            hit()
                        return real(paths)
                    r.g.check_iter = check_iter
                    r.step(f)
                    ctx.check(signal.getsignal(signal.SIGINT) is own, 'the handler of Ctrl-C is not restored')
                    signal.signal(signal.SIGINT, base_handler)
                r.check_safe(ctx)
                ctx.equal(r.found(), exp, 'found texts')
                ctx.nontrivial((kind, name, every))
                ctx.bump('interrupted_steps')
