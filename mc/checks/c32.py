"""Exports and extractions interrupted at every file-system step, then run again"""
import itertools
import os
import shutil

from .. import enc, families, fsx, patches
from ..families import content, MixedFamily, GAME_WAD
from ..patches import Store, RawExporter, Wad, element, sample
from cdtb.wad import Wad as CdtbWad

ID = 'C32'
FIXED_ORDER = True  # the same operations in each run of a case
LEVEL = 'exploration'
RULE = 'distinct (scenario, fault, step) combinations; each one interrupts a run'
BOUNDS = {'quick': 'every file-system step of 10 scenarios, each with 6 faults (disk full, write error or Ctrl-C before the step, half of a write, killed before, in the middle of and after the step), then the next run',
          'thorough': 'as quick, and after one step in 6 the next run is interrupted as well at every step'}
ASSUMPTIONS = ['the directory is empty or holds whole files before the interrupted run', 'a kill loses buffered data but not what was handed to the system']
HASHFILES = families.HASHFILES


def eio():
    return OSError(5, 'Input/output error')


FAULTS = {
    'disk full': lambda: ('raise', fsx.enospc()),
    'ctrl-c': lambda: ('raise', KeyboardInterrupt()),
    'partial write': lambda: ('partial', eio()),
    'partial write, ctrl-c': lambda: ('partial', KeyboardInterrupt()),
    'kill': lambda: ('kill',),
    'kill in write': lambda: ('kill_partial',),
    'kill after': lambda: ('kill_after',),
}


class Export:
    """Export of a patch"""
    whole_previous = False

    def __init__(self, linked=False, former=None, big=False):
        self.linked, self.former, self.big = linked, former, big

    def elements(self, store, n, version):
        plain = [('a.txt', b'a' * (300000 if self.big else 3) + b'%d' % n, ''), ('d/b.txt', b'b', ''), ('d/c.txt', b'c', ''), ('e/f.txt', b'f%d' % n, ''), ('e/g.txt', b'g', '')]
        entries = [('data/b.bin', None, content('data/b.bin', n), 'zstd'), ('assets/s/t.skn', None, content('.skn', n), 'zstd'), ('assets/d/i.dds', None, content('.dds', n), 'zstd'),
                   ('assets/s/u.tex', None, content('.tex', n), 'raw'), ('data/menu/en_us/lol.stringtable', None, content('.stringtable', n), 'gzip'), ('assets/d/bad.tga', None, b'bad', 'raw'),
                   ('assets/extless', None, sample('atlas', n), 'raw'), ('assets/y.txt', None, b'y', 'raw')]
        return [element(store, 'game', version, plain, [Wad(GAME_WAD, entries)])]

    def setup(self, tmp):
        store = Store(f"{tmp}/store")
        self.out = f"{tmp}/base/14.6"
        self.prev = patches.patch(self.elements(store, 0, '14.5'))
        RawExporter(f"{tmp}/base/14.5", self.prev).process()
        self.patch = patches.patch(self.elements(store, 1, '14.6'))
        self.old = {}
        if self.former:
            RawExporter(self.out, patches.patch(self.elements(store, 2, '14.6')), self.prev if self.former == 'linked' else None).process()
            self.old = self.snapshot()

    def snapshot(self):
        if not os.path.isdir(self.out):
            return {}
        return {k: v for k, v in fsx.snapshot(self.out).items() if v != ('d',) and not k.startswith('cdragon/')}

    def run(self, overwrite):
        RawExporter(self.out, self.patch, self.prev if self.linked else None).process(overwrite=overwrite)


class Extract:
    """Extraction of a WAD"""
    old = {}

    def __init__(self, unknown=False, former=None):
        self.unknown, self.former = unknown, former

    def setup(self, tmp):
        def wad(n):
            entries = [enc.WadEntry(enc.wad_hash(p), c, k) for p, c, k in (('assets/x.txt', b'x' * 200000 + b'%d' % n, 'zstd'), ('assets/y.txt', b'y', 'raw'), ('assets/d/i.dds', content('.dds', n), 'gzip'), ('assets/extless', b'e%d' % n, 'raw'))]
            entries.append(enc.WadEntry(0x1234, b'{"a": %d}' % n, 'zstd'))
            entries.append(enc.WadEntry(0x1235, b'target', 'link'))
            return enc.wad((3, 3), entries)
        self.out = f"{tmp}/out"
        self.tmp = tmp
        for n in (1, 2):
            with open(f"{tmp}/{n}.wad.client", 'wb') as f:
                f.write(wad(n))
        if self.former:
            self.extract(2, True)
            self.old = self.snapshot()

    snapshot = Export.snapshot

    def extract(self, n, overwrite):
        w = CdtbWad(f"{self.tmp}/{n}.wad.client")
        w.guess_extensions()
        w.extract(self.out, overwrite=overwrite)

    def run(self, overwrite):
        self.extract(1, overwrite)


SCENARIOS = {
    'export': lambda: Export(),
    'export of a large file': lambda: Export(big=True),
    'linked export': lambda: Export(True),
    'export over a former one': lambda: Export(former='full'),
    'export over a linked one': lambda: Export(former='linked'),
    'linked export over a full one': lambda: Export(True, former='full'),
    'linked export over a linked one': lambda: Export(True, former='linked'),
    'extraction': lambda: Extract(),
    'extraction over a former one': lambda: Extract(former=True),
}


def interrupt(s, tmp, index, fault, overwrite):
    """Run with a fault at a step. Return 'done', 'raised', 'killed' or None if there is no such step"""
    hit = []

    def decide(i, op, path, size):
        if i == index:
            hit.append(op)
            return FAULTS[fault]()
    c = fsx.Controller(tmp, decide)
    if fault.startswith('kill'):
        def go():
            with fsx.active(c):
                s.run(overwrite)
        code = fsx.run_killed(go)
        return {0: 'done', 77: 'killed'}.get(code, f"status {code}")
    try:
        with fsx.active(c):
            s.run(overwrite)
    except (OSError, KeyboardInterrupt):
        return 'raised' if hit else 'failed'
    return 'swallowed' if hit else 'done'


def steps_of(name, former_kept=True):
    return SCENARIOS[name]


def complete(ctx, s, snap, final, whole_old):
    """Each file present is complete"""
    for k, v in snap.items():
        if fsx.is_temporary(k):
            continue
        ctx.check(v == final.get(k) or v == s.old.get(k), lambda: f"truncated output {k}: {str(v)[:100]}")


def run(unit, ctx):
    fsx.install()
    name, fault = unit['scenario'], unit['fault']
    with ctx.tmp() as tmp:
        # reference
        s = SCENARIOS[name]()
        os.mkdir(f"{tmp}/ref")
        s.setup(f"{tmp}/ref")
        c = fsx.Controller(f"{tmp}/ref")
        with fsx.active(c):
            s.run(True)
        final = s.snapshot()
        ops = c.log
        shutil.rmtree(f"{tmp}/ref")
        ctx.maxi('steps', len(ops))
        # scenario to restore before each run
        s = SCENARIOS[name]()
        os.mkdir(f"{tmp}/w")
        s.setup(f"{tmp}/w")
        saved = f"{tmp}/saved"
        shutil.copytree(f"{tmp}/w", saved, symlinks=True)

        def restore():
            shutil.rmtree(f"{tmp}/w")
            shutil.copytree(saved, f"{tmp}/w", symlinks=True)
        prev = {k: v for k, v in fsx.snapshot(f"{tmp}/w").items() if not k.startswith(('base/14.6', 'out/'))}

        def others():
            return {k: v for k, v in fsx.snapshot(f"{tmp}/w").items() if not k.startswith(('base/14.6', 'out/'))}

        for i in range(len(ops) + 1):
            if fault == 'disk full' and i < len(ops) and ops[i][0] in ('remove', 'rmdir', 'unlink'):
                continue   # writes fail, not removals
            if fault in ('partial write', 'partial write, ctrl-c', 'kill in write') and i < len(ops) and ops[i][0] != 'write':
                continue
            seconds = [None]
            if ctx.tier == 'thorough' and i % 6 == 0:
                seconds += [(j, f) for j in range(len(ops)) for f in ('ctrl-c', 'kill', 'partial write', 'kill after')]
            for second in seconds:
                if second and second[1] == 'partial write' and ops[second[0]][0] != 'write':
                    continue
                desc = {'scenario': name, 'fault': fault, 'step': i, 'operation': ops[i] if i < len(ops) else 'none', 'second fault': second}
                with ctx.case(lambda: desc):
                    restore()
                    res = interrupt(s, f"{tmp}/w", i, fault, True)
                    ctx.bump(res)
                    if i == len(ops):
                        ctx.equal(res, 'done', 'result without fault')
                        ctx.equal(s.snapshot(), final, 'content without fault')
                        continue
                    killed = fault.startswith('kill')
                    if res == 'done' and fault == 'kill after' and ops[i][0] in ('mkdir', 'rmdir'):
                        continue   # the step itself failed, as without fault
                    if killed:
                        ctx.equal(res, 'killed', 'result of the run')
                    elif 'ctrl-c' not in fault and ops[i][0] in ('mkdir', 'remove', 'rmdir', 'unlink') or '(tree)' in ops[i][1]:
                        # failing to remove may be harmless, what matters is the final content
                        ctx.check(res in ('raised', 'swallowed'), f"result of the run: {res}")
                    else:
                        ctx.equal(res, 'raised', 'result of the run')
                    mid = s.snapshot()
                    if res == 'swallowed':
                        ctx.equal(mid, final, 'content after a harmless error')
                    if not killed:
                        complete(ctx, s, mid, final, True)
                    else:
                        complete(ctx, s, {k: v for k, v in mid.items() if not k.endswith('.obj')}, final, True)
                    # the next run: resume if it was reported on an empty directory, do it again otherwise
                    resume = not killed and not s.old
                    if second:
                        interrupt(s, f"{tmp}/w", second[0], second[1], not resume)
                        resume = resume and not second[1].startswith('kill')
                    s.run(not resume)
                    got = s.snapshot()
                    if got != final:
                        ctx.fail(f"content after the next run: {[k for k in set(got) ^ set(final)]}, {[k for k in set(got) & set(final) if got[k] != final[k]]}")
                    ctx.equal(others(), prev, 'previous export and sources')
                    ctx.nontrivial((name, fault, i, second))
                    ctx.outcome((name, sorted(mid.items())))


def units(tier):
    return [{'scenario': s, 'fault': f} for s in SCENARIOS for f in FAULTS]
