"""Killed downloads"""
from .. import faults, fsx
from ..faults import SCENARIOS, Stage
from .c01 import diff

ID = 'C02'
FIXED_ORDER = True  # the same operations in each run of a case
LEVEL = 'exploration'
RULE = 'distinct (scenario, kill point, what follows) combinations'
BOUNDS = {'quick': 'a kill before every request, and before, in the middle of and after every file-system effect, of 16 scenarios; followed by the same command, and for 5 scenarios by another command and then the same one',
          'thorough': 'as quick with 19 scenarios, then also a second kill at every such point of the repair run after each kill'}
ASSUMPTIONS = ['effects reach the disk in order (power loss is not modelled)', 'bundles are downloaded one after the other (schedules are explored by C05)', 'temporary files may remain, under names starting with a dot']
HASHFILES = {}
SKIPPED = ['default patcher storage', 'first patcher download without links', 'first patcher versions']    # in quick


def cli(*args):
    return lambda root, state: faults.cli(*args)


BETWEEN = {
    'first patcher download': ('guess', cli('files', '-s', 'cdn', 'game=')),
    'patcher update': ('versions', cli('versions', '-s', 'cdn', 'patch')),
    'patcher update without links': ('other', cli('download', '-s', 'cdn', 'client=10.1')),
    'RADS update': ('files', cli('files', '-s', 'rads:rads', 'client=')),
    'first RADS download': ('versions', cli('versions', '-s', 'rads:rads', 'patch')),
}


def expect(ctx, r, ref, what):
    """A run without fault"""
    ctx.equal((r.status, r.error), ('done', ''), what)
    ctx.equal(r.output, ref.output, f"output of the {what}")


def content(ctx, st, final):
    now = faults.normalized(fsx.snapshot(st.root))
    if now != final:
        diff(ctx, now, final)
    for k, v in faults.seen(st.root).items():
        if v is None:
            ctx.fail(f"link without its file: {k}")
    return now


def run(unit, ctx):
    fsx.install()
    name, kind = unit['scenario'], unit['kind']
    with ctx.tmp() as tmp:
        st = Stage(name, tmp)
        with ctx.case({'scenario': name, 'kill': None}):
            ctx.equal((st.reference.status, st.reference.error), ('done', ''), 'run without fault')
            ctx.maxi('steps', len(st.reference.events))
        if st.reference.status != 'done':
            return
        final, ref, other = st.final, st.reference, None
        if kind == 'other':
            what, command = BETWEEN[name]
            with ctx.case({'scenario': name, 'kill': None, 'other': what}):
                st.restore()
                other = faults.run(st.s, st.root, 1, command=command)
                ref = faults.run(st.s, st.root, 2)
                final = faults.normalized(fsx.snapshot(st.root))
                ctx.equal((other.status, other.error, ref.status, ref.error), ('done', '', 'done', ''), 'runs without fault')
                # what the other command says once the download is complete
                complete = faults.run(st.s, st.root, 3, command=command)
                ctx.equal((complete.status, complete.error), ('done', ''), 'other command at the end')
                if faults.normalized(fsx.snapshot(st.root)) != final:
                    diff(ctx, faults.normalized(fsx.snapshot(st.root)), final)
        cases = [(e, a) for e in st.reference.events for a in faults.kills_for(e)]
        for i, (e, a) in enumerate(cases):
            if i % unit['parts'] != unit['part']:
                continue
            desc = {'scenario': name, 'step': e, 'kill': a}
            if kind == 'other':
                desc['other'] = BETWEEN[name][0]
            kills = [None]
            with ctx.case(lambda: desc):
                st.restore()
                r = faults.run(st.s, st.root, 0, e, a)
                ctx.equal(r.status, 'killed', 'first run')
                after = faults.normalized(fsx.snapshot(st.root))
                if kind == 'other':
                    r = faults.run(st.s, st.root, 1, command=command)
                    expect(ctx, r, complete if r.output == complete.output else other, 'other command')
                r = faults.run(st.s, st.root, 2)
                expect(ctx, r, ref, 'repair')
                content(ctx, st, final)
                ctx.nontrivial((name, e, a, kind))
                ctx.outcome((name, kind, repr(sorted(after.items()))))
                if ctx.tier == 'thorough' and kind == 'same' and r.events:
                    kills = [(e2, a2) for e2 in r.events for a2 in faults.kills_for(e2)]
                    ctx.bump('pairs', len(kills))
            if kills == [None]:
                continue
            for e2, a2 in kills:
                with ctx.case(lambda: dict(desc, second=[e2, a2])):
                    st.restore()
                    faults.run(st.s, st.root, 0, e, a)
                    r = faults.run(st.s, st.root, 1, e2, a2)
                    ctx.equal(r.status, 'killed', 'second run')
                    r = faults.run(st.s, st.root, 2)
                    expect(ctx, r, ref, 'second repair')
                    content(ctx, st, final)
                    ctx.nontrivial((name, e, a, e2, a2))


def units(tier):
    parts = 8 if tier == 'thorough' else 3
    u = [{'scenario': s, 'kind': 'same', 'parts': parts, 'part': i} for s in SCENARIOS if tier == 'thorough' or s not in SKIPPED for i in range(parts)]
    u += [{'scenario': s, 'kind': 'other', 'parts': parts, 'part': i} for s in BETWEEN for i in range(parts)]
    return u
