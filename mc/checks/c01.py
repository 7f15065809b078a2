"""Failed transfers"""
import shutil

from .. import faults, fsx
from ..faults import SCENARIOS, OBJECTS, Stage

ID = 'C01'
FIXED_ORDER = True  # the same operations in each run of a case
LEVEL = 'exploration'
RULE = 'distinct (scenario, step, fault, kind of retry) combinations'
BOUNDS = {'quick': 'every request (5 faults each: refused or timed out or HTTP error, body cut, Ctrl-C) and file-system effect (2 to 4 faults) of 16 scenarios, each followed by the same command, and for 5 of them by the same call on the same objects; Ctrl-C at the first execution of every line of code of 5 scenarios',
          'thorough': 'as quick with 19 scenarios, 8 or 9 faults for each request (3 positions of cuts), Ctrl-C at every execution of every line of all scenarios (up to 3000), and every fault at every step of the retry after each third fault'}
ASSUMPTIONS = ['RADS files which are not found (404) have a meaning and are not a fault', 'bundles are downloaded one after the other (schedules are explored by C05)', 'temporary files may remain, under names starting with a dot']
HASHFILES = {}
LINES = ['patcher update without links', 'RADS objects', 'hash refresh', 'hash saving', 'single files']
SKIPPED = ['default patcher storage', 'first patcher download without links', 'first patcher versions']    # in quick


def one(ctx, st, desc, target, action, lines=False, again=False, second=None):
    with ctx.case(lambda: desc):
        st.restore()
        r = faults.run(st.s, st.root, 0, target, action, lines=lines, again=again)
        ctx.bump(r.status)
        mid = fsx.snapshot(st.root) if not again else r.snapshot
        contents = faults.seen(st.root) if not again else r.seen
        ctx.check(r.status != 'stuck', 'the command does not end')
        ctx.check(r.hit, 'the step was not reached')
        if 'ctrl-c' in action:
            ctx.equal(r.status, 'interrupted', 'result')
        elif r.status != 'done':
            ctx.equal(r.status, 'raised', 'result')
        now = st.complete(ctx, mid, contents)
        if r.status == 'done':
            # fine if the step was useless, or done again
            if now != st.final:
                ctx.fail('the failure is not reported')
                diff(ctx, now, st.final)
            ctx.equal(r.output, st.reference.output, 'output')
            return
        if again:
            ctx.check(r.second is not None and r.second['status'] == 'done', f"second call: {r.second and r.second['status']} {r.second and r.second['error']}")
            last = r.second
        else:
            if second is not None:
                r = faults.run(st.s, st.root, 1, second[0], second[1])
                st.complete(ctx, fsx.snapshot(st.root), faults.seen(st.root))
            r = faults.run(st.s, st.root, 2)
            ctx.equal((r.status, r.error), ('done', ''), 'retry')
            last = r.__dict__
        if second is None or r.status == 'done':
            ctx.equal(last['output'], st.reference.output, 'output of the retry')
        after = faults.normalized(fsx.snapshot(st.root))
        if after != st.final:
            diff(ctx, after, st.final)
        ctx.nontrivial((st.name, target, action, again, second))
        ctx.outcome((st.name, sorted(now.items(), key=lambda p: p[0]).__repr__()))


def diff(ctx, after, final):
    ctx.fail(f"content after the retry: missing {sorted(set(final) - set(after))[:3]}, more {sorted(set(after) - set(final))[:3]}, different {sorted(k for k in after if k in final and after[k] != final[k])[:3]}")


def selected(events, tier):
    """Executions of lines to interrupt"""
    lines = [e for e in events if e[0] == 'line']
    if tier == 'thorough':
        return lines[:3000]
    return [e for e in lines if e[2] == 1]


def errors(i, event, scenario, tier):
    """Faults of a step; in quick, those of requests which are alike take turns"""
    if tier == 'thorough' or event[0] not in ('GET', 'HEAD'):
        return faults.errors_for(event, scenario)
    r = ['ctrl-c', ['connect', 'timeout', '500'][i % 3]] + (['404'] if '404' in scenario.statuses else ['403'])
    return r if event[0] == 'HEAD' else r + ['cut 0', ['cut half', 'cut last'][i % 2]]


def run(unit, ctx):
    fsx.install()
    name, kind = unit['scenario'], unit['kind']
    with ctx.tmp() as tmp:
        shutil.rmtree(f"{tmp}/.sentinel", ignore_errors=True)
        st = Stage(name, tmp, lines=kind == 'lines')
        with ctx.case({'scenario': name, 'fault': None}):
            ctx.equal((st.reference.status, st.reference.error), ('done', ''), 'run without fault')
            ctx.maxi('steps', len(st.reference.events))
        if st.reference.status != 'done':
            return
        if kind == 'lines':
            cases = [(e, 'ctrl-c') for e in selected(st.reference.events, ctx.tier)]
        else:
            cases = [(e, a) for i, e in enumerate(st.reference.events) for a in errors(i, e, st.s, ctx.tier)]
        for i, (e, a) in enumerate(cases):
            if i % unit['parts'] != unit['part']:
                continue
            desc = {'scenario': name, 'step': e, 'fault': a, 'retry': 'same objects' if kind == 'again' else 'same command'}
            one(ctx, st, desc, e, a, lines=kind == 'lines', again=kind == 'again')
            if ctx.tier == 'thorough' and kind == 'steps' and i // unit['parts'] % 3 == 0:
                for e2 in st.reference.events:
                    for a2 in faults.errors_for(e2, st.s):
                        one(ctx, st, dict(desc, second=[e2, a2]), e, a, second=(e2, a2))


def units(tier):
    parts = 8 if tier == 'thorough' else 3
    u = [{'scenario': s, 'kind': 'steps', 'parts': parts, 'part': i} for s in SCENARIOS if tier == 'thorough' or s not in SKIPPED for i in range(parts)]
    u += [{'scenario': s, 'kind': 'again', 'parts': 2, 'part': i} for s in OBJECTS for i in range(2)]
    u += [{'scenario': s, 'kind': 'lines', 'parts': 8, 'part': i} for s in (SCENARIOS if tier == 'thorough' else LINES) for i in range(8)]
    return u
