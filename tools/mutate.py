#!/usr/bin/env python3
"""Mutants of the code under test, run against the units of the checks which execute the changed line.

  for c in ...: MC_COV=DIR bash check.sh Cnn       (lines executed by each unit)
  mutate.py COVDIR OUT [FILE...] [--second | --third] [--every N] [--start K] [--workers W]

--second, --third: other sets of operators. Survivors (detected neither by the checks nor by the tests of the repository) are written to OUT.
"""
import ast
import concurrent.futures
import glob
import json
import os
import random
import shutil
import subprocess
import sys

REPO = os.environ.get('MC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '*', ast.Mod: '+', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<', ast.Div: '*'}


class Source:
    def __init__(self, name):
        self.name = name
        with open(f"{REPO}/cdtb/{name}", encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.raw = self.text.encode()
        self.starts = [0]
        for l in self.raw.split(b'\n'):
            self.starts.append(self.starts[-1] + len(l) + 1)

    def span(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def get(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()


def skipped(src, node):
    """Logging, messages"""
    t = src.get(node)
    return t.startswith(('logger.', 'raise ', 'parser.error', 'parser.add', 'logging.', 'subparser.'))


def mutants(src):
    """Yield (line, start, end, replacement)"""
    def visit(node, infunc):
        if isinstance(node, ast.stmt) and infunc and skipped(src, node):
            return
        if isinstance(node, ast.FunctionDef) and node.name in ('__repr__', '__str__', 'create_parser', 'build_parser'):
            return
        if infunc:
            a, b = src.span(node) if hasattr(node, 'lineno') and hasattr(node, 'end_lineno') else (0, 0)
            line = getattr(node, 'lineno', 0)
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                l, r = src.get(node.left), src.get(node.comparators[0])
                for o in CMP.get(type(node.ops[0]), ()):
                    yield line, a, b, f"({l} {o} {r})"
            elif isinstance(node, ast.BoolOp):
                op = ' or ' if isinstance(node.op, ast.And) else ' and '
                yield line, a, b, '(' + op.join(f"({src.get(v)})" for v in node.values) + ')'
                for i in range(len(node.values)):
                    yield line, a, b, f"({src.get(node.values[i])})"
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                yield line, a, b, f"bool({src.get(node.operand)})"
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, (ast.Constant, ast.JoinedStr)):
                yield line, a, b, f"({src.get(node.left)} {BIN[type(node.op)]} {src.get(node.right)})"
            elif isinstance(node, ast.Constant) and type(node.value) is int:
                yield line, a, b, str(node.value + 1)
                if node.value > 0:
                    yield line, a, b, str(node.value - 1)
            elif isinstance(node, ast.Constant) and type(node.value) is bool:
                yield line, a, b, str(not node.value)
            elif isinstance(node, ast.Call):
                f = src.get(node.func)
                if f in ('sorted', 'set', 'list', 'reversed', 'os.path.normpath', 'tuple') and len(node.args) == 1:
                    yield line, a, b, f"({src.get(node.args[0])})"
                elif isinstance(node.func, ast.Attribute) and node.func.attr in ('lower', 'strip', 'rstrip', 'lstrip', 'splitlines', 'copy', 'items') and not node.args and node.func.attr in ('lower', 'strip', 'rstrip'):
                    yield line, a, b, f"({src.get(node.func.value)})"
                if node.keywords:
                    parts = [src.get(x) for x in node.args] + [f"{k.arg}={src.get(k.value)}" if k.arg else f"**{src.get(k.value)}" for k in node.keywords]
                    for i in range(len(node.args), len(parts)):
                        yield line, a, b, f"{f}({', '.join(parts[:i] + parts[i + 1:])})"
            elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
                v = src.get(node.value)
                lo, up = [src.get(x) if x else '' for x in (node.slice.lower, node.slice.upper)]
                if node.slice.lower:
                    yield line, a, b, f"{v}[:{up}]"
                if node.slice.upper:
                    yield line, a, b, f"{v}[{lo}:]"
            elif isinstance(node, ast.IfExp):
                yield line, a, b, f"({src.get(node.body)})"
                yield line, a, b, f"({src.get(node.orelse)})"
            elif isinstance(node, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in node.generators:
                    for c in g.ifs:
                        yield c.lineno, *src.span(c), 'True'
            elif isinstance(node, (ast.If, ast.While)):
                t = node.test
                if isinstance(node, ast.If):
                    yield t.lineno, *src.span(t), 'True'
                yield t.lineno, *src.span(t), 'False'
            elif isinstance(node, ast.Continue):
                yield line, a, b, 'break'
                yield line, a, b, 'pass'
            elif isinstance(node, ast.Break):
                yield line, a, b, 'continue'
                yield line, a, b, 'pass'
            elif isinstance(node, (ast.Expr, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
                yield line, a, b, 'pass'
            elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
                yield line, a, b, 'return None'
            elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
                yield line, a, b, 'pass'
            elif isinstance(node, ast.ExceptHandler) and node.type is not None and isinstance(node.type, ast.Tuple):
                for e in node.type.elts:
                    yield node.type.lineno, *src.span(node.type), src.get(e)
            elif isinstance(node, ast.With):
                pass
        for child in ast.iter_child_nodes(node):
            yield from visit(child, infunc or isinstance(node, (ast.FunctionDef, ast.Lambda)))
    yield from visit(src.tree, False)


ATTR = {'startswith': ['endswith'], 'endswith': ['startswith'], 'rsplit': ['split'], 'split': ['rsplit'], 'rfind': ['find'], 'partition': ['rpartition'], 'add': ['discard'], 'append': ['extend'], 'isdir': ['isfile'],
        'exists': ['isdir'], 'lexists': ['exists'], 'match': ['search'], 'search': ['match'], 'fullmatch': ['match', 'search'], 'rstrip': ['strip'], 'lstrip': ['strip'], 'strip': ['rstrip', 'lstrip'], 'basename': ['dirname'],
        'dirname': ['basename'], 'difference': ['union'], 'intersection': ['union'], 'pop': ['get'], 'lower': ['upper', 'casefold'], 'removesuffix': ['rstrip'], 'relpath': ['normpath'], 'realpath': ['abspath'], 'finditer': ['findall'], 'encode': [], 'remove': []}
FUNC = {'any': 'all', 'all': 'any', 'min': 'max', 'max': 'min', 'sorted': 'list'}


def names_of(fn):
    """Local names of a function, in order of appearance"""
    out = [a.arg for a in fn.args.args if a.arg not in ('self', 'cls')]
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out


def mutants2(src):
    """Wrong variables, methods, orders of statements, kinds of matches, and scopes"""
    def visit(node, fn):
        if isinstance(node, ast.stmt) and fn and skipped(src, node):
            return
        if isinstance(node, ast.FunctionDef):
            if node.name in ('__repr__', '__str__', 'create_parser', 'build_parser'):
                return
            fn = node
        if fn:
            a, b = src.span(node) if hasattr(node, 'lineno') and hasattr(node, 'end_lineno') else (0, 0)
            line = getattr(node, 'lineno', 0)
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
                names = names_of(fn)
                if node.id in names and len(names) > 1:
                    i = names.index(node.id)
                    # the closest ones, which are the most alike
                    for o in {names[i - 1] if i else names[1], names[(i + 1) % len(names)]} - {node.id}:
                        yield line, a, b, o
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                for o in ATTR.get(node.attr, ()):
                    yield line, a, b, f"{src.get(node.value)}.{o}"
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in FUNC:
                t = src.get(node)
                yield line, a, b, FUNC[node.func.id] + t[len(node.func.id):]
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('get', 'getv', 'pop') and len(node.args) == 2:
                yield line, a, b, f"({src.get(node)} or {src.get(node.args[1])})"
            elif isinstance(node, ast.Constant) and isinstance(node.value, str) and line == node.end_lineno and not isinstance(getattr(node, 'parent', None), ast.Expr):
                t = src.get(node)
                if len(node.value) >= 2 and t[-1:] in '"\'' and '{' not in t and t[:1] in 'rb"\'':
                    yield line, a, b, t[:-2] + t[-1]
                    q = t.index(t[-1])
                    yield line, a, b, t[:q + 1] + t[q + 2:]
            elif isinstance(node, ast.FormattedValue) and node.format_spec is not None:
                pass
            elif isinstance(node, ast.Dict) and len(node.keys) > 1:
                for k, v in zip(node.keys, node.values):
                    if k is not None:
                        (x, _), (_, y) = src.span(k), src.span(v)
                        rest = src.raw[y:b].decode().lstrip()
                        yield k.lineno, x, y + (len(src.raw[y:b].decode()) - len(rest) + 1 if rest.startswith(',') else 0), ''
            elif isinstance(node, (ast.Tuple, ast.List, ast.Set)) and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load) and len(node.elts) > 1:
                l, r = ('(', ')') if isinstance(node, ast.Tuple) else ('[', ']') if isinstance(node, ast.List) else ('{', '}')
                e = [src.get(x) for x in node.elts]
                for i in range(len(e)):
                    if not isinstance(node, ast.Tuple) or all(isinstance(x, ast.Constant) for x in node.elts):
                        yield line, a, b, l + ', '.join(e[:i] + e[i + 1:]) + (',' if isinstance(node, ast.Tuple) else '') + r
                if len(e) <= 4:
                    for i in range(len(e) - 1):
                        yield line, a, b, l + ', '.join(e[:i] + [e[i + 1], e[i]] + e[i + 2:]) + r
            elif isinstance(node, ast.IfExp):
                yield line, a, b, f"({src.get(node.orelse)} if {src.get(node.test)} else {src.get(node.body)})"
            for field in ('body', 'orelse', 'finalbody'):
                stmts = getattr(node, field, None)
                if not isinstance(stmts, list) or not all(isinstance(x, ast.stmt) for x in stmts):
                    continue
                for x, y in zip(stmts, stmts[1:]):
                    simple = (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For, ast.With)
                    if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and not (stored(x) & used(y) or stored(y) & used(x)):
                        continue  # independent
                    if isinstance(x, simple) and isinstance(y, simple):
                        (xa, xb), (ya, yb) = src.span(x), src.span(y)
                        yield x.lineno, xa, yb, src.raw[ya:yb].decode() + src.raw[xb:ya].decode() + src.raw[xa:xb].decode()
                # last statement of a block moved after it
                last = stmts[-1] if stmts else None
                if len(stmts) > 1 and isinstance(node, (ast.For, ast.While, ast.If, ast.With)) and isinstance(last, (ast.Expr, ast.Assign, ast.AugAssign)) and field == 'body' and not node_orelse(node):
                    la, lb = src.span(last)
                    start = src.starts[last.lineno - 1]
                    yield last.lineno, start, lb, ' ' * node.col_offset + src.raw[la:lb].decode()
        for child in ast.iter_child_nodes(node):
            yield from visit(child, fn)
    yield from visit(src.tree, None)


def mutants3(src):
    """State which survives calls, swallowed or raised errors, pieces of formats, attributes and bounds"""
    attrs = {}
    for cls in ast.walk(src.tree):
        if isinstance(cls, ast.ClassDef):
            names = []
            for n in ast.walk(cls):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Store) and n.attr not in names:
                    names.append(n.attr)
            for n in ast.walk(cls):
                attrs[n] = names

    def visit(node, fn):
        if isinstance(node, ast.stmt) and fn and skipped(src, node):
            return
        if isinstance(node, ast.FunctionDef):
            if node.name in ('__repr__', '__str__', 'create_parser', 'build_parser'):
                return
            if not any(isinstance(d, ast.Name) and d.id in ('contextmanager', 'property') for d in node.decorator_list):
                at = src.starts[(node.decorator_list[-1] if node.decorator_list else node).lineno - (0 if node.decorator_list else 1)]
                yield node.body[-1].lineno, at, at, ' ' * node.col_offset + '@__import__("functools").lru_cache(None)\n'
            fn = node
        if fn:
            a, b = src.span(node) if hasattr(node, 'lineno') and hasattr(node, 'end_lineno') else (0, 0)
            line = getattr(node, 'lineno', 0)
            if isinstance(node, ast.ListComp):
                yield line, a, b, '(' + src.get(node)[1:-1] + ')'
            elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Name, ast.Attribute)) and src.get(node.value) in ('{}', '[]', 'set()'):
                name = dotted(node.targets[0]).replace('.', '_')
                x, y = src.span(node.value)
                yield line, x, y, f"globals().setdefault('_shared_{fn.name}_{name}', {src.get(node.value)})"
            elif isinstance(node, ast.ExceptHandler):
                (x, _), (_, y) = src.span(node.body[0]), src.span(node.body[-1])
                if src.get(node.body[0]) != 'raise':
                    yield node.body[0].lineno, x, y, 'raise'
                if src.get(node.body[0]) != 'pass' or len(node.body) > 1:
                    yield node.body[0].lineno, x, y, 'pass'
                if node.type is not None:
                    yield node.body[0].lineno, *src.span(node.type), 'Exception'
            elif isinstance(node, ast.JoinedStr) and line == node.end_lineno:
                t = src.get(node)
                import re
                for m in re.finditer(r'\{[^{}]*\}', t):
                    yield line, a, b, t[:m.start()] + t[m.end():]
                    if ':' in m.group():
                        yield line, a, b, t[:m.start()] + re.sub(r':0?\d*', ':', m.group()) + t[m.end():]
                for m in re.finditer(r'[./_=:-]+(?![^{]*\})', t[2:-1]):
                    yield line, a, b, t[:2 + m.start()] + t[2 + m.end():]
            elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and isinstance(node.ctx, ast.Load):
                names = attrs.get(node, [])
                if node.attr in names and len(names) > 1:
                    i = names.index(node.attr)
                    for o in {names[i - 1] if i else names[1], names[(i + 1) % len(names)]} - {node.attr}:
                        yield line, a, b, f"{node.value.id}.{o}"
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'range':
                args = [src.get(x) for x in node.args]
                if len(args) == 1:
                    yield line, a, b, f"range(1, {args[0]})"
                    yield line, a, b, f"range({args[0]} - 1)"
                    yield line, a, b, f"range({args[0]} + 1)"
                    yield line, a, b, f"reversed(range({args[0]}))"
            elif isinstance(node, ast.For):
                it = node.iter
                yield line, *src.span(it), f"list({src.get(it)})[1:]"
                yield line, *src.span(it), f"list({src.get(it)})[:-1]"
                yield line, *src.span(it), f"list({src.get(it)})[::-1]"
                yield line, *src.span(it), f"list({src.get(it)})[:1]"
                if not node.orelse and len(node.body) > 1:
                    first = node.body[0]
                    if isinstance(first, ast.Assign):
                        # only once, before the others
                        pass
            elif isinstance(node, ast.If) and not node.orelse and isinstance(node.body[-1], (ast.Return, ast.Continue, ast.Raise)):
                x, y = src.span(node)
                yield line, x, y, 'pass'
            elif isinstance(node, ast.With):
                pass
            elif isinstance(node, ast.Slice):
                for side in (node.lower, node.upper):
                    if side is not None:
                        x, y = src.span(side)
                        yield side.lineno, x, y, f"({src.get(side)}) + 1"
            elif isinstance(node, ast.BoolOp) and len(node.values) == 2:
                op = ' and ' if isinstance(node.op, ast.And) else ' or '
                l, r = map(src.get, node.values)
                yield line, a, b, f"(not ({l}){op}({r}))"
                yield line, a, b, f"(({l}){op}not ({r}))"
            elif isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq)):
                l, r = src.get(node.left), src.get(node.comparators[0])
                if isinstance(node.comparators[0], ast.Constant) and isinstance(node.comparators[0].value, str):
                    yield line, a, b, f"({l}).lower() == {r}"
                    yield line, a, b, f"({r} in ({l}))"
        for child in ast.iter_child_nodes(node):
            yield from visit(child, fn)
    yield from visit(src.tree, None)


def dotted(n):
    return n.id if isinstance(n, ast.Name) else f"{dotted(n.value)}.{n.attr}" if isinstance(n, ast.Attribute) else '?'


def used(node):
    return {dotted(n) for n in ast.walk(node) if isinstance(n, (ast.Name, ast.Attribute))}


def stored(node):
    return {dotted(n) for n in ast.walk(node) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store)}


def node_orelse(node):
    return getattr(node, 'orelse', None)


def coverage(covdir):
    """{(file, line): {check: ([unit], wall)}}"""
    cov = {}
    for f in glob.glob(f"{covdir}/C*.json"):
        check = os.path.basename(f)[:3]
        with open(f) as fin:
            for u in json.load(fin):
                for p, n in u['lines']:
                    units, wall = cov.setdefault((p, n), {}).get(check, ([], 0))
                    cov[p, n][check] = (units + [u['unit']], wall + u['wall'])
    return cov


def run(job):
    n, name, (line, a, b, new), hits, jobs = job
    src = Source(name)
    d = f"/tmp/mutate/{n}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    try:
        raw = src.raw[:a] + new.encode() + src.raw[b:]
        old = src.raw[a:b].decode()
        desc = f"{name}:{line} {old[:150]!r} -> {new[:150]!r}"
        try:
            ast.parse(raw)
        except SyntaxError:
            return 'invalid', desc, ''
        with open(f"{d}/cdtb/{name}", 'wb') as f:
            f.write(raw)
        env = dict(os.environ, MC_REPO=d, MC_OUT=f"/tmp/mutate/out{n}", VERIF_TIER='quick', MC_FAILFAST='1')
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True, timeout=300)
        if t.returncode:
            return 'tests', desc, ''
        errors = []
        for check, (units, _) in sorted(hits.items(), key=lambda x: x[1][1]):
            # some of them: those which survive are to be run again with all units
            e = dict(env, MC_UNITS=','.join(map(str, units[::len(units) // 16 + 1])))
            try:
                r = subprocess.run(['bash', f"{HERE}/check.sh", check, '--jobs', str(jobs)], env=e, capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                errors.append((check, 'timeout'))
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return 'killed', desc, check + (f" (errors: {errors})" if errors else '')
            if r.returncode != 0:
                errors.append((check, r.returncode, r.stderr[-300:]))
        return 'SURVIVED', desc, f"{sorted(hits)} {errors}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/mutate/out{n}", ignore_errors=True)


def main():
    args = sys.argv[1:]
    operators = mutants3 if '--third' in args else mutants2 if '--second' in args else mutants
    args = [x for x in args if x not in ('--second', '--third')]
    opts = {}
    for o in ('--every', '--start', '--workers', '--jobs'):
        if o in args:
            i = args.index(o)
            opts[o] = int(args[i + 1])
            del args[i:i + 2]
    covdir, out, *files = args
    cov = coverage(covdir)
    jobs = []
    for name in files or sorted(os.path.basename(f) for f in glob.glob(f"{REPO}/cdtb/*.py")):
        src = Source(name)
        for m in operators(src):
            hits = cov.get((name, m[0]))
            if hits:
                jobs.append((len(jobs), name, m, hits, opts.get('--jobs', 2)))
    print(len(jobs), 'mutants', flush=True)
    random.Random(5).shuffle(jobs)
    jobs = jobs[opts.get('--start', 0)::opts.get('--every', 1)]
    count = {}
    with open(out, 'a') as f, concurrent.futures.ThreadPoolExecutor(opts.get('--workers', 3)) as ex:
        for i, fut in enumerate(concurrent.futures.as_completed([ex.submit(run, j) for j in jobs])):
            status, desc, info = fut.result()
            count[status] = count.get(status, 0) + 1
            if status not in ('killed', 'tests', 'invalid') or 'errors' in info:
                f.write(f"{status} {desc} {info}\n")
                f.flush()
            if i % 20 == 0:
                print(i, len(jobs), count, flush=True)
    print(count)


if __name__ == "__main__":
    main()
