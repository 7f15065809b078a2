"""Confirm planted bugs: python3 tools/plant.py [--all | ID ...] [--check]

For each /verif/seeded/ID: the patch applies to /repo's HEAD, the tests pass with it, the demonstration
passes without it and fails with it; with --check, tells whether the check of its property catches it.
Works on a scratch copy of /repo."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = '/verif/seeded'


def run(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', **(env or {})}, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def confirm(id, check, others):
    out = []
    base = tempfile.mkdtemp(prefix=f"plant-{id}-", dir='/tmp')
    os.chmod(base, 0o755)
    try:
        copy, demo = f"{base}/repo", f"{base}/demo"
        shutil.copytree('/repo', copy, symlinks=True)
        run('git checkout -q -f HEAD && git clean -fdq', copy)
        shutil.copytree(f"{SEEDED}/{id}", demo)
        os.remove(f"{demo}/patch.diff")
        os.remove(f"{demo}/meta.json")
        meta = json.load(open(f"{SEEDED}/{id}/meta.json"))
        env = {'PYTHONPATH': copy}
        code, text = run(['bash', f"{demo}/demo.sh"], copy, env)
        if code != 0:
            out.append(f"demo fails without the patch: {text[-600:]}")
        code, text = run(['git', 'apply', f"{SEEDED}/{id}/patch.diff"], copy)
        if code != 0:
            return id, [f"patch: {text}"]
        code, text = run(['bash', f"{demo}/demo.sh"], copy, env)
        if code == 0:
            out.append('demo passes with the patch')
        else:
            out.append('demo: ' + ' / '.join(text.strip().splitlines()[-1:])[:150])
        code, text = run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests', copy, env)
        if code != 0:
            out.append(f"tests fail: {text[-400:]}")
        if check:
            for p in [meta['property'], *others]:
                code, text = run(['bash', '/verif/check.sh', p], '/verif', {'MC_REPO': copy, 'VERIF_TIER': 'quick', 'MC_OUT': base})
                if code == 1:
                    lines = [l.strip() for l in text.splitlines() if l.startswith('  ')]
                    out.append(f"{p} CAUGHT: {lines[1][:200] if len(lines) > 1 else ''}")
                else:
                    out.append(f"{p} {'MISSED' if code == 0 else 'ERROR ' + text[-500:]}")
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return id, out


def main():
    args = sys.argv[1:]
    check = '--check' in args
    others = [a[2:] for a in args if a.startswith('--C')]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(2 if check else 6) as ex:
        for id, out in ex.map(lambda i: confirm(i, check, others), ids):
            print(id, *[f"\n    {o}" for o in out], flush=True)


main()
