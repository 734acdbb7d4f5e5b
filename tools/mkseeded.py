"""Builds and validates the planted bugs of tools/seeds/*.py into /verif/seeded/<id>/.

Every definition is SEED(id, property, edits, needs, breaks, demo): edits are
(file, old, new) replacements of text that occurs exactly once. In a scratch
copy of /repo the tool checks that

* the demo passes on the unchanged tree and fails with the patch,
* the existing tests pass with the patch,
* the patch removes or changes at least one line of the original repository.

    python tools/mkseeded.py [--only PREFIX] [--force]
"""
import argparse, glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
OUT = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'
BASE = '2259dd4'

DEMO_SH = '''#!/bin/sh
# run with the repository as working directory
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def load():
    seeds = []
    for path in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(path)[:-3], path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        seeds.extend(module.SEEDS)
    ids = [_[0] for _ in seeds]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return seeds


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=600, **kw)


def build(seed, force):
    id, prop, edits, needs, breaks, demo = seed
    out = os.path.join(OUT, id)
    signature = json.dumps([prop, edits, needs, breaks, demo])
    marker = os.path.join('/tmp/seedmarks', id)
    if not force and os.path.exists(os.path.join(out, 'patch.diff')) and os.path.exists(marker):
        if open(marker).read() == signature:
            return id, 'kept'
    scratch = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        tree = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
        side = os.path.join(scratch, 'demo')
        os.mkdir(side)
        with open(os.path.join(side, 'demo.py'), 'w') as f:
            f.write(demo.lstrip('\n'))
        with open(os.path.join(side, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(side, 'demo.sh'), 0o755)
        demo_cmd = ['sh', os.path.join(side, 'demo.sh')]
        r = run(demo_cmd, tree)
        if r.returncode:
            return id, 'DEMO FAILS ON CLEAN TREE: ' + r.stdout[-500:]
        for file, old, new in edits:
            path = os.path.join(tree, file)
            text = open(path).read()
            if text.count(old) != 1:
                return id, 'EDIT: %d occurrences of %r' % (text.count(old), old[:60])
            open(path, 'w').write(text.replace(old, new))
        diff = run(['git', 'diff'], tree).stdout
        original = False
        for file in {_[0] for _ in edits}:
            blame = run(['git', 'blame', '-s', 'HEAD', '--', file], tree).stdout.splitlines()
            line = 0
            for row in run(['git', 'diff', '-U0', '--', file], tree).stdout.splitlines():
                if row.startswith('@@'):
                    line = int(row.split()[1][1:].split(',')[0])
                elif row.startswith('-') and not row.startswith('---'):
                    if blame[line - 1].lstrip('^').startswith(BASE):
                        original = True
                    else:
                        return id, 'CHANGES A LINE OF A FIX: ' + row
                    line += 1
        if not original:
            return id, 'NO ORIGINAL LINE CHANGED'
        r = run(demo_cmd, tree)
        if not r.returncode:
            return id, 'DEMO PASSES WITH PATCH'
        failure = r.stdout.strip().splitlines()[-1:]
        r = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--doctest-modules',
                 'yargy', 'tests'], tree)
        if r.returncode:
            return id, 'TESTS FAIL: ' + '\n'.join(r.stdout.splitlines()[-4:])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        for name in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(side, name), os.path.join(out, name))
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f,
                      indent=1, ensure_ascii=False)
            f.write('\n')
        os.makedirs('/tmp/seedmarks', exist_ok=True)
        open(marker, 'w').write(signature)
        return id, 'ok  (%s)' % (failure and failure[0][:100])
    finally:
        shutil.rmtree(scratch)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only', default='')
    ap.add_argument('--force', action='store_true')
    a = ap.parse_args()
    seeds = [s for s in load() if s[0].startswith(a.only)]
    bad = 0
    with ThreadPoolExecutor(8) as pool:
        for id, status in pool.map(lambda s: build(s, a.force), seeds):
            if not status.startswith(('ok', 'kept')):
                bad += 1
            print(id, status, flush=True)
    print('%d seeds, %d bad' % (len(seeds), bad))
    return bad


if __name__ == '__main__':
    sys.exit(bool(main()))
