"""Runs checks against the planted bugs (in scratch clones) and prints which check catches which.

    python tools/sweep.py [--only PREFIX] [--all] [--tier quick] [--workers N]

--all runs every check on every bug, otherwise only the check of the bug's property.
Results are appended to /tmp/sweep.jsonl.
"""
import argparse, glob, json, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only', default='')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--workers', type=int, default=3)
    ap.add_argument('--checks', default='')
    a = ap.parse_args()
    checks = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    dirs = sorted(d for d in glob.glob(os.path.join(ROOT, 'seeded', '*'))
                  if os.path.basename(d).startswith(tuple(a.only.split(','))))

    def one(d):
        id = os.path.basename(d)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        todo = a.checks.split(',') if a.checks else checks if a.all else [prop]
        scratch = tempfile.mkdtemp(prefix='sweep-', dir='/tmp')
        rows = {}
        try:
            tree = os.path.join(scratch, 'repo')
            subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
            subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=tree, check=True)
            env = dict(os.environ, YARGY_REPO=tree, VERIF_EVIDENCE=os.path.join(scratch, 'evidence'))
            for c in todo:
                t = time.time()
                r = subprocess.run(['./check', c, '--tier', a.tier, '--seed', a.seed], cwd=ROOT, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                lines = [_ for _ in r.stdout.splitlines() if _.startswith('VIOLATION')]
                rows[c] = (r.returncode, bool(lines), round(time.time() - t))
                if r.returncode not in (0, 1):
                    rows[c] += (r.stdout[-300:],)
        finally:
            shutil.rmtree(scratch)
        return id, prop, rows

    missed = []
    with ThreadPoolExecutor(a.workers) as pool:
        for id, prop, rows in pool.map(one, dirs):
            with open('/tmp/sweep.jsonl', 'a') as f:
                f.write(json.dumps([id, prop, rows]) + '\n')
            own = rows.get(prop)
            caught = own and own[0] == 1 and own[1]
            if not caught:
                missed.append(id)
            print('%-34s %s  own=%s others=%s%s' % (
                id, 'CAUGHT' if caught else 'MISSED', own,
                ','.join(c for c, r in rows.items() if c != prop and r[0] == 1),
                ''.join(' ODD %s:%s' % (c, r) for c, r in rows.items() if r[0] not in (0, 1))), flush=True)
    print('missed', missed)


if __name__ == '__main__':
    main()
