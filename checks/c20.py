"""C20: results are deterministic across processes, hash seeds, addresses."""
import json
import os
import subprocess
import sys

from vlib.run import W, Skip, VERIF, REPO

RULE = (
    'A case is a batch of random programs (rules with sets, dictionaries, pipelines, relations, '
    'facts, recursion; their texts) that is run in several processes with different hash seeds, '
    'addresses, garbage collection, order of programs, insertion order of sets and unrelated '
    'objects alive. Digests of all matches, trees, facts, JSON, spans, BNF and graph listings '
    'must be equal in all processes. Non trivial: program with matches.'
)
TECHNIQUE = 'runtime monitoring: event digests of the same program compared across disturbed processes'
MINIMUMS = {'programs': 300, 'matches': 1000, 'processes': 24, 'listing_lines': 3000, 'hash_seeds': 4}

DISTURBANCES = [('0', 0), ('1', 1), ('2', 2), ('12345', 3), ('99', 5)]


def child(case, seed, first, count, hashseed, kind, show=None):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = hashseed
    env['PYTHONPATH'] = os.pathsep.join([REPO, VERIF])
    args = [sys.executable, '-m', 'vlib.program', str(seed), str(first), str(count), str(kind)]
    if show is not None:
        args.append(str(show))
    process = subprocess.run(args, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    case.count('processes')
    case.value('hash_seeds', hashseed)
    if process.returncode:
        error = process.stderr.decode('utf8', 'replace')[-3000:]
        if os.path.join(os.path.realpath(REPO), 'yargy') in error or '/yargy/' in error:
            case.fail('program failed with hash seed %s, disturbance %s' % (hashseed, kind), error=error)
        raise RuntimeError(error)
    return dict(json.loads(_) for _ in process.stdout.decode('utf8').splitlines())


def batch(case):
    count = 40
    first = case.i * count
    runs = []
    pool = DISTURBANCES if case.thorough else [DISTURBANCES[0]] + case.rng.sample(DISTURBANCES[1:], 2)
    for hashseed, kind in pool:
        runs.append((hashseed, kind, child(case, case.seed, first, count, hashseed, kind)))
    base = runs[0]
    for hashseed, kind, result in runs[1:]:
        for index, data in result.items():
            case.ok()
            if data.get('input') != base[2][index].get('input'):
                raise RuntimeError('generator is not deterministic')
            if data != base[2][index]:
                a = child(case, case.seed, first, count, base[0], base[1], index)[index].get('shown', '')
                b = child(case, case.seed, first, count, hashseed, kind, index)[index].get('shown', '')
                at = next((_ for _, (x, y) in enumerate(zip(a, b)) if x != y), 0)
                case.fail('program %d differs between hash seed %s/%s and %s/%s in %s' % (
                    index, base[0], base[1], hashseed, kind,
                    [key for key in data if data[key] != base[2][index].get(key)]
                ), first=a[max(0, at - 300):at + 300], second=b[max(0, at - 300):at + 300], start=a[:1000])
    for index, data in base[2].items():
        if 'skip' in data:
            continue
        case.count('programs')
        case.count('matches', data['matches'])
        case.count('listing_lines', data['lines'])
        if data['matches']:
            case.seen(index)
    case.sample({'programs': [first, first + count], 'processes': [_[:2] for _ in runs],
                 'digests': [base[2][_] for _ in sorted(base[2])[:2]]})


WORKLOADS = [
    W('batch', batch, 24, 160),
]
