"""Systematic mutants of yargy against the checks.

    python tools/mutate.py list
    python tools/mutate.py run [--files yargy/parser.py,...] [--workers N] [--limit N] [--out FILE]

Every mutant is one small syntactic change. Those that the 65 tests kill are dropped; the others
are run through the checks (the ones most related to the file first) until one reports a violation.
Survivors are either changes that keep the behaviour or holes of the checks: they are read by hand.
"""
import argparse, ast, glob, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = '/repo'

ORDER = {
    'tokenizer.py': 'C01 C02 C29 C03', 'token.py': 'C13 C22 C32 C29', 'morph.py': 'C03 C17 C04 C13',
    'span.py': 'C06 C27', 'record.py': 'C27 C34', 'tagger.py': 'C22 C23', 'check.py': 'C23', 'visitor.py': 'C05',
    'api.py': 'C23 C05 C04 C17', 'dot.py': 'C25', 'parser.py': 'C06 C05 C28 C30 C19 C34 C33',
    'pipelines.py': 'C10 C11 C24 C25', 'rule/bnf.py': 'C24 C05 C31 C34', 'rule/constructors.py': 'C05 C23 C07 C18 C25',
    'rule/transformators.py': 'C07 C08 C25 C05 C31 C09', 'tree/constructors.py': 'C07 C28 C25',
    'tree/transformators.py': 'C12 C13 C16 C25 C18', 'interpretation/fact.py': 'C12 C14 C15 C27',
    'interpretation/interpretator.py': 'C12 C14 C13 C15', 'interpretation/normalizer.py': 'C13 C11 C34',
    'interpretation/attribute.py': 'C13 C12 C23 C34', 'relations/graph.py': 'C16', 'relations/bank.py': 'C17',
    'relations/constructors.py': 'C17 C23 C34', 'predicates/bank.py': 'C04 C32 C23 C34', 'predicates/constructors.py': 'C04 C09 C23 C34',
}
ALL = ['C%02d' % i for i in range(1, 35)]


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = [0]
        for l in src.encode().splitlines(True):
            self.lines.append(self.lines[-1] + len(l))
        self.b = src.encode()
        self.out = []
        self.stack = []

    def pos(self, n):
        return (self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def put(self, n, new, what):
        a, b = self.pos(n)
        self.out.append((a, b, new, what, n.lineno))

    def skip(self):
        return any(_ in ('_repr_pretty_', '__repr__', 'source', '_repr_svg_', '__str__') and False for _ in self.stack)

    def visit_FunctionDef(self, n):
        if n.name in ('_repr_pretty_', '_repr_svg_', 'mock_tokenizer', 'mock_context', 'tokenize', 'bfs_tree'):
            return
        self.stack.append(n.name)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        self.body(n.body)
        self.stack.pop()

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.List, ast.Tuple)) and len(s.value.elts) > 1:
                for i, e in enumerate(s.value.elts):
                    rest = [self.text(x) for j, x in enumerate(s.value.elts) if j != i]
                    self.put(s.value, '[' + ', '.join(rest) + ']', 'drop element %d' % i)
            else:
                self.visit(s)

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(s, 'value', None), (ast.Yield,)):
                self.put(s, 'pass', 'drop statement')
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
                self.put(s, 'pass; (yield) if False else None', 'drop yield')
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
                self.put(s, 'pass', 'drop assignment')
            if isinstance(s, ast.Break):
                self.put(s, 'pass', 'drop break')
            if isinstance(s, ast.Continue):
                self.put(s, 'pass', 'drop continue')
            self.visit(s)

    def visit_If(self, n):
        self.put(n.test, 'True', 'if True')
        self.put(n.test, 'False', 'if False')
        self.visit(n.test)
        self.body(n.body)
        self.body(n.orelse)

    def visit_For(self, n):
        self.put(n.iter, 'list(%s)[::-1]' % self.text(n.iter), 'reversed loop')
        self.put(n.iter, 'list(%s)[1:]' % self.text(n.iter), 'loop skips first')
        self.put(n.iter, 'list(%s)[:-1]' % self.text(n.iter), 'loop skips last')
        self.visit(n.iter)
        self.body(n.body)
        self.body(n.orelse)

    def visit_While(self, n):
        self.put(n.test, 'False', 'while False')
        self.visit(n.test)
        self.body(n.body)

    def visit_IfExp(self, n):
        self.put(n, self.text(n.body), 'then only')
        self.put(n, self.text(n.orelse), 'else only')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i, v in enumerate(n.values):
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            rest = [self.text(x) for j, x in enumerate(n.values) if j != i]
            self.put(n, '(' + op.join('(%s)' % _ for _ in rest) + ')', 'drop operand %d' % i)
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(' + op.join('(%s)' % self.text(x) for x in n.values) + ')', 'and/or')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            t = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
                 ast.Is: ['is not', '=='], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}[type(n.ops[0])]
            for o in t:
                self.put(n, '(%s) %s (%s)' % (l, o, r), 'compare ' + o)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, self.text(n.operand), 'drop not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.put(n, self.text(n.left), 'left operand')
            if isinstance(n.op, ast.Add):
                self.put(n, '%s + %s' % (self.text(n.right), self.text(n.left)), 'swap +')
        if isinstance(n.op, ast.Mod):
            return
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), 'bool')
        elif isinstance(v, int):
            self.put(n, str(v + 1), '+1')
            if v:
                self.put(n, str(v - 1), '-1')
            else:
                self.put(n, '(-1)', '-1')
        elif v is None:
            pass
        elif isinstance(v, str) and v:
            self.put(n, repr(v + 'x'), 'string')

    def visit_Return(self, n):
        if n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                self.put(n.value, 'None', 'return None')
            self.visit(n.value)

    def visit_Call(self, n):
        f = self.text(n.func)
        args = [self.text(a) for a in n.args]
        if f == 'id' and len(args) == 1:
            self.put(n, args[0], 'id dropped')
        if f in ('list', 'sorted', 'reversed', 'set', 'tuple', 'dict') and len(args) == 1:
            self.put(n, args[0], f + ' dropped')
        if f in ('all', 'any'):
            self.put(n.func, 'any' if f == 'all' else 'all', 'any/all')
        if f.endswith('.lower') and not args:
            self.put(n, f[:-6], 'lower dropped')
        if len(args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) \
                and f not in ('isinstance', 'getattr', 'super', 'hasattr'):
            for i in range(len(args) - 1):
                b = list(args)
                b[i], b[i + 1] = b[i + 1], b[i]
                self.put(n, '%s(%s)' % (f, ', '.join(b)), 'swap args %d' % i)
        if n.args and len(args) >= 1 and len(args) + len(n.keywords) >= 2 and f not in ('isinstance', 'getattr', 'super'):
            b = [self.text(k) for k in n.keywords]
            self.put(n, '%s(%s)' % (f, ', '.join(args[:-1] + b)), 'drop last positional')
        for k in n.keywords:
            b = args + [self.text(x) for x in n.keywords if x is not k]
            self.put(n, '%s(%s)' % (f, ', '.join(b)), 'drop keyword ' + str(k.arg))
        if f == 'isinstance' and isinstance(n.args[1], ast.Tuple):
            for i in range(len(n.args[1].elts)):
                rest = [self.text(x) for j, x in enumerate(n.args[1].elts) if j != i]
                self.put(n.args[1], '(' + ', '.join(rest) + ',)', 'drop type %d' % i)
        self.generic_visit(n)

    def comp(self, n):
        for g in n.generators:
            for c in g.ifs:
                self.put(c, 'True', 'filter dropped')
        self.generic_visit(n)

    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = comp

    def visit_Attribute(self, n):
        pairs = [('start', 'stop'), ('first', 'second'), ('min', 'max'), ('reverse_repeatable', 'reverse_optional'),
                 ('tokens', 'items'), ('start_column', 'stop_column'), ('normalized', 'value'), ('male', 'female'),
                 ('single', 'plural'), ('only_single', 'only_plural')]
        for a, b in pairs:
            for x, y in ((a, b), (b, a)):
                if n.attr == x:
                    self.put(n, self.text(n.value) + '.' + y, 'attr ' + y)
        self.generic_visit(n)


def mutants(files):
    out = []
    for path in files:
        src = open(os.path.join(REPO, path)).read()
        g = Gen(src)
        tree = ast.parse(src)
        for s in tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                g.visit(s)
        seen = set()
        for a, b, new, what, line in g.out:
            text = (g.b[:a] + new.encode() + g.b[b:]).decode()
            if text in seen or text == src:
                continue
            seen.add(text)
            try:
                compile(text, path, 'exec')
            except SyntaxError:
                continue
            out.append(dict(id='%s:%d:%d:%s' % (path, line, a, what), file=path, line=line, a=a, b=b, new=new,
                            old=g.b[a:b].decode(), what=what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('--files', default='')
    ap.add_argument('--workers', type=int, default=4)
    ap.add_argument('--limit', type=int, default=0)
    ap.add_argument('--out', default='/tmp/mutants.jsonl')
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--ids', default='')
    ap.add_argument('--checks', default='')
    ap.add_argument('--related', action='store_true', help='only the checks related to the file')
    a = ap.parse_args()
    files = a.files.split(',') if a.files else sorted(
        os.path.relpath(_, REPO) for _ in glob.glob(REPO + '/yargy/**/*.py', recursive=True))
    muts = mutants(files)
    if a.ids:
        ids = set(open(a.ids).read().split('\n'))
        muts = [_ for _ in muts if _['id'] in ids]
    if a.cmd == 'list':
        from collections import Counter
        for k, v in sorted(Counter(_['file'] for _ in muts).items()):
            print(v, k)
        print(len(muts))
        return
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)['id'] for l in open(a.out)}
    todo = [_ for _ in muts if _['id'] not in done]
    random.Random(1).shuffle(todo)
    if a.limit:
        todo = todo[:a.limit]
    base = tempfile.mkdtemp(prefix='mut-', dir='/tmp')

    def one(m):
        scratch = tempfile.mkdtemp(prefix='m-', dir=base)
        res = dict(m)
        try:
            tree = os.path.join(scratch, 'repo')
            shutil.copytree(os.path.join(REPO), tree, ignore=shutil.ignore_patterns('.git', '__pycache__', '.pytest_cache'))
            path = os.path.join(tree, m['file'])
            b = open(path, 'rb').read()
            open(path, 'wb').write(b[:m['a']] + m['new'].encode() + b[m['b']:])
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', LANG='C.UTF-8')
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'pytest_timeout',
                                    '--timeout=60', '--doctest-modules', 'yargy', 'tests'], cwd=tree, env=env, timeout=200,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                code = r.returncode
            except subprocess.TimeoutExpired:
                code = 99
            if code:
                res['result'] = 'tests'
                return res
            env = dict(os.environ, YARGY_REPO=tree, VERIF_EVIDENCE=os.path.join(scratch, 'ev'))
            first = ORDER.get(m['file'][len('yargy/'):], '').split()
            order = a.checks.split(',') if a.checks else first if a.related else first + [c for c in ALL if c not in first]
            hits, odd = [], []
            t = time.time()
            for c in order:
                try:
                    r = subprocess.run(['./check', c], cwd=ROOT, env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, timeout=900, errors='replace')
                except subprocess.TimeoutExpired:
                    odd.append([c, 'timeout'])
                    continue
                if r.returncode == 1 and any(_.startswith('VIOLATION') for _ in r.stdout.splitlines()):
                    hits.append(c)
                    if not a.all:
                        break
                elif r.returncode:
                    odd.append([c, r.returncode, r.stdout[-200:]])
            res.update(result='caught' if hits else 'SURVIVED', hits=hits, odd=odd, secs=round(time.time() - t))
            return res
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    try:
        with ThreadPoolExecutor(a.workers) as pool:
            for res in pool.map(one, todo):
                with open(a.out, 'a') as f:
                    f.write(json.dumps(res, ensure_ascii=False) + '\n')
                if res['result'] != 'tests':
                    print(res['result'], res.get('hits'), res['id'], '|', res['old'][:60].replace('\n', ' '), '->',
                          res['new'][:60].replace('\n', ' '), res.get('odd') or '', flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
