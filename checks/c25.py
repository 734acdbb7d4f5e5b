"""C25: pictures of rules and parse trees are well formed and faithful."""
import json
import re
import shutil
import subprocess

from vlib.run import W, Skip
from vlib.gram import (
    build, describe, walk, Derivations, Pred, Seq, Or, Opt, Rep, Term, Named, Interp, Rel, Fwd,
    Pipe, Empty, Reading, eq
)
from vlib.gen import Grammars, Sampler, defined
from vlib.common import plain_tokenizer, morph_tokenizer, parser, LITERALS
from vlib.observe import match_view
from vlib import ref
from checks.c24 import Spec, Relation

RULE = (
    'A case draws a random rule graph (names, annotations, relations, main marks, recursion, '
    'pipelines, bounds, hostile names and literals) or the trees of its matches on texts with '
    'quotes, backslashes and line breaks. The Graphviz source is read by an independent reader '
    'and by dot itself, and walked together with the rule or tree: every node declared once, '
    'labels as given, solid edges the children in order, dashed ones the linked words. '
    'Non trivial: distinct pictures with 4+ nodes.'
)
TECHNIQUE = 'runtime monitoring: emitted graphs are read back and compared with the observed rules and trees'
MINIMUMS = {
    'rules': 800, 'trees': 800, 'read_by_dot': 400, 'names': 300, 'annotations': 200, 'relations': 80,
    'dashed_edges': 100, 'hostile_labels': 400, 'svg': 5, 'shared_nodes': 50, 'cycles': 50,
}
ASSUMPTIONS = ['texts and names contain no NUL and no lone surrogates, which Graphviz cannot read at all']

NAMES = ['N', 'ИМЯ', 'a "b"', 'a\\', '\\', '\\n', 'line\nbreak', '\r\n', '<b>x</b>', '"', '""', 'x]; 7 [label="y',
         '{0} {style}', '%s', 'a\\"b', '\\\\N', '->', ' ', '// c', '/* c */', '#', 'é\u2028', '😀', '\\l', "'", 'a;b', '\t']
WORDS = ['a', 'b', '"', '\\', '\n', '\r', '\n\n', '<', '>', '{', '}', '#', "'", ';', '%', '5', 'я', '😀', '|', ']', '[', '&',
         'A', 'Б', 'word', 'WORD' * 40, 'слово' * 30, '1' * 300, 'Ab' * 12]
NAMES += ['имя ' * 12 + '.', 'N' * 70, 'long "name" ' * 12, '\\' * 90, 'Имя' * 200, 'x\n' * 40]


class Unreadable(ValueError):
    pass


class Picture(object):
    """Independent reader of Graphviz source"""

    TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(->)|([A-Za-z0-9_.\-\u0080-\uffff]+)|([\[\]{};=,]))', re.S)

    def __init__(self, source):
        self.nodes = {}
        self.order = []
        self.edges = []
        self.tokens = []
        position = 0
        source = source.rstrip()
        while position < len(source):
            found = self.TOKEN.match(source, position)
            if not found:
                raise Unreadable('at %r' % source[position:position + 40])
            position = found.end()
            self.tokens.append(found.group(found.lastindex))
        self.at = 0
        self.expect('digraph')
        if self.peek() != '{':
            self.next()
        self.expect('{')
        while self.peek() != '}':
            self.statement()
        self.expect('}')
        if self.at != len(self.tokens):
            raise Unreadable('text after the graph')

    def peek(self):
        if self.at >= len(self.tokens):
            raise Unreadable('unexpected end')
        return self.tokens[self.at]

    def next(self):
        token = self.peek()
        self.at += 1
        return token

    def expect(self, token):
        if self.next() != token:
            raise Unreadable('expected %s, got %r' % (token, self.tokens[self.at - 1]))

    def word(self):
        token = self.next()
        if token in ('->', '[', ']', '{', '}', ';', '=', ','):
            raise Unreadable('unexpected %r' % token)
        if token.startswith('"'):
            return token[1:-1].replace('\\"', '"')
        return token

    def attributes(self):
        result = {}
        while self.peek() == '[':
            self.next()
            while self.peek() != ']':
                key = self.word()
                self.expect('=')
                result[key] = self.word()
                if self.peek() in (',', ';'):
                    self.next()
            self.next()
        return result

    def statement(self):
        if self.peek() == ';':
            self.next()
            return
        name = self.word()
        if name in ('graph', 'node', 'edge'):
            self.attributes()
        elif self.peek() == '->':
            self.next()
            target = self.word()
            self.edges.append((name, target, self.attributes()))
        else:
            attributes = self.attributes()
            if name in self.nodes:
                raise Unreadable('node %s is declared twice' % name)
            self.nodes[name] = attributes
            self.order.append(name)
        if self.peek() == ';':
            self.next()

    def finish(self):
        self.children = {_: [] for _ in self.nodes}
        self.dashed = []
        self.parents = {_: 0 for _ in self.nodes}
        for source, target, attributes in self.edges:
            if source not in self.nodes or target not in self.nodes:
                raise Unreadable('edge %s -> %s of a node that is not declared' % (source, target))
            if attributes.get('style') == 'dashed':
                self.dashed.append((source, target, text_of_label(attributes.get('label', ''))))
            else:
                self.children[source].append(target)
                self.parents[target] += 1
        return self

    def label(self, name):
        attributes = self.nodes[name]
        if 'label' not in attributes:
            raise Unreadable('node %s has no label' % name)
        return text_of_label(attributes['label'])


def text_of_label(value):
    """Text shown for an escString"""
    def replace(found):
        char = found.group(1)
        if char == 'n':
            return '\n'
        if char == 'r':
            return '\r'
        if char == '\\':
            return '\\'
        raise Unreadable('escape sequence \\%s in a label' % char)
    if re.search(r'(?<!\\)(\\\\)*\\$', value):
        raise Unreadable('label ends with a backslash')
    return re.sub(r'\\(.)', replace, value, flags=re.S)


def picture(case, graph):
    source = '\n'.join(graph.source)
    case.equal('\n'.join(graph.source), source, 'source read again')
    try:
        result = Picture(source).finish()
    except Unreadable as error:
        case.fail('source is not well formed: %s' % error, source=source)
    return result, source


_dot = shutil.which('dot')


def ask_dot(case, pictures):
    """Graphviz reads the same graphs"""
    if not _dot or not pictures:
        return
    process = subprocess.run(
        [_dot, '-Tdot_json'], input='\n'.join(source for _, source in pictures).encode('utf8'),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120
    )
    if process.returncode:
        case.fail('dot: %s' % process.stderr.decode('utf8', 'replace')[:300], sources=[_ for _, _ in pictures])
    data = process.stdout.decode('utf8', 'replace')
    decoder = json.JSONDecoder(strict=False)
    position = 0
    for made, source in pictures:
        while data[position:position + 1].isspace():
            position += 1
        graph, position = decoder.raw_decode(data, position)
        names = {_['_gvid']: _['name'] for _ in graph['objects']}
        case.equal(sorted(names.values()), sorted(made.nodes), 'nodes that dot reads')
        case.equal(
            sorted((names[_['tail']], names[_['head']]) for _ in graph.get('edges', [])),
            sorted((a, b) for a, b, _ in made.edges), 'edges that dot reads'
        )
        for item in graph['objects']:
            case.equal(item['label'], made.nodes[item['name']]['label'], 'label that dot reads')
        case.count('read_by_dot')


# ---------------------------------------------------------------------- rules

class Hostile(Grammars):
    def __init__(self, *args, **kwargs):
        super(Hostile, self).__init__(*args, **kwargs)
        self.number = 0

    def make(self, depth):
        rng = self.rng
        if rng.random() < 0.4:
            item = self.node(depth - 1)
            self.number += 1
            kind = rng.choice(['name', 'name', 'name', 'relation', 'attribute', 'fact', 'pipe', 'const', 'normalized'])
            if kind == 'name':
                return Named(item, '%s%d' % (rng.choice(NAMES), self.number) if rng.random() < 0.5 else rng.choice(NAMES))
            if kind == 'relation':
                return Rel(item, Relation(self.number))
            if kind == 'pipe':
                return Pipe(rng.choice(['', 'caseless', 'morph']), ['a b', 'c'])
            if isinstance(item, Term) and kind == 'fact':
                item = Seq([item])
            return Interp(item, Spec(kind, self.number))
        return super(Hostile, self).make(depth)

    def sequence(self, depth):
        node = super(Hostile, self).sequence(depth)
        if self.rng.random() < 0.3:
            node.main = self.rng.randrange(len(node.items))
        return node


class Walker(object):
    """Walks the rule as it was written together with its picture"""

    def __init__(self, case, made, labels):
        self.case = case
        self.made = made
        self.seen = {}        # node of the rule -> node of the picture
        self.visited = set()
        self.kinds = {}       # kind of a node -> label
        self.labels = labels

    def expect_label(self, name, label):
        self.case.equal(self.made.label(name), label, 'label')
        self.visited.add(name)

    def kind(self, name, *key):
        """Nodes of one kind have one label"""
        label = self.made.label(name)
        self.visited.add(name)
        self.case.check(label, 'empty label of %s' % (key,))
        self.case.equal(label, self.kinds.setdefault(key, label), 'label of %s' % (key,))
        for number in key[1:]:
            self.case.check(number is None or str(number) in label, 'bound %s is not in %r' % (number, label))

    def children(self, name, count):
        result = self.made.children[name]
        self.case.equal(len(result), count, 'number of children of %r' % self.made.label(name))
        return result

    def pred(self, name, pred):
        self.expect_label(name, self.labels(pred))
        self.children(name, 0)

    def production(self, name, items):
        self.kind(name, 'production')
        for item, child in zip(items, self.children(name, len(items))):
            if isinstance(item, Term):
                self.pred(child, item.pred)
            else:
                self.rule(child, item)

    def term(self, name, node):
        """rule(predicate)"""
        self.kind(name, 'rule')
        production, = self.children(name, 1)
        self.production(production, [node])

    def rule(self, name, node):
        if isinstance(node, Term):
            self.term(name, node)
            return
        if id(node) in self.seen:
            self.case.equal(self.made.nodes[name], self.made.nodes[self.seen[id(node)]], 'shared part')
            self.case.equal(name, self.seen[id(node)], 'picture of a shared part')
            self.case.count('shared_nodes')
            return
        self.case.check(name not in self.visited, 'one node stands for two parts')
        self.seen[id(node)] = name
        if isinstance(node, Seq):
            self.kind(name, 'rule')
            production, = self.children(name, 1)
            self.production(production, node.items)
        elif isinstance(node, Or):
            self.kind(name, 'or')
            for item, child in zip(node.items, self.children(name, len(node.items))):
                self.rule(child, item)
        elif isinstance(node, Empty):
            self.kind(name, 'empty')
            self.children(name, 0)
        elif isinstance(node, Pipe):
            self.kind(name, node.kind + 'pipeline')
            self.case.check((node.kind or 'pipeline') in self.made.label(name), 'label of a pipeline')
            self.children(name, 0)
        else:
            if isinstance(node, Named):
                self.expect_label(name, node.name)
                self.case.count('names')
                if not re.match(r'^\w+$', node.name):
                    self.case.count('hostile_labels')
            elif isinstance(node, Interp):
                label = self.made.label(name)
                self.case.check(node.spec.fits(label), 'label %r of annotation %r' % (label, node.spec))
                self.case.count('annotations')
                self.visited.add(name)
            elif isinstance(node, Rel):
                self.expect_label(name, node.relation.label)
                self.case.count('relations')
            elif isinstance(node, Fwd):
                self.kind(name, 'forward')
                self.case.count('cycles')
            elif isinstance(node, Opt):
                self.kind(name, 'optional')
            elif isinstance(node, Rep):
                self.kind(name, 'repeatable', node.min, node.max)
            child, = self.children(name, 1)
            self.rule(child, node.item if not isinstance(node, Fwd) else node.target)


def rules(case):
    rng = case.rng
    terms = [
        eq(rng.choice(NAMES + WORDS)), eq('a'), eq('b'), Pred('gram', 'NOUN'), Pred('in_', ['a']), Pred('type', 'INT'),
        Pred('caseless', '"'), Pred('and', subs=[eq('\\'), Pred('is_title')]), Pred('not', subs=[eq('"')]),
        Pred('normalized', 'дом'), Pred('gte', 5), Pred('dictionary', ['a"'])
    ]
    grammars = Hostile(
        rng, rng.sample(terms, 4), depth=rng.choice([1, 2, 3, 4]), forward=rng.choice([0, 0.15]),
        empty=0.05, share=rng.choice([0, 0.2, 0.4]), named=0
    )
    judge_rules(case, grammars.root(), case.i % 4 == 0)


def large(case):
    """Rules of thousands of parts"""
    rng = case.rng
    size = rng.choice([300, 700, 1100])
    kind = rng.choice(['pairs', 'named', 'sequence', 'tree', 'pipeline'])
    word = lambda number: Term(eq('w%d' % number))
    if kind == 'pairs':
        root = Or([Seq([word(_), word(_ + 1)]) for _ in range(size)])
    elif kind == 'named':
        root = Seq([Opt(Named(Seq([word(_)]), 'N%d' % _)) for _ in range(size // 2)])
    elif kind == 'sequence':
        root = Rep(Seq([word(_) if _ % 3 else Or([word(_), Seq([word(_), word(0)])]) for _ in range(size)]))
    elif kind == 'tree':
        items = [Seq([word(_)]) for _ in range(size)]
        while len(items) > 1:
            items = [rng.choice([Or, Seq])(items[_:_ + 5]) for _ in range(0, len(items), 5)]
        root = items[0]
    else:
        root = Or([Pipe(rng.choice(['', 'caseless', 'morph']), ['a b', 'c']) for _ in range(size)])
    case.count('large')
    judge_rules(case, root, False)


def judge_rules(case, root, dot):
    from yargy import rule
    listing = describe(root)
    case.note(*listing[-20:])
    made_rule = build(root)

    def label(pred):
        # as in the listing of a rule of this predicate alone
        line, = rule(pred.build()).normalized.as_bnf.source
        return line.split(' -> ', 1)[1]

    pictures = []
    made, source = picture(case, made_rule.as_dot)
    pictures.append((made, source))
    walker = Walker(case, made, label)
    case.check(made.order, 'empty picture')
    walker.rule(made.order[0], root)
    case.equal(sorted(set(made.order) - walker.visited), [], 'nodes that are not in the rule')
    case.equal(made.dashed, [], 'dashed edges of a rule')
    used = {}
    for kind, text in walker.kinds.items():
        case.equal(used.setdefault(text, kind), kind, 'kind of %r' % text)
    case.equal('\n'.join(made_rule.as_dot.source), source, 'second picture of the rule')
    case.count('rules')

    # derived forms of the rule are well formed too
    lines = list(made_rule.normalized.as_bnf.source)
    made, source_normalized = picture(case, made_rule.normalized.as_dot)
    pictures.append((made, source_normalized))
    made, source_bnf = picture(case, made_rule.normalized.as_bnf.start.as_dot)
    pictures.append((made, source_bnf))
    labels = [made.label(_) for _ in made.order]
    for line in lines:
        name = line.split(' -> ', 1)[0]
        if '->' not in name:
            case.check(name in labels, 'symbol %r is not in the picture %s' % (name, labels))
    case.equal('\n'.join(made_rule.as_dot.source), source, 'picture of the rule after the others')
    case.equal(list(made_rule.normalized.as_bnf.source), lines, 'listing after pictures')
    if dot:
        ask_dot(case, pictures)
    if dot and case.i % 100 == 0 and _dot:
        svg = made_rule.as_dot._repr_svg_()
        case.check('<svg' in svg, 'svg')
        case.count('svg')
    if len(walker.visited) > 3:
        case.seen(source)
    case.sample({'rule': listing[:20], 'source': source[:1500]})


# ---------------------------------------------------------------------- trees

def compare_tree(case, made, root):
    """Picture of a tree against its nodes"""
    seen = {}

    def visit(name, node):
        children = list(node.children)
        if id(node) in seen:
            case.fail('node %r is drawn twice' % node.label)
        seen[id(node)] = name
        leaf = not children and hasattr(node, 'token')
        case.equal(made.label(name), node.token.value if leaf else node.label, 'label of a tree node')
        if leaf and not node.token.value.isalnum():
            case.count('hostile_labels')
        case.equal(len(made.children[name]), len(children), 'children of %r' % made.label(name))
        for child, inner in zip(made.children[name], children):
            visit(child, inner)

    visit(made.order[0], root)
    case.equal(len(seen), len(made.nodes), 'number of nodes')
    case.equal(sorted(made.parents.values()).count(0), 1, 'number of roots')
    case.check(all(_ < 2 for _ in made.parents.values()), 'node has two parents')


def given_labels(derivation):
    """Labels of named and annotated parts, as in the tree left to right"""
    result = []
    for node in derivation.walk():
        part = node.sym.node
        if isinstance(part, Named):
            result.append(part.name)
        elif isinstance(part, Interp):
            result.append(part.spec.label)
    return result


class Trees(Grammars):
    """Names and annotations are not put directly over one another"""

    def __init__(self, *args, **kwargs):
        super(Trees, self).__init__(*args, **kwargs)
        self.number = 0
        self.relation = [Relation(1), Relation(2)]

    def make(self, depth):
        rng = self.rng
        if rng.random() < 0.4:
            item = self.node(depth - 1)
            self.number += 1
            item = Seq([item, self.term()])
            kinds = ['name', 'name', 'attribute', 'fact'] + ['relation', 'both'] * bool(self.relation)
            kind = rng.choice(kinds)
            if kind in ('name', 'both'):
                item = Named(item, '%s%d' % (rng.choice(NAMES), self.number))
            elif kind != 'relation':
                item = Interp(item, Spec(kind, self.number))
            if kind in ('relation', 'both') and self.number % 2:
                item = Rel(item, rng.choice(self.relation))
            return Seq([item, Opt(self.term())]) if rng.random() < 0.5 else Seq([self.term(), item])
        return super(Trees, self).make(depth)


def trees(case):
    rng = case.rng
    related = rng.random() < 0.4
    if related:
        words = ['дом', 'Иван', 'стол', 'ОКНА', 'два', 'и']
        tokenizer = morph_tokenizer()
    else:
        words = rng.sample(WORDS, 4)
        tokenizer = plain_tokenizer()
    grammars = Trees(
        rng, [eq(_) for _ in words], depth=rng.choice([2, 3, 3]), nested=False, named=0,
        forward=rng.choice([0, 0.1]), empty=rng.choice([0, 0.05]), share=rng.choice([0, 0.1])
    )
    if not related:
        grammars.relation = []    # words that have no analyses never agree
    root = grammars.root()
    if related and rng.random() < 0.7:
        relation = rng.choice(grammars.relation)
        parts = [Rel(Seq([grammars.term(), _]), relation) for _ in (root, grammars.term(), Opt(grammars.term()))]
        root = Seq(parts[:rng.choice([2, 2, 3])])
    listing = describe(root)
    case.note(*listing)
    made_parser = None
    pictures = []
    for _ in range(3):
        preds = Sampler(rng, 9)(root)
        values = [_.arg for _ in preds] if preds and rng.random() < 0.8 else [
            rng.choice(words) for _ in range(rng.randint(1, 5))]
        text = ' '.join(values)
        tokens = ref.tokenize(text, morph=related)
        derivations = Derivations(root, tokens, limit=400)
        derivations.load(1500)
        if made_parser is None:
            made_parser = parser(root, tokenizer)
        case.note('text %r' % text)
        first = [match_view(_) for _ in made_parser.extract(text)]
        matches = list(made_parser.extract(text))
        for index, match in enumerate(matches[:12]):
            made, source = picture(case, match.tree.as_dot)
            compare_tree(case, made, match.tree.root)
            case.equal(sorted(made.label(_) for _ in made.order if not made.children[_]),
                       sorted(_.value for _ in match.tokens), 'leaves of the picture')
            check_dashed(case, made, match)
            if index % 5 == 0:
                pictures.append((made, source))
            again, again_source = picture(case, match.tree.as_dot)
            case.equal(again_source, source, 'second picture of the tree')
            made, _ = picture(case, match.tree.normalized.as_dot)
            case.count('trees')
            if len(made.nodes) > 3:
                case.seen(source)
        case.equal([match_view(_) for _ in matches], first, 'matches after drawing')
        best = made_parser.match(text)
        if best is not None:
            expected = None
            for derivation in derivations.run(0, len(tokens)):
                if not derivation.empty and Reading(derivation, tokens).valid:
                    expected = derivation
                    break
            case.check(expected is not None, 'match(%r) is not derived' % text)
            made, source = picture(case, best.tree.as_dot)
            wanted = given_labels(expected)
            known = set(wanted)
            drawn = []

            def visit(name):
                label = re.sub(r'\^rel\d+$', '', made.label(name))
                if label in known and made.children[name]:
                    drawn.append(label)
                for child in made.children[name]:
                    visit(child)
            visit(made.order[0])
            case.equal(drawn, wanted, 'names in the picture of match(%r)' % text)
            case.count('names', len(wanted))
    if case.i % 3 == 0:
        ask_dot(case, pictures)
    case.sample({'rule': listing, 'pictures': len(pictures)})


def check_dashed(case, made, match):
    """Dashed edges link the nodes marked with one relation, pairwise"""
    marked = {}

    def visit(name, node):
        relation = getattr(node, 'relation', None)
        if relation is not None:
            marked.setdefault(id(relation), (relation.label, []))[1].append(name)
        for child, inner in zip(made.children[name], node.children):
            visit(child, inner)
    visit(made.order[0], match.tree.root)
    expected = []
    for label, names in marked.values():
        for index, first in enumerate(names):
            for second in names[index + 1:]:
                expected.append((frozenset([first, second]), label))
    case.equal(
        sorted((sorted(a), b) for a, b in [(frozenset([a, b]), label) for a, b, label in made.dashed]),
        sorted((sorted(a), b) for a, b in expected), 'dashed edges'
    )
    case.count('dashed_edges', len(expected))


WORKLOADS = [
    W('large', large, 16, 160),
    W('rules', rules, 3000, 30000),
    W('trees', trees, 2000, 20000),
]
