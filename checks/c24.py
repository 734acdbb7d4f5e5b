"""C24: the BNF listing of a rule denotes the language its parser accepts."""
import re

from vlib.run import W, Skip
from vlib.gram import (
    build, describe, walk, Recognizer, Derivations, Pred, Seq, Or, Opt, Rep, Term, Named, Interp, Rel, Fwd, Pipe, eq
)
from vlib.gen import Grammars, Sampler
from vlib.common import LETTERS, LITERALS, morph_tokenizer, text_of
from vlib import ref

RULE = (
    'A case is a random rule graph with names, annotations, relations, main() marks, recursion, '
    'shared parts and pipelines. The listing is read back by an independent reader (own grammar '
    'of lines, own fixpoint recognizer); for sampled texts the language of its first symbol is '
    'compared with match() and with the rule, and the language of every labelled symbol with the '
    'part of the rule that was given this label, from every start position. Marked terms are '
    'unique, so that marks can be compared. Non trivial: distinct listings with 2+ lines.'
)
TECHNIQUE = 'runtime monitoring: listings are read back and run against the parser and a reference recognizer'
MINIMUMS = {
    'names': 100, 'facts': 50, 'attributes': 100, 'relations': 100, 'marks': 80, 'accepted': 500,
    'rejected': 500, 'repeated_marks': 50, 'recursive': 100, 'pipelines': 50, 'empty_symbol': 50, 'generated_names': 300, 'wide': 50,
}


class Spec(object):
    """Annotation with a label of its own"""

    def __init__(self, kind, number):
        self.kind = kind
        self.number = number
        self.built = None
        self.label = {
            'fact': 'Fact%d',
            'attribute': 'A.a%d',
            'repeatable': 'A.r%d',
        }.get(kind, 'A.a%d') % number
        # normalizers of an attribute are listed after it
        self.exact = kind in ('fact', 'attribute', 'repeatable')

    def build(self):
        if self.built is None:
            self.built = self.make()
        return self.built

    def make(self):
        from yargy.interpretation import fact, attribute
        name = 'a%d' % self.number
        if self.kind == 'fact':
            return fact('Fact%d' % self.number, ['x'])
        if self.kind == 'repeatable':
            name = 'r%d' % self.number
            return getattr(fact('A', [attribute(name).repeatable()]), name)
        value = getattr(fact('A', [name]), name)
        if self.kind == 'normalized':
            return value.normalized()
        if self.kind == 'inflected':
            return value.inflected({'nomn', 'sing'})
        if self.kind == 'const':
            return value.const('x | y')
        if self.kind == 'custom':
            return value.custom(len)
        if self.kind == 'chain':
            return value.normalized().custom(str.upper)
        return value

    def fits(self, label):
        return label == self.label if self.exact else label.startswith(self.label + '.')

    def __repr__(self):
        return '%s[%s]' % (self.label, self.kind)


class Relation(object):
    def __init__(self, number):
        self.label = 'rel%d' % number
        self.built = None

    def build(self):
        from yargy.relations import Relation

        if self.built is None:
            label_ = self.label

            class relation(Relation):
                label = label_

                def __call__(self, form, other):
                    return True
            self.built = relation()
        return self.built

    def __call__(self, a, b):
        return True

    def __repr__(self):
        return self.label


def once(pred):
    """The predicate is built once and used at every place"""
    kept = []

    def make():
        if not kept:
            kept.append(type(pred).build(pred))
        return kept[0]

    pred.build = make


class Labelled(Grammars):
    wrap = 0.35
    main = 0.3

    def __init__(self, *args, **kwargs):
        super(Labelled, self).__init__(*args, **kwargs)
        self.number = 0
        self.marks = []

    def make(self, depth):
        rng = self.rng
        if rng.random() < self.wrap:
            item = self.node(depth - 1)
            self.number += 1
            kind = rng.choice(['fact', 'attribute', 'repeatable', 'normalized', 'inflected', 'const', 'custom',
                               'chain', 'relation', 'relation', 'relation', 'name', 'name', 'name'])
            if kind == 'relation':
                return Rel(item, Relation(self.number))
            if kind == 'name':
                return Named(item, rng.choice(['N%d', 'ИМЯ_%d', 'Name %d', 'n-%d:x']) % self.number)
            if isinstance(item, Term) and kind == 'fact':
                item = Seq([item])
            return Interp(item, Spec(kind, self.number))
        return super(Labelled, self).make(depth)

    def sequence(self, depth):
        node = super(Labelled, self).sequence(depth)
        if self.rng.random() < self.main and len(node.items) > 1:
            node.main = self.rng.randrange(len(node.items))
            value = 'm' + 'abcdefghijklmnopqrstuvwxyz'[len(self.marks) % 26] * (1 + len(self.marks) // 26)
            node.items[node.main] = Term(eq(value))
            repeated = self.rng.random() < 0.3
            if repeated:
                once(node.items[node.main].pred)
                # the same object at other places of the sequence
                for _ in range(self.rng.choice([1, 1, 2])):
                    at = self.rng.randrange(len(node.items) + 1)
                    node.items.insert(at, node.items[node.main])
                    node.main += at <= node.main
            self.marks.append((value, node.main > 0, repeated))
        return node


class Listing(object):
    """Reader of lines: symbol -> alternatives of terms"""

    def __init__(self, lines, terminals):
        self.lines = lines
        self.order = []
        self.rules = {}
        self.marked = set()
        self.unmarked = set()
        bodies = []
        for line in lines:
            if ' -> ' not in line:
                raise ValueError('no arrow in %r' % line)
            name, body = line.split(' -> ', 1)
            if name in self.rules:
                raise ValueError('%r is defined twice' % name)
            self.order.append(name)
            self.rules[name] = None
            bodies.append(body)
        self.terminals = terminals
        words = sorted(list(self.rules) + list(terminals), key=len, reverse=True)
        self.word = re.compile('|'.join(re.escape(_) for _ in words))
        for name, body in zip(self.order, bodies):
            self.rules[name] = self.body(body)

    def body(self, text):
        if text in ('pipeline', 'caseless_pipeline', 'morph_pipeline'):
            return text
        alternatives = [[]]
        position = 0
        if text == 'e':
            return alternatives
        fresh = True
        while position < len(text):
            if text.startswith(' | ', position) or text[position:] == ' |':
                if fresh:
                    raise ValueError('alternative is written as nothing in %r' % text)
                alternatives.append([])
                position += 3
                fresh = True
                continue
            if not fresh:
                if text[position] != ' ':
                    raise ValueError('%r at %d' % (text, position))
                position += 1
            mark = text[position] == '^'
            if mark:
                position += 1
            found = self.word.match(text, position)
            if text[position] == 'e' and text[position:position + 2].strip() in ('e', '') and not found:
                if not fresh or not (text[position + 1:] == '' or text.startswith(' | ', position + 1)):
                    raise ValueError('empty sequence inside of %r' % text)
                position += 1
                fresh = False
                continue
            if not found:
                raise ValueError('unknown symbol in %r at %d' % (text, position))
            word = found.group()
            position = found.end()
            alternatives[-1].append(word)
            (self.marked if mark else self.unmarked).add(word)
            fresh = False
        if fresh:
            raise ValueError('alternative is written as nothing in %r' % text)
        return alternatives

    def recognize(self, tokens, pipes):
        size = len(tokens)
        table = {name: [frozenset()] * (size + 1) for name in self.order}
        changed = True
        while changed:
            changed = False
            for name in reversed(self.order):
                for i in range(size, -1, -1):
                    ends = self.step(table, name, i, tokens, pipes)
                    if ends != table[name][i]:
                        table[name][i] = ends
                        changed = True
        return table

    def step(self, table, name, i, tokens, pipes):
        rules = self.rules[name]
        if isinstance(rules, str):
            pipe = pipes[rules]
            return frozenset(
                i + len(key) for index, key in enumerate(pipe.keys)
                if pipe.match(index, tokens, i)
            )
        result = set()
        for terms in rules:
            ends = {i}
            for term in terms:
                if term in self.rules:
                    ends = {_ for j in ends for _ in table[term][j]}
                else:
                    pred = self.terminals[term]
                    ends = {j + 1 for j in ends if j < len(tokens) and pred.test(tokens[j])}
            result |= ends
        return frozenset(result)


def hidden(root):
    """Names of symbols that are shown under an annotation instead"""
    result = set()
    parents = {}
    for node in walk(root):
        for child in node.children():
            parents.setdefault(id(child), []).append(node)

    def chained(node):
        return (
            isinstance(node, (Named, Interp, Rel))
            or isinstance(node, Rep) and node.max == 1   # the same as its item
        )

    for node in walk(root):
        if not isinstance(node, Named):
            continue
        item = node.item
        while chained(item):
            if isinstance(item, Interp):
                result.add(node.name)
            item = item.item
        queue = [node]
        for item in queue:
            for parent in parents.get(id(item), []):
                if isinstance(parent, Interp):
                    result.add(node.name)
                elif chained(parent):
                    queue.append(parent)
    return result


def base(name):
    return re.sub(r'(\^rel\d+)+$', '', name)


def judge(case, root, texts, terminals, marks=(), tokenizer=None, morph=False):
    from yargy import Parser
    from vlib.common import plain_tokenizer
    rule_listing = describe(root)
    case.note(*rule_listing)
    rule = build(root, direct=not any(_[2] for _ in marks) or case.rng.random() < 0.3)
    lines = list(rule.normalized.as_bnf.source)
    case.note('listing:', *lines)
    for line in lines:
        case.check(isinstance(line, str), 'line %r' % (line,))
    try:
        listing = Listing(lines, terminals)
    except ValueError as error:
        case.fail('listing can not be read: %s' % error)
    nodes = list(walk(root))
    pipes = {}
    for node in nodes:
        if isinstance(node, Pipe):
            pipes[(node.kind + '_' if node.kind else '') + 'pipeline'] = node
            case.count('pipelines')

    # labels: (node, symbol)
    given = []
    invisible = hidden(root)
    labelled = set()
    for node in nodes:
        if isinstance(node, Named):
            found = [_ for _ in listing.order if base(_) == node.name]
            if not found and node.name in invisible:
                continue
            what = 'name %r' % node.name
            case.count('names')
        elif isinstance(node, Interp):
            found = [_ for _ in listing.order if node.spec.fits(base(_))]
            what = 'annotation %r' % node.spec
            case.count('facts' if node.spec.kind == 'fact' else 'attributes')
        elif isinstance(node, Rel):
            found = [_ for _ in listing.order if _.endswith('^' + node.relation.label)]
            what = 'relation %r' % node.relation
            case.count('relations')
        else:
            continue
        case.equal(len(found), 1, 'symbols with %s' % what, listing=lines)
        given.append((node, found[0], what))
        if not isinstance(node, Rel):
            labelled.add(found[0])

    # the other symbols are numbered
    last = -1
    for index, name in enumerate(listing.order):
        if name in labelled:
            continue
        found = re.match(r'^R(\d+)$', base(name))
        case.check(found, 'symbol %r was not given by the user' % name)
        number = int(found.group(1))
        case.check(last < number <= index, 'number of %r is out of order' % name)
        case.count('generated_names')
        last = number
    if not labelled:
        case.equal([base(_) for _ in listing.order], ['R%d' % _ for _ in range(len(lines))], 'symbols')

    # every symbol is used
    used = {listing.order[0]}
    queue = [listing.order[0]]
    for name in queue:
        if isinstance(listing.rules[name], str):
            continue
        for terms in listing.rules[name]:
            if not terms:
                case.count('empty_symbol')
            for term in terms:
                if term in listing.rules and term not in used:
                    used.add(term)
                    queue.append(term)
    case.equal(sorted(set(listing.order) - used), [], 'symbols that are never used')

    alive = {node.pred.arg for node in nodes if isinstance(node, Term) and node.pred.kind == 'eq'}
    for value, marked, repeated in marks:
        if value not in alive:
            continue
        label = "'%s'" % value
        case.equal(
            (label in listing.marked, label in listing.unmarked), (marked, repeated or not marked),
            '%s is (marked as main, not marked)' % label
        )
        case.count('marks' if marked else 'first_marks')
        case.count('repeated_marks', repeated)
    case.equal(listing.marked - {"'%s'" % _[0] for _ in marks}, set(), 'other marked symbols')

    if any(isinstance(_, Fwd) for _ in nodes):
        case.count('recursive')
    related = any(isinstance(_, Rel) for _ in nodes)
    made = Parser(rule, tokenizer or plain_tokenizer())
    for text in texts:
        tokens = ref.tokenize(text, morph=morph)
        table = listing.recognize(tokens, pipes)
        recognizer = Recognizer(root, tokens)
        start = table[listing.order[0]]
        case.equal(start, recognizer.table[id(root)], 'language of the listing and of the rule on %r' % text)
        for node, name, what in given:
            case.equal(table[name], recognizer.table[id(node)],
                       'language of symbol %r and of the part with %s on %r' % (name, what, text))
        try:
            Derivations(root, tokens).load(2000)
        except Skip:
            continue
        expected = bool(tokens) and len(tokens) in start[0]
        match = made.match(text)
        if related and match is None:
            continue    # words must agree as well
        case.equal(bool(match), expected, 'match(%r) (expected by the listing)' % text)
        case.count('accepted' if expected else 'rejected')
    case.equal(list(rule.normalized.as_bnf.source), lines, 'listing after the parser was used')
    if len(lines) > 1:
        case.seen(lines)
    case.sample({'rule': rule_listing, 'listing': lines})


def sample_texts(case, root, count, values):
    """Texts of literals: members, mutants and noise"""
    rng = case.rng
    result = ['']
    for _ in range(count):
        preds = Sampler(rng, 7)(root) if rng.random() < 0.75 else None
        if preds is None:
            items = [rng.choice(values) for _ in range(rng.randint(1, 4))]
        else:
            items = [rng.choice(values) if _.kind != 'eq' else _.arg for _ in preds]
            if rng.random() < 0.4:
                at = rng.randrange(len(items) + 1)
                if rng.random() < 0.5:
                    items.insert(at, rng.choice(values))
                else:
                    del items[at:at + 1]
        result.append(text_of(items))
    return result


def literals(case):
    rng = case.rng
    grammars = Labelled(
        rng, LITERALS, depth=rng.choice([2, 3, 3, 4, 5]),
        forward=rng.choice([0, 0.1, 0.25]), empty=rng.choice([0, 0.05, 0.15]),
        share=rng.choice([0, 0.15, 0.3]), nested=rng.random() < 0.5, named=0
    )
    grammars.wrap = rng.choice([0, 0.2, 0.4, 0.6])
    root = grammars.root()
    values = LETTERS + [_[0] for _ in grammars.marks][:3]
    terminals = {"'%s'" % _: eq(_) for _ in LETTERS + [mark[0] for mark in grammars.marks]}
    judge(case, root, sample_texts(case, root, 8, values), terminals, grammars.marks)


BANK = [
    Pred('gram', 'NOUN'), Pred('gram', 'Name'), Pred('type', 'INT'), Pred('in_', ['a', 'b', '1']),
    Pred('normalized', 'дом'), Pred('dictionary', ['дом', 'красный']), Pred('is_title'), Pred('is_upper'),
    Pred('is_lower'), Pred('is_capitalized'), Pred('true'), Pred('gte', 5), Pred('lte', 7), Pred('length_eq', 3),
    Pred('caseless', 'Дом'), Pred('in_caseless', ['А', 'дом']), Pred('is_single'),
    Pred('and', subs=[Pred('gram', 'NOUN'), Pred('not', subs=[Pred('is_title')])]),
    Pred('or', subs=[Pred('gram', 'ADJF'), eq('a'), Pred('type', 'PUNCT')]),
    Pred('not', subs=[Pred('type', 'INT')]),
    eq('дом'), eq('a'), eq('|'), eq('->'), eq('^'), eq('e'), eq('R0'), eq("'"), eq('.'),
]
WORDS = ['дом', 'Дом', 'красный', 'a', 'b', '1', '6', '7', '|', '^', 'e', "'", '.', 'ИВАН', 'Иван', 'домов', '100', 'окно']


def predicates(case):
    """Terms of all kinds and pipelines"""
    from yargy import rule
    rng = case.rng
    preds = rng.sample(BANK, rng.randint(2, 6))
    terminals = {}
    kept = []
    for pred in preds:
        line, = rule(pred.build()).normalized.as_bnf.source
        head, label = line.split(' -> ', 1)
        if label not in terminals:
            terminals[label] = pred
            kept.append(pred)
    grammars = Labelled(
        rng, kept, depth=rng.choice([2, 3, 3]), forward=rng.choice([0, 0.15]), nested=True, named=0
    )
    grammars.main = 0
    root = grammars.root()
    if rng.random() < 0.6:
        kinds = rng.sample(['', 'caseless', 'morph'], rng.randint(1, 3))
        pipes = [
            Pipe(_, rng.sample(['дом', 'красный дом', 'окно', 'a b', 'Иван', '100'], rng.randint(1, 3)))
            for _ in kinds
        ]
        if rng.random() < 0.5:
            pipes[0] = rng.choice([Interp(pipes[0], Spec('attribute', 900)), Named(pipes[0], 'PIPE'),
                                   Rel(pipes[0], Relation(901)), Opt(pipes[0]), Rep(pipes[0])])
        parts = pipes + [root]
        rng.shuffle(parts)
        root = rng.choice([Seq, Or])(parts)
    texts = []
    for _ in range(6):
        items = []
        sampled = Sampler(rng, 6)(root) if rng.random() < 0.8 else None
        for pred in sampled if sampled is not None else [None] * rng.randint(1, 4):
            fitting = []
            if pred is not None:
                fitting = [_ for _ in WORDS if pred.test(ref.tokenize(_, morph=True)[0])]
            items.append(rng.choice(fitting or WORDS))
        texts.append(text_of(items))
    judge(case, root, texts, terminals, tokenizer=morph_tokenizer(), morph=True)


def wide(case):
    """Tens and hundreds of alternatives, terms and rules"""
    rng = case.rng
    size = rng.choice([11, 17, 33, 65, 101, 130, 257])
    values = [str(_) for _ in range(size)]
    rng.shuffle(values)
    kind = rng.choice(['or', 'or', 'sequence', 'rules', 'named'])
    terms = [Term(eq(_)) for _ in values]
    marks = []
    if kind == 'or':
        root = Or([Seq([_]) if rng.random() < 0.7 else Seq([_, Term(eq('a'))]) for _ in terms])
        if rng.random() < 0.5:
            root = Seq([root, Term(eq('b'))])
    elif kind == 'sequence':
        main, other = rng.choice([None, 0, size - 1, rng.randrange(size)]), rng.choice([None, size // 2])
        root = Or([Seq(terms, main=main), Seq(terms[:size // 2] + [Term(eq('a'))], main=other)])
        marks += [(values[main], main > 0, main < size // 2)] if main is not None else []
        marks += [('a', True, False)] if other else []
    elif kind == 'rules':
        # every alternative gets a symbol
        root = Seq([Or([Seq([Opt(_), Term(eq('a'))]) for _ in terms[:65]]), Term(eq('b'))])
    else:
        root = Or([Named(Seq([_, Term(eq('a'))]), 'N%d' % index) for index, _ in enumerate(terms[:101])])
    terminals = {"'%s'" % _: eq(_) for _ in values + ['a', 'b']}
    texts = [
        ' '.join(_.arg for _ in preds)
        for preds in (Sampler(rng, 7)(root) for _ in range(4)) if preds is not None
    ]
    if kind == 'sequence':
        texts = [' '.join(values), ' '.join(values[:-1]), ' '.join(values[:size // 2] + ['a'])]
    texts.append(values[-1])
    texts.append(values[-1] + ' a')
    case.count('wide')
    judge(case, root, texts, terminals, marks)


WORKLOADS = [
    W('wide', wide, 60, 900),
    W('literals', literals, 5000, 60000),
    W('predicates', predicates, 2500, 25000),
]
