"""Random interpreted rules on Russian words, and their observation."""
from . import ref, words
from .run import Skip
from .gram import (
    Pred, Term, Seq, Or, Opt, Rep, Named, Interp, Rel, RelSpec, Fwd, Pipe, Derivations,
    first_valid, describe, walk, eq
)
from .gen import Sampler, defined
from .interp import (
    FactSpec, ISpec, ModelTypeError, evaluate, canon, canon_model, canon_json,
    canon_json_model, CALLS, EXPECTED_CALLS
)
from .common import parser, morph_tokenizer, spans_of

_realised = {}


def candidates(pred, pool=None):
    key = repr(pred)
    if key not in _realised:
        items = []
        for word in words.ANY:
            for form in {word, word.capitalize(), word.upper()}:
                tokens = ref.tokenize(form)
                if len(tokens) == 1 and pred.test(tokens[0]):
                    items.append(form)
        _realised[key] = sorted(items, key=lambda _: (_ != _.lower(), _))
    return _realised[key]


def realise(rng, preds):
    """Words for a list of predicates, or None"""
    result = []
    for pred in preds:
        if pred.kind == 'eq':
            result.append(pred.arg)
            continue
        items = candidates(pred)
        if not items:
            return None
        result.append(rng.choice(items))
    return result


def spaced(rng, values, tight=0.15):
    """Text of the tokens with varied spaces; neighbours of one class are never
    glued, so that the tokens stay as they are"""
    parts = []
    previous = None
    for value in values:
        if previous is not None:
            x = rng.random()
            glue = (
                x < tight
                and ref.char_class(previous[-1]) != ref.char_class(value[0])
            )
            if not glue:
                parts.append(' ' if x < 0.85 else rng.choice(['  ', '\t', '\u00a0', ' ']))
        parts.append(value)
        previous = value
    return ''.join(parts)


TERMS = [
    lambda rng: Pred('gram', rng.choice(['NOUN', 'ADJF', 'Name', 'Surn', 'VERB'])),
    lambda rng: Pred('type', 'INT'),
    lambda rng: Pred('type', 'LATIN'),
    lambda rng: eq(rng.choice([',', '-', 'и', 'на', '№'])),
    lambda rng: Pred('type', 'RU'),
    lambda rng: Pred('is_capitalized'),
    lambda rng: Pred('normalized', rng.choice(['дом', 'стать', 'книга', 'новый'])),
    lambda rng: Pred('in_caseless', ('красный', 'директор', 'IBM')),
    lambda rng: rng.choice(OTHER_TERMS)(rng),
]

OTHER_TERMS = [
    lambda rng: Pred('and', subs=[Pred('gram', rng.choice(['NOUN', 'Name'])), Pred('is_capitalized')]),
    lambda rng: Pred('or', subs=[Pred('gram', 'ADJF'), Pred('type', 'INT'), eq(',')]),
    lambda rng: Pred('not', subs=[rng.choice([eq(','), Pred('gram', 'NOUN'), Pred('type', 'PUNCT')])]),
    lambda rng: Pred('and', subs=[Pred('not', subs=[Pred('is_upper')]), Pred('or', subs=[Pred('gram', 'NOUN'), Pred('type', 'LATIN')])]),
    lambda rng: Pred(rng.choice(['is_single', 'is_upper', 'is_lower', 'is_title', 'true'])),
    lambda rng: Pred('dictionary', ('дом', 'книга', 'стать')),
    lambda rng: Pred('length_eq', rng.choice([1, 4, 5, 6])),
    lambda rng: Pred(rng.choice(['gte', 'lte']), rng.choice([1, 5, 100])),
    lambda rng: Pred('caseless', rng.choice(['ДОМ', 'книга', 'ibm'])),
    lambda rng: Pred('in_', ('дом', 'красный', 'Иван')),
]


def term(rng):
    return Term(rng.choice(TERMS)(rng))


def chain(rng, kinds):
    """Random normalizer chain valid for an attribute or a normalizer"""
    kind = rng.choice(kinds)
    name = lambda: rng.choice(['first', 'second', 'text', 'length', 'nothing', 'zero', 'blank', 'pair', 'same'])
    grams = lambda: rng.choice([
        None, frozenset({'nomn'}), frozenset({'gent', 'sing'}), frozenset({'plur'}),
        frozenset({'accs', 'plur'}), frozenset({'ablt'}), frozenset({'nomn', 'sing'}), frozenset({'femn'})
    ])
    if kind == 'none':
        return []
    if kind == 'const':
        return [('const', rng.choice(['K', 1, 0, '', None, ('x', 1), True]))]
    if kind == 'custom':
        return [('custom', name())]
    if kind == 'custom2':
        return [('custom', name()), ('custom', name())]
    if kind == 'normalized':
        return [('normalized',)]
    if kind == 'inflected':
        return [('inflected', grams())]
    if kind == 'ncustom':
        return [('normalized',), ('custom', name())]
    if kind == 'icustom':
        return [('inflected', grams()), ('custom', name())]
    raise AssertionError(kind)


ALL_CHAINS = ['none', 'none', 'const', 'custom', 'custom2', 'normalized', 'normalized', 'inflected', 'inflected', 'ncustom', 'icustom']


class FactRules(object):
    def __init__(self, rng, invalid=0.0, chains=ALL_CHAINS, pipes=True, relations=0.0):
        self.rng = rng
        self.invalid = invalid
        self.chains = chains
        self.pipes = pipes
        default = rng.choice(['D', 7, ('t',)])
        self.F = FactSpec('F', [('a', None, False), ('b', None, False), ('c', default, False), ('r', None, True)])
        self.G = FactSpec('G', [('a', None, False), ('g', 0, False), ('s', None, True), ('f', None, False)])
        self.H = FactSpec('H', base=self.F)
        self.M = FactSpec('M', base=self.H)     # derived from the derived one
        self.names = 0
        self.relation = RelSpec(rng.choice(['gnc', 'number', 'gender', 'case']))
        self.relations = relations
        self.pool = []

    def wrap(self, node):
        rng = self.rng
        x = rng.random()
        if x < 0.1:
            self.names += 1
            return Named(node, 'N%d' % self.names)
        if x < 0.17:
            return Seq([node])
        if x < 0.22 and not isinstance(node, (Fwd, Rep)):
            return Fwd(node)
        if x < 0.22 + self.relations and not isinstance(node, (Rep, Opt)):
            return Rel(node, self.relation)
        return node

    def text(self, depth=1):
        """Part without annotations"""
        rng = self.rng
        x = rng.random()
        if depth <= 0 or x < 0.45:
            return term(rng)
        if x < 0.7:
            return Seq([self.text(depth - 1) for _ in range(rng.randint(1, 3))])
        if x < 0.8:
            return Rep(self.text(0), max=rng.randint(2, 3), reverse=rng.random() < 0.3)
        if x < 0.87:
            return Seq([self.text(0), Opt(self.text(0), rng.random() < 0.5)])
        if x < 0.93 and self.pipes:
            return Pipe(rng.choice(['', 'caseless', 'morph']), rng.choice([
                ['дом', 'дом книги', 'директор города'],
                ['красная площадь', 'новый дом', 'новый'],
                ['IBM', '№ 5', 'иван-да-марья', 'стали'],
            ]))
        return Or([self.text(depth - 1) for _ in range(2)])

    def attribute(self, depth, spec):
        """Part annotated with an attribute of the fact"""
        rng = self.rng
        name = rng.choice([_[0] for _ in spec.attrs])
        repeatable = spec.is_repeatable(name)
        x = rng.random()
        if repeatable or x < 0.35:
            # plain attribute of something
            y = rng.random()
            if y < 0.4:
                item = self.text()
            elif y < 0.65 or depth <= 0:
                item = self.wrap(Interp(self.text(), ISpec('norm', chain=chain(rng, self.chains[2:] if 'none' in self.chains else self.chains))))
            elif y < 0.75:
                item = self.attribute(depth - 1, rng.choice([self.F, self.G]))
            else:
                item = self.fact(depth - 1)
            return Interp(self.wrap(item), ISpec('attr', spec, name))
        steps = chain(rng, self.chains)
        if steps and steps[0][0] == 'custom' and depth > 0 and rng.random() < 0.25:
            item = self.fact(depth - 1) if rng.random() < 0.5 else self.attribute(depth - 1, spec)
        elif steps and steps[0][0] == 'const' and rng.random() < 0.3:
            item = Seq([self.text(0), self.attribute(depth - 1, spec)])
        else:
            item = self.text()
        return Interp(self.wrap(item), ISpec('attr', spec, name, steps))

    def broken(self, depth, spec):
        """Annotations that cannot be combined, sometimes"""
        rng = self.rng
        name = rng.choice(['a', 'b'] if spec is not self.G else ['a', 'g'])
        kind = rng.choice(['attr', 'norm', 'morph', 'pair', 'pair'])
        mixed = Seq([self.text(0), self.attribute(0, spec)])
        if kind == 'attr':
            return Interp(mixed, ISpec('attr', spec, name))
        if kind == 'pair':
            # annotated parts only
            def one():
                return rng.choice([
                    lambda: self.attribute(0, spec), lambda: self.attribute(0, spec), lambda: self.fact(0, spec),
                    lambda: Interp(self.text(0), ISpec('norm', chain=[('const', 5)])),
                ])()
            return Interp(Seq([one() for _ in range(rng.choice([2, 2, 3]))]), ISpec('attr', spec, name))
        if kind == 'norm':
            return Interp(Seq([self.attribute(0, spec), self.attribute(0, spec)]),
                          ISpec('attr', spec, name, [('custom', 'first')]))
        return Interp(self.attribute(0, spec), ISpec('attr', spec, name, [('normalized',)]))

    def part(self, depth, spec):
        rng = self.rng
        x = rng.random()
        if rng.random() < self.invalid:
            return self.broken(depth, spec)
        if self.pool and x < 0.1:
            return rng.choice(self.pool)
        if x < 0.5 or depth <= 0:
            # attributes of a derived fact are those of its base
            node = self.attribute(depth, spec)
        elif x < 0.55:
            node = self.attribute(depth, rng.choice([self.F, self.G, self.H, self.M]))
        elif x < 0.65:
            node = self.text()
        elif x < 0.7:
            node = Interp(self.text(), ISpec('norm', chain=chain(rng, ['const', 'custom', 'normalized', 'inflected'])))
        elif x < 0.78:
            node = self.fact(depth - 1, spec)
        elif x < 0.82:
            node = self.fact(depth - 1)
        elif x < 0.88:
            node = Opt(self.part(depth - 1, spec), rng.random() < 0.5)
        elif x < 0.93:
            node = Rep(self.plain(self.part(depth - 1, spec)), max=rng.choice([None, 2, 3]), reverse=rng.random() < 0.3)
        elif x < 0.97:
            node = Or([self.part(depth - 1, spec) for _ in range(2)])
        else:
            forward = Fwd()
            item = self.plain(self.part(depth - 1, spec))
            forward.target = Or([Seq([item, forward]), item])
            node = forward
        node = self.wrap(node)
        self.pool.append(node)
        return node

    def plain(self, node):
        return Seq([node]) if isinstance(node, (Opt, Rep)) else node

    def fact(self, depth, spec=None):
        rng = self.rng
        if spec is None:
            spec = rng.choice([self.F, self.F, self.G, self.H, self.M])
        items = [self.part(depth, spec) for _ in range(rng.choice([1, 2, 2, 3]))]
        return Interp(self.wrap(Seq(items)), ISpec('fact', spec))

    def root(self, depth=2):
        return Interp(Seq([self.fact(depth)]) if self.rng.random() < 0.05
                      else self.fact(depth).item, ISpec('fact', self.rng.choice([self.F, self.F, self.H, self.M, self.G])))


def texts(rng, root, count, size=9):
    result = []
    for _ in range(count * 4):
        preds = Sampler(rng, size)(root)
        if not preds:
            continue
        values = realise(rng, preds)
        if not values:
            continue
        if rng.random() < 0.3:
            values = [rng.choice(words.ANY)] + values
        if rng.random() < 0.3:
            values = values + [rng.choice(words.ANY)]
        result.append(spaced(rng, values))
        if len(result) == count:
            break
    return result


# values that are equal but not the same
EQUAL = [
    [1, True, 1.0], [0, False, 0.0], [('x', 1), ('x', True)], [('t', 0), ('t', False), ('t', 0.0)], ['K', 'K'], [2, 2.0],
]


def equal_value(rng, value):
    for group in EQUAL:
        if any(_ == value for _ in group):
            return rng.choice(group)
    return value


def twin(rng, node, memo=None):
    """Separate copy of a rule, equal to it: relations are other objects,
    constants are equal but may be of another type"""
    memo = {} if memo is None else memo
    if id(node) in memo:
        return memo[id(node)]
    copy = lambda item: twin(rng, item, memo)
    if isinstance(node, Fwd):
        result = memo[id(node)] = Fwd()
        result.target = copy(node.target)
        return result
    if isinstance(node, Term):
        result = Term(node.pred)
    elif isinstance(node, Seq):
        result = Seq([copy(_) for _ in node.items], main=node.main)
    elif isinstance(node, Or):
        result = Or([copy(_) for _ in node.items])
    elif isinstance(node, Opt):
        result = Opt(copy(node.item), node.reverse)
    elif isinstance(node, Rep):
        result = Rep(copy(node.item), node.min, node.max, node.reverse)
    elif isinstance(node, Named):
        result = Named(copy(node.item), node.name)
    elif isinstance(node, Pipe):
        result = Pipe(node.kind, list(node.lines))
    elif isinstance(node, Rel):
        result = memo.get(id(node.relation))
        if result is None:
            result = memo[id(node.relation)] = RelSpec(node.relation.kind, node.relation.subs, node.relation.function)
        result = Rel(copy(node.item), result)
    elif isinstance(node, Interp):
        chain = [(_[0], equal_value(rng, _[1])) if _[0] == 'const' else _ for _ in node.spec.chain]
        result = Interp(copy(node.item), ISpec(node.spec.kind, node.spec.fact, node.spec.attr, chain))
    else:
        raise AssertionError(node)
    memo[id(node)] = result
    return result


def wrapped(rng, node, count):
    """The part in several wrappers, quantifiers included"""
    for _ in range(count):
        kind = rng.choice(['opt', 'rep', 'max', 'min', 'bounds', 'named', 'seq', 'forward', 'or', 'list'])
        plain = Seq([node]) if isinstance(node, (Opt, Rep)) else node
        if kind == 'opt':
            node = Opt(plain, rng.random() < 0.4)
        elif kind == 'rep':
            node = Rep(plain, reverse=rng.random() < 0.3)
        elif kind == 'max':
            node = Rep(plain, max=rng.choice([2, 3]), reverse=rng.random() < 0.3)
        elif kind == 'min':
            node = Rep(plain, min=rng.choice([1, 2]))
        elif kind == 'bounds':
            node = Rep(plain, min=rng.choice([1, 2]), max=rng.choice([2, 3]))
        elif kind == 'named':
            node = Named(node, 'N')
        elif kind == 'seq':
            node = Seq([node])
        elif kind == 'forward':
            node = Fwd(Seq([node]) if isinstance(node, Fwd) else plain)
        elif kind == 'or':
            node = Or([Seq([node]), Seq([Term(eq('№')), plain])])
        else:
            forward = Fwd()
            forward.target = Or([Seq([plain, Term(eq('&')), forward]), Seq([plain])])
            node = forward
    return node


def twins(rng, kinds=('const', 'const', 'const', 'same', 'fact', 'relation', 'default')):
    """Interpreted rule with two or three parts that are equal, not the same"""
    F = FactSpec('F', [('a', None, False), ('b', rng.choice([1, None, 'D']), False), ('r', None, True)])
    G = FactSpec('F', [('a', None, False), ('b', None, False), ('r', None, True)])
    const = lambda: ('const', rng.choice(rng.choice(EQUAL)))
    name = rng.choice(['a', 'b', 'r'])
    item = rng.choice([lambda: term(rng), lambda: Seq([term(rng), term(rng)]),
                       lambda: Pipe('morph', ['дом', 'дом книги', 'стали'])])()
    kind = rng.choice(kinds)
    if kind == 'const':
        item = Interp(item, ISpec('attr', F, rng.choice('ab'), [const()])) if name != 'r' else \
            Interp(wrapped(rng, Interp(item, ISpec('norm', chain=[const()])), rng.choice([0, 0, 1])), ISpec('attr', F, 'r'))
        if rng.random() < 0.3:
            item = Interp(Seq([item]), ISpec('fact', F))
    elif kind == 'same':
        # one function after another
        step = ('custom', rng.choice(['first', 'second', 'text', 'pair', 'same', 'blank']))
        for _ in range(rng.choice([2, 2, 3])):
            item = Interp(item, ISpec('norm', chain=[step] if rng.random() < 0.7 else [step, step]))
        item = Interp(item, ISpec('attr', F, name))
    elif kind == 'fact':
        # classes with the same name and attributes
        item = Interp(Interp(item, ISpec('attr', G, 'a', [const()])), ISpec('fact', G))
        item = Interp(item, ISpec('attr', F, name))
    elif kind == 'default':
        item = Interp(item, ISpec('attr', F, 'b', [('const', rng.choice([1, True, None, 'D']))]))
    else:
        pred = rng.choice([Pred('gram', 'NOUN'), Pred('type', 'RU'), Pred('gram', 'ADJF')])
        relation = RelSpec(rng.choice(['gnc', 'number', 'case', 'gender']))
        item = Seq([Interp(Rel(Term(pred), relation), ISpec('attr', F, 'a', [('normalized',)])),
                    Rel(Term(Pred('gram', 'NOUN')), relation)])
        if rng.random() < 0.5:
            item = Interp(item, ISpec('fact', F))
    base = wrapped(rng, item, rng.choice([0, 1, 1, 2]))
    parts = [base]
    for _ in range(rng.choice([1, 1, 2])):
        memo = {}
        for node in walk(base):
            # sometimes a part of both is really shared
            if rng.random() < 0.03:
                memo[id(node)] = node
        parts.append(twin(rng, base, memo))
    rng.shuffle(parts)
    if rng.random() < 0.6:
        items = []
        for part in parts:
            if items and rng.random() < 0.8:
                items.append(Term(eq(rng.choice([',', 'и', '/']))))
            items.append(part)
        node = Seq(items)
    else:
        node = Or([Seq([Term(eq(lead)), part] if rng.random() < 0.8 else [part]) for lead, part in zip([',', '/', 'и'], parts)])
        if rng.random() < 0.5:
            node = Rep(Seq([node]), max=3)
    return Interp(Seq([node]) if isinstance(node, (Rep,)) else node, ISpec('fact', rng.choice([F, F, F, G]) if kind == 'fact' else F))


def letters(number):
    return ''.join('abcdefghij'[int(_)] for _ in str(number))


def large(case):
    """(root, texts): many attributes, many values, deep nesting, long and sparse parts"""
    rng = case.rng
    kind = rng.choice(['attributes', 'values', 'nested', 'merged', 'overwritten', 'phrase', 'gaps', 'items'])
    case.count('large_' + kind)
    steps = lambda: rng.choice([[], [], [('normalized',)], [('inflected', None)], [('custom', 'first')], [('const', rng.choice([0, None, 'K']))]])
    word = lambda: rng.choice(words.NOUNS + words.ADJECTIVES + words.NUMBERS + words.LATIN)
    ru = lambda: Term(Pred('true'))
    if kind == 'attributes':
        size = rng.choice([12, 33, 70, 110])
        attrs = [('x%d' % _, rng.choice([None, None, 'D', 0]), False) for _ in range(size)]
        for _ in range(rng.choice([0, 1, 3])):
            attrs.insert(rng.randrange(len(attrs)), ('r%d' % _, None, True))
        F = FactSpec('F', attrs)
        names = [_[0] for _ in attrs]
        rng.shuffle(names)
        items, values = [], []
        for index, name in enumerate(names):
            value = letters(index)
            item = Interp(Term(eq(value)), ISpec('attr', F, name, [] if F.is_repeatable(name) else steps()))
            given = True
            if rng.random() < 0.2:
                item = Opt(item, rng.random() < 0.5)
                given = rng.random() < 0.5
            items.append(item)
            if given:
                values.append(value)
        root = Interp(Seq(items), ISpec('fact', F))
    elif kind in ('values', 'overwritten', 'items'):
        size = rng.choice([30, 70, 130, 260])
        F = FactSpec('F', [('a', None, False), ('r', None, True), ('b', 'D', False)])
        G = FactSpec('G', [('a', None, False), ('s', None, True)])
        values = [word() for _ in range(size)]
        if kind == 'values':
            item = Or([Interp(Interp(Term(Pred('type', 'RU')), ISpec('norm', chain=[('normalized',)])), ISpec('attr', F, 'r')),
                       Interp(Term(Pred('not', subs=[Pred('type', 'RU')])), ISpec('attr', F, rng.choice(['r', 'a'])))])
        elif kind == 'overwritten':
            item = Interp(ru(), ISpec('attr', F, rng.choice(['a', 'b']), steps()))
        else:
            width = rng.choice([1, 1, 2, 3])
            values = values[:size // width * width]
            inner = Interp(Seq([Interp(ru(), ISpec('attr', G, rng.choice(['a', 's']))) for _ in range(width)]), ISpec('fact', G))
            item = Interp(inner, ISpec('attr', F, rng.choice(['r', 'r', 'a'])))
        item = Rep(item) if rng.random() < 0.6 else Rep(Seq([item]))
        root = Interp(Seq([Term(eq('<')), item, Term(eq('>'))]), ISpec('fact', F))
    elif kind == 'nested':
        depth = rng.choice([6, 12, 20])
        specs = [FactSpec('F%d' % (_ % 3), [('a', None, False), ('f', None, rng.random() < 0.3), ('z', 0, False)]) for _ in range(depth)]
        node = Interp(ru(), ISpec('attr', specs[-1], 'a'))
        values = [word() for _ in range(depth)]
        node = Interp(Seq([node]), ISpec('fact', specs[-1]))
        for spec in reversed(specs[:-1]):
            node = Interp(Seq([Interp(ru(), ISpec('attr', spec, 'a')), Interp(node, ISpec('attr', spec, 'f'))]), ISpec('fact', spec))
        root = node
    elif kind == 'merged':
        depth = rng.choice([6, 15, 25])
        F = FactSpec('F', [('a', None, False), ('r', None, True), ('b', None, False)])
        values = [word() for _ in range(depth)]
        node = Interp(Seq([Interp(ru(), ISpec('attr', F, 'r'))]), ISpec('fact', F))
        for _ in range(depth - 1):
            items = [Interp(ru(), ISpec('attr', F, rng.choice(['a', 'r', 'r', 'b']))), node]
            if rng.random() < 0.5:
                items.reverse()
            node = Interp(Seq(items), ISpec('fact', F))
        root = node
    elif kind == 'phrase':
        size = rng.choice([20, 60, 140])
        F = FactSpec('F', [('a', None, False), ('r', None, True)])
        values = [word() for _ in range(size)]
        root = Interp(Seq([Interp(Rep(ru()), ISpec('attr', F, 'a', steps()))]), ISpec('fact', F))
    else:
        F = FactSpec('F', [('a', None, False), ('r', None, True)])
        values = [word() for _ in range(rng.randint(2, 6))]
        root = Interp(Seq([Interp(Rep(ru()), ISpec('attr', F, 'a', steps()))]), ISpec('fact', F))
    if kind in ('phrase', 'gaps'):
        root = Interp(Seq([Term(eq('<')), root.item.items[0], Term(eq('>'))]), root.spec)
    if rng.random() < 0.25:
        # whole fact is a value or an argument of a function
        H = FactSpec('H', [('b', None, False), ('s', None, True)])
        chain = rng.choice([[], [('custom', 'same')], [('custom', 'first')], [('custom', 'pair')], [('const', 'K')],
                            [('custom', 'first'), ('custom', 'same')]])
        item = root
        if chain and rng.random() < 0.5:
            item, chain = Interp(root, ISpec('norm', chain=chain)), []
        item = Interp(item, ISpec('attr', H, 'b' if chain else rng.choice('bs'), chain))
        root = Interp(Seq([item]), ISpec('fact', H))
        case.count('composed')
    if kind in ('phrase', 'gaps', 'values', 'overwritten', 'items'):
        # one match only: no other parts of the text begin and end so
        values = ['<'] + values + ['>']
    parts = []
    for value in values:
        parts.append(value)
        if kind == 'gaps':
            parts.append(rng.choice([' ' * rng.choice([2, 17, 33, 65, 129, 257, 300, 513, 1025, 3000]),
                                     '\t' * rng.choice([1, 40, 260]), '\u00a0' * rng.choice([1, 130, 700]), ' \t' * rng.choice([3, 200])]))
        else:
            parts.append(rng.choice([' ', ' ', ' ', '  ', '\t']))
    root.large = True       # few derivations of the whole text, many of its parts
    return root, [''.join(parts)]


class Observation(object):
    """One match with its model"""

    def __init__(self, match, reading, tokens):
        self.match = match
        self.reading = reading
        self.tokens = tokens
        self.error = None
        self.model = None
        del EXPECTED_CALLS[:]
        try:
            self.model = evaluate(reading.derivation, reading)
        except ModelTypeError as error:
            self.error = error
        self.expected_calls = list(EXPECTED_CALLS)

    def fact(self, case):
        """Actual fact, or None when TypeError was expected and raised"""
        del CALLS[:]
        try:
            value = self.match.fact
        except TypeError as error:
            if self.error:
                case.ok()
                case.count('type_errors')
                return None
            raise
        self.calls = list(CALLS)
        if self.error:
            case.fail('parts cannot be combined (%s), but fact is %r' % (self.error, value))
        return value


def observe(case, root, items, limit=1500, tokenizer=None):
    """-> Observation for every match of findall() in every text"""
    if not defined(root):
        raise Skip
    case.note(*describe(root))
    made = None
    for text in items:
        tokens = ref.tokenize(text)
        derivations = Derivations(root, tokens, limit=500)
        if not getattr(root, 'large', False):
            derivations.load(limit)
        if made is None:
            made = parser(root, tokenizer or morph_tokenizer())
        case.notes.append('text %r' % text)
        matches = list(made.findall(text))
        for match, (i, j) in zip(matches, spans_of(matches, tokens)):
            reading = first_valid(derivations.run(i, j), tokens)
            if reading is None:
                case.fail('match of %d:%d has no valid derivation' % (i, j))
            # first analysis decides the values; order after agreement is not specified
            for token in match.tokens:
                index = [_ for _ in range(i, j) if tokens[_].start == token.span.start]
                if not index or not hasattr(token, 'forms'):
                    continue
                expected = reading.tokens[index[0]]
                if {_.key for _ in expected.forms} == {ref.form_key(_) for _ in token.forms}:
                    order = {}
                    for position, form in enumerate(token.forms):
                        order.setdefault(ref.form_key(form), position)
                    reading.tokens[index[0]] = expected.with_forms(
                        sorted(expected.forms, key=lambda _: order[_.key]))
            case.count('matches')
            yield Observation(match, reading, tokens)
        case.notes.pop()


def features(root):
    """Kinds of annotations in the rule, for coverage counts"""
    result = set()
    for node in walk(root):
        if isinstance(node, Interp):
            spec = node.spec
            kind = spec.kind
            result.add(kind + ':' + '.'.join(_[0] for _ in spec.chain))
            inner = [_ for _ in walk(node.item) if isinstance(_, Interp)]
            if inner:
                result.add('nested:' + kind + '>' + inner[0].spec.kind)
    return result
