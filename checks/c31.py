"""C31: naming, grouping, sharing and annotating do not change what matches."""
from vlib.run import W, Skip
from vlib.gram import (
    build, describe, Derivations, Recognizer, Seq, Or, Opt, Rep, Term, Named, Interp, Rel, RelSpec, Fwd,
    Empty, Pipe, Pred, Wrap, is_unlimited, walk
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.interp import FactSpec, ISpec, canon
from vlib.facts import FactRules, texts, twins
from vlib.common import plain_tokenizer, morph_tokenizer, spans_of, LETTERS, LITERALS
from vlib import ref, words, pipes

RULE = (
    'A case is a random rule and variants of it: some parts wrapped in names, one-term rules, '
    'one-alternative or_, forwards, interpretations, relations nobody else uses; shared parts '
    'replaced by separate copies and equal parts by one shared part. The parsers of all variants '
    'run on the same texts; matching runs, chosen matches and facts must be those of the '
    'original. Non trivial: the original matches and 1+ wrappers were added.'
)
MINIMUMS = {'defined_matches': 300, 'twins': 140, 'variants': 3000, 'wrapped': 4000, 'matches': 3000, 'facts': 600, 'kinds': 6, 'copied': 150,
            'unified': 100, 'matching_texts': 800, 'relation_wraps': 200, 'preferences': 100, 'interpretation_wraps': 200}


class Wrapper(object):
    """Copy of the grammar with wrappers around random parts"""

    def __init__(self, case, kinds, rate=0.35, copies=False):
        self.case = case
        self.rng = case.rng
        self.kinds = kinds
        self.rate = rate
        self.copies = copies
        self.memo = {}
        self.count = 0
        self.used = []

    def copy(self, node):
        if isinstance(node, Fwd):
            if id(node) not in self.memo:
                result = self.memo[id(node)] = Fwd()
                result.target = self.visit(node.target, plain=isinstance(node.target, Rep))
                while isinstance(result.target, Fwd):
                    result.target = Seq([result.target])
            return self.memo[id(node)]
        if not self.copies and id(node) in self.memo:
            return self.memo[id(node)]
        if isinstance(node, Term):
            result = Term(node.pred)
        elif isinstance(node, Seq):
            result = Seq([self.visit(_) for _ in node.items], node.main)
        elif isinstance(node, Or):
            result = Or([self.visit(_) for _ in node.items])
        elif isinstance(node, Empty):
            result = Empty()
        elif isinstance(node, Pipe):
            result = Pipe(node.kind, node.lines)
        elif isinstance(node, Opt):
            result = Opt(self.visit(node.item), node.reverse)
        elif isinstance(node, Rep):
            plain = bool(node.min or node.max) and is_unlimited(node.item)
            result = Rep(self.visit(node.item, plain), node.min, node.max, node.reverse)
        elif isinstance(node, Named):
            result = Named(self.visit(node.item), node.name)
        elif isinstance(node, Interp):
            result = Interp(self.visit(node.item), node.spec)
        elif isinstance(node, Rel):
            result = Rel(self.visit(node.item), node.relation)
        else:
            raise AssertionError(node)
        self.memo[id(node)] = result
        return result

    def visit(self, node, plain=False):
        result = self.copy(node)
        if plain:
            return result
        while self.rng.random() < self.rate:
            result = self.wrap(result)
        return result

    def wrap(self, node):
        rng = self.rng
        kind = rng.choice(self.kinds)
        if kind == 'forward' and isinstance(node, (Fwd, Rep)):
            kind = 'rule'
        self.count += 1
        self.used.append(kind)
        self.case.value('kinds', kind)
        if kind == 'named':
            return Named(node, rng.choice(['N1', 'N2', 'W%d' % self.count]))
        if kind == 'rule':
            return Seq([node])
        if kind == 'or':
            return Or([node])
        if kind == 'forward':
            return Fwd(node)
        if kind == 'norm':
            self.case.count('interpretation_wraps')
            return Interp(node, ISpec('norm', chain=rng.choice([[('normalized',)], [('const', 1)], [('custom', 'first')]])))
        if kind == 'fact':
            self.case.count('interpretation_wraps')
            if isinstance(node, Term):
                node = Seq([node])      # facts are for rules
            return Interp(node, ISpec('fact', FactSpec('W', [('a', None, False)])))
        if kind == 'relation':
            self.case.count('relation_wraps')
            return Rel(node, RelSpec(rng.choice(['gnc', 'number', 'gender', 'case'])))
        raise AssertionError(kind)


def unify(root):
    """Equal parts become one shared part"""
    table = {}
    memo = {}
    count = [0]

    def visit(node):
        if id(node) in memo:
            return memo[id(node)]
        if isinstance(node, Fwd):
            result = memo[id(node)] = Fwd()
            result.target = visit(node.target)
            return result
        if isinstance(node, Term):
            key, make = ('term', repr(node.pred)), lambda: node
        elif isinstance(node, Seq):
            items = [visit(_) for _ in node.items]
            key, make = ('seq', tuple(map(id, items)), node.main), lambda: Seq(items, node.main)
        elif isinstance(node, Or):
            items = [visit(_) for _ in node.items]
            key, make = ('or', tuple(map(id, items))), lambda: Or(items)
        elif isinstance(node, Empty):
            key, make = ('empty',), lambda: node
        elif isinstance(node, Pipe):
            key, make = ('pipe', node.kind, tuple(node.lines)), lambda: node
        elif isinstance(node, Opt):
            item = visit(node.item)
            key, make = ('opt', id(item), node.reverse), lambda: Opt(item, node.reverse)
        elif isinstance(node, Rep):
            item = visit(node.item)
            key, make = ('rep', id(item), node.min, node.max, node.reverse), lambda: Rep(item, node.min, node.max, node.reverse)
        elif isinstance(node, Named):
            item = visit(node.item)
            key, make = ('named', id(item), node.name), lambda: Named(item, node.name)
        elif isinstance(node, Interp):
            item = visit(node.item)
            key, make = ('interp', id(item), repr(node.spec), id(node.spec.fact)), lambda: Interp(item, node.spec)
        elif isinstance(node, Rel):
            item = visit(node.item)
            key, make = ('rel', id(item), id(node.relation)), lambda: Rel(item, node.relation)
        else:
            raise AssertionError(node)
        if key in table:
            count[0] += table[key] is not node and not isinstance(node, (Term, Empty))
        else:
            table[key] = make()
        memo[id(node)] = table[key]
        return table[key]

    return visit(root), count[0]


def shared(root):
    parents = {}
    for node in walk(root):
        for child in node.children():
            parents[id(child)] = parents.get(id(child), 0) + 1
    return any(
        parents.get(id(node), 0) > 1
        for node in walk(root)
        if not isinstance(node, (Term, Fwd, Empty))
    )


def observe(case, parser, text, tokens, facts):
    """Everything about the text that must not change"""
    found = list(parser.findall(text))
    result = {
        'findall': spans_of(found, tokens),
        'tokens': [[ref.token_key(_, False) for _ in match.tokens] for match in found],
        'extract': sorted(set(spans_of(list(parser.extract(text)), tokens))),
        'match': bool(parser.match(text)),
        'find': [tuple(_.span) for _ in [parser.find(text)] if _],
    }
    if facts:
        values = []
        for match in found:
            try:
                values.append(canon(match.fact, None))
            except TypeError:
                values.append('TypeError')
        result['facts'] = values
    return result


def compare(case, root, variants, items, tokenizer, facts=False, morph=True, load=1500):
    """variants: [(title, node, copies)]"""
    from yargy import Parser
    listing = describe(root)
    case.note(*listing)
    parsers = [('original', Parser(build(root), tokenizer))]
    for title, node, copies in variants:
        if not defined(node):
            continue
        parsers.append((title + ':\n' + '\n'.join('    ' + _ for _ in describe(node)),
                        Parser(build(node, copies=copies), tokenizer)))
        case.count('variants')
    for text in items:
        tokens = ref.tokenize(text, morph=morph)
        if len(tokens) > 10:
            continue
        Derivations(root, tokens, limit=500).load(load)
        expected = None
        for title, parser in parsers:
            actual = observe(case, parser, text, tokens, facts)
            if expected is None:
                expected = actual
                case.count('matches', len(actual['extract']))
                case.count('facts', len(actual.get('facts', ())))
                if actual['extract']:
                    case.count('matching_texts')
                    case.seen(listing, text, len(parsers))
                continue
            for key in expected:
                case.ok()
                if actual[key] != expected[key]:
                    case.fail('%s of %r differ: %s originally, %s of %s' % (
                        key, text, expected[key], actual[key], title))
    case.sample({'rule': listing, 'variants': [_[0] for _ in parsers[1:3]], 'texts': items[:2]})


def variants_of(case, root, kinds, keep_root=False, quick=3, rate=0.35):
    result = []
    for _ in range(quick):
        wrapper = Wrapper(case, kinds, rate=case.rng.choice([0.1, rate]), copies=case.rng.random() < 0.15)
        node = wrapper.visit(root, plain=keep_root)
        if not wrapper.count:
            continue
        case.count('wrapped', wrapper.count)
        result.append(('wrapped %s' % ' '.join(sorted(set(wrapper.used))), node, False))
    if shared(root):
        result.append(('copies', root, True))
        case.count('copied')
    node, count = unify(root)
    if count:
        result.append(('unified', node, False))
        case.count('unified')
    if not result:
        raise Skip
    return result


PLAIN = ['named', 'rule', 'or', 'forward']


def letters(case):
    rng = case.rng
    grammars = Grammars(rng, LITERALS, depth=rng.choice([1, 2, 2, 3]), nested=rng.random() < 0.3,
                        forward=rng.choice([0, 0.1]), share=0.25)
    root = grammars.root()
    items = [' '.join(_) for _ in literal_texts(rng, root, LETTERS, 4, 6)]
    compare(case, root, variants_of(case, root, PLAIN + ['norm', 'fact']), items, plain_tokenizer(), morph=False)


def recursive(rng):
    """Small recursive rules on letters, left, right, mutual, nullable"""
    a, b, c = [Term(_) for _ in LITERALS]
    x, y = Fwd(), Fwd()
    kind = rng.choice(['left', 'right', 'middle', 'mutual', 'null', 'double'])
    part = lambda: rng.choice([a, b, Seq([a, b]), Opt(a), Opt(b), Rep(c, max=2), Or([a, c])])
    if kind == 'left':
        x.target = Or([Seq([x, part()]), part()])
    elif kind == 'right':
        x.target = Or([part(), Seq([part(), x])])
    elif kind == 'middle':
        x.target = Or([Seq([part(), x, part()]), part()])
    elif kind == 'mutual':
        x.target = Or([Seq([y, part()]), part()])
        y.target = Or([Seq([part(), x]), part()])
    elif kind == 'null':
        x.target = Or([Seq([Opt(a), x, part()]), part()])
    else:
        x.target = Or([Seq([x, x]), part()])
    return x


def recursion(case):
    rng = case.rng
    root = recursive(rng)
    if rng.random() < 0.4:
        root = Seq([Opt(Term(LITERALS[0])), root])
    items = [' '.join(_) for _ in literal_texts(rng, root, LETTERS, 3, 6)]
    items += [' '.join(rng.choice(LETTERS) for _ in range(rng.randint(1, 5))) for _ in range(2)]
    compare(case, root, variants_of(case, root, PLAIN + ['norm', 'fact']), items, plain_tokenizer(), morph=False)


def agreement(case):
    """Relations of the rule keep their links; new ones used once change nothing"""
    rng = case.rng
    relation = RelSpec(rng.choice(['gnc', 'number', 'gender', 'case']))

    def word():
        node = Term(Pred('gram', rng.choice(['ADJF', 'NOUN', 'Name', 'Surn', 'VERB', 'NOUN'])))
        return Rel(node, relation) if rng.random() < 0.6 else node

    def part():
        return rng.choice([word, word, lambda: Opt(word()), lambda: Or([word(), Seq([word(), word()])]),
                           lambda: Seq([word(), word()], main=rng.choice([None, 0, 1]))])()

    root = Seq([part() for _ in range(rng.randint(1, 3))], main=rng.choice([None, 0]))
    if rng.random() < 0.3:
        root = Rel(root, relation if rng.random() < 0.3 else RelSpec('number'))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES + words.AMBIGUOUS
    items = [words.sentence(rng, rng.randint(1, 5), pool, tight=0) for _ in range(3)] + texts(rng, root, 3)
    # every node occurs once in a derivation: no repetition here
    compare(case, root, variants_of(case, root, PLAIN + ['relation', 'relation', 'norm']), items, morph_tokenizer())


def interpreted(case):
    """Values of annotations stay the same"""
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0, 0.1]), invalid=rng.choice([0, 0, 0.1]))
    root = rules.root(depth=rng.choice([1, 2, 2]))
    compare(case, root, variants_of(case, root, PLAIN, keep_root=True), texts(rng, root, 3),
            morph_tokenizer(), facts=True)


def twin_parts(case):
    """Parts that are equal but not the same"""
    rng = case.rng
    root = twins(rng)
    case.count('twins')
    compare(case, root, variants_of(case, root, PLAIN, keep_root=True), texts(rng, root, 3, size=12),
            morph_tokenizer(), facts=True)


def tagged(rng, node, F, memo):
    """Every term records which one it is"""
    if id(node) in memo:
        return memo[id(node)]
    if isinstance(node, Term):
        result = Interp(Interp(node, ISpec('norm', chain=[('const', len(memo))])), ISpec('attr', F, 'r'))
    elif isinstance(node, Seq):
        result = Seq([tagged(rng, _, F, memo) for _ in node.items], node.main)
    elif isinstance(node, Or):
        result = Or([tagged(rng, _, F, memo) for _ in node.items])
    elif isinstance(node, Opt):
        result = Opt(tagged(rng, node.item, F, memo), node.reverse)
    elif isinstance(node, Rep):
        result = Rep(tagged(rng, node.item, F, memo), node.min, node.max, node.reverse)
    elif isinstance(node, Named):
        result = Named(tagged(rng, node.item, F, memo), node.name)
    elif isinstance(node, Empty):
        result = Empty()
    else:
        raise Skip
    memo[id(node)] = result
    return result


def preferences(case):
    """Ambiguous rules: the fact tells which reading was chosen"""
    rng = case.rng
    letters = LITERALS[:rng.choice([1, 1, 2])]

    def part(depth):
        x = rng.random()
        if x < 0.15 or not depth:
            return Term(rng.choice(letters))
        if x < 0.5:
            return Opt(plain(depth - 1), rng.random() < 0.5)
        if x < 0.75:
            return Rep(plain(depth - 1), None, rng.choice([None, 2, 3]), rng.random() < 0.5)
        if x < 0.85:
            return Or([part(depth - 1) for _ in range(2)])
        return Seq([part(depth - 1) for _ in range(2)])

    def plain(depth):
        node = part(depth)
        return Seq([node]) if isinstance(node, (Opt, Rep)) else node

    grammar = Seq([part(rng.choice([1, 1, 2])) for _ in range(rng.choice([2, 2, 3]))])
    F = FactSpec('F', [('r', None, True)])
    root = Interp(Seq([tagged(rng, grammar, F, {})]), ISpec('fact', F))
    case.count('preferences')
    items = [' '.join(rng.choice(letters).arg for _ in range(size)) for size in (1, 2, 3)]
    compare(case, root, variants_of(case, root, PLAIN, keep_root=True), items, plain_tokenizer(), facts=True, morph=False)


def dictionaries(case):
    """Pipelines with and without annotations"""
    rng = case.rng
    pipe = pipes.pipe(rng)
    F = FactSpec('F', [('a', None, False), ('r', None, True)])
    items = [pipes.text(rng, [pipe], 2) for _ in range(3)]
    inner = Interp(pipe, ISpec('attr', F, 'a', rng.choice([[], [('normalized',)]])))
    if rng.random() < 0.3:
        inner = Interp(Interp(pipe, ISpec('norm', chain=[('normalized',)])), ISpec('attr', F, 'r'))
    body = rng.choice([
        lambda: Seq([inner]), lambda: Seq([inner, Opt(pipe)]), lambda: Rep(inner, max=3),
        lambda: Or([inner, Seq([pipe, inner])]), lambda: Seq([Opt(Term(Pred('type', 'RU'))), inner])
    ])()
    root = Interp(body, ISpec('fact', F))
    compare(case, root, variants_of(case, root, PLAIN, keep_root=True), items, morph_tokenizer(), facts=True)


def definitions(case):
    """define() called on a name, an annotation, a relation or a quantifier
    put on a forward: the result is the rule it was called on"""
    from yargy import Parser, rule, or_, forward
    from yargy.interpretation import fact, attribute
    from yargy.predicates import eq as eq_, gram, type as type_
    from yargy.relations import gnc_relation
    rng = case.rng
    F = fact('F', ['a', attribute('r').repeatable()])
    G = fact('G', ['f', 'a'])
    relation = gnc_relation()
    steps = {
        'named': lambda _: _.named('N'),
        'fact': lambda _: _.interpretation(F),
        'attr': lambda _: _.interpretation(G.a),
        'optional': lambda _: _.optional(),
        'reversed': lambda _: _.optional(reverse=True),
        'repeatable': lambda _: _.repeatable(),
        'match': lambda _: _.match(relation),
    }
    chosen = [rng.choice(sorted(steps)) for _ in range(rng.choice([1, 1, 2, 3]))]
    chosen = [_ for index, _ in enumerate(chosen) if _ not in chosen[:index]]
    noun = rng.choice([lambda: gram('NOUN'), lambda: type_('RU')])
    bodies = {
        'term': lambda: [noun()],
        'two': lambda: [gram('ADJF'), noun()],
        'attr': lambda: [rule(noun()).interpretation(F.a)],
        'list': lambda: [rule(noun()).interpretation(F.r).repeatable(max=3)],
        'or': lambda: [or_(rule(noun()).interpretation(F.a), rule(type_('INT')).interpretation(F.r))],
        'one': lambda: [rule(rule(noun()).interpretation(F.a), rule(type_('INT')).optional())],
    }
    body = rng.choice(sorted(bodies))
    around = rng.choice(['plain', 'before', 'fact', 'twice'])
    case.note('forward().%s.define(%s), used %s' % ('.'.join(chosen), body, around))

    def stack(item):
        for name in chosen:
            item = steps[name](item)
        return item

    def use(item):
        if around == 'before':
            return rule('и', item)
        if around == 'fact':
            return rule(item).interpretation(G.f).interpretation(G)
        if around == 'twice':
            return rule(item, ',', item)
        return rule(item)

    def separate():
        item = stack(forward())
        item.define(*bodies[body]())
        return item

    def inner():
        # the forward itself is defined
        item = forward()
        result = stack(item)
        item.define(*bodies[body]())
        return result

    makers = [separate, inner, lambda: stack(forward()).define(*bodies[body]()), lambda: stack(forward().define(*bodies[body]()))]
    if 'repeatable' not in chosen and 'optional' not in chosen and 'reversed' not in chosen:
        makers.append(lambda: stack(rule(*bodies[body]())))
    try:
        parsers = [Parser(use(_()), morph_tokenizer()) for _ in makers]
    except ValueError:
        raise Skip
    values = ['дом', 'новый', 'книга', '5', 'и', ',', 'красная', 'площадь', 'большой', 'директора']
    for _ in range(3):
        text = ' '.join(rng.choice(values) for _ in range(rng.randint(2, 7)))
        expected = None
        for number, parser in enumerate(parsers):
            found = []
            for match in parser.findall(text):
                try:
                    value = repr(match.fact)
                except (TypeError, ValueError) as error:
                    value = type(error).__name__
                names = sorted(str(_.label) for _ in match.tree.walk() if str(_.label) == 'N')
                found.append((match.span.start, match.span.stop, value, names))
            if expected is None:
                expected = found
                if found:
                    case.seen(case.notes, text)
                    case.count('defined_matches', len(found))
            case.equal(found, expected, 'matches of %r, way %d of the definition' % (text, number))


WORKLOADS = [
    W('definitions', definitions, 500, 5000),
    W('twins', twin_parts, 300, 4000),
    W('letters', letters, 1200, 12000),
    W('recursion', recursion, 500, 5000),
    W('agreement', agreement, 400, 5000),
    W('facts', interpreted, 600, 8000),
    W('preferences', preferences, 600, 8000),
    W('dictionaries', dictionaries, 400, 5000),
]
