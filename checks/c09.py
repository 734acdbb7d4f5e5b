"""C09: using a rule never changes it."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Derivations, Builder, build, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named,
    Interp, Fwd, Pipe, Empty, eq, walk
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.facts import FactRules, texts
from vlib.interp import ISpec, FactSpec
from vlib.common import parser, text_of, plain_tokenizer, morph_tokenizer, alphabet, LETTERS, LITERALS
from vlib.observe import outcome
from vlib import ref, words, pipes

RULE = (
    'A case is a rule graph with shared parts. What a parser of a private fresh copy returns on '
    'the texts is recorded before and compared with what parsers of the shared rule return after '
    'every step of a random history of uses (parsers with the same, other and unfit tokenizers '
    'and taggers, parsing, normalized, BNF, pictures, embedding, quantifying, naming, annotating, '
    'of the rule and of its parts; also uses of rules whose forwards are not defined yet); listings must stay the same too. Non trivial: text with matches.'
)
TECHNIQUE = 'runtime monitoring: differential monitor, shared rule after a history of uses vs private fresh copy'
MINIMUMS = {'comparisons': 3000, 'matches': 2000, 'uses': 3000, 'kinds_of_use': 15, 'listings': 1000,
            'unfinished': 200, 'early_uses': 300}


def other_tokenizer(rng):
    from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, EMAIL_RULE
    kind = rng.randrange(5)
    if kind == 0:
        return Tokenizer()
    if kind == 4:
        return MorphTokenizer(morph=first_analysis_morph())
    if kind == 1:
        return MorphTokenizer(morph=morph_tokenizer().morph).remove_types('INT')
    if kind == 2:
        return MorphTokenizer(morph=morph_tokenizer().morph).add_rules(
            TokenRule('PAIR', r'[а-я]-[а-я]|a b'), EMAIL_RULE)
    return MorphTokenizer(morph=morph_tokenizer().morph).remove_types('PUNCT', 'LATIN')


def tagger(names=('X', 'Y')):
    from yargy.tagger import Tagger

    class Odd(Tagger):
        tags = list(names)

        def __call__(self, tokens):
            for index, token in enumerate(tokens):
                yield token.tagged(names[index % len(names)])
    return Odd()


def first_analysis_morph():
    """Another analyzer: knows one analysis of every word"""
    from yargy.morph import MorphAnalyzer

    class First(MorphAnalyzer):
        def __call__(self, word):
            return super(First, self).__call__(word)[:1]
    global _first
    if _first is None:
        _first = First(morph_tokenizer().morph.raw)
    return _first


_first = None


def context_pred(rng, depth):
    """Predicates whose meaning depends on the tokenizer or tagger, in combinations"""
    if depth:
        kind = rng.choice(['and', 'or', 'not'])
        return Pred(kind, subs=[context_pred(rng, depth - 1) for _ in range(1 if kind == 'not' else 2)])
    kind = rng.choice(['normalized', 'dictionary', 'gram', 'type', 'type', 'custom', 'eq', 'tag'])
    if kind == 'tag':
        return Pred('tag', rng.choice('XXYZ'))
    if kind == 'type':
        return Pred('type', rng.choice(['INT', 'PAIR', 'PUNCT', 'LATIN', 'RU', 'EMAIL']))
    return words.make_pred(rng, kind)


USES = ('parse', 'other', 'normalized', 'bnf', 'dot', 'bnf_dot', 'rule', 'or', 'optional', 'repeatable',
        'bounds', 'named', 'interpretation', 'attribute', 'relation', 'forward', 'recursion', 'main',
        'failed', 'twice', 'repr')


class History(object):
    def __init__(self, case, rules, items):
        import yargy
        from yargy.interpretation import fact
        from yargy.relations import gnc_relation
        self.case = case
        self.rng = case.rng
        self.rules = rules
        self.items = items
        self.yargy = yargy
        self.fact = fact('Other', ['z'])
        self.relation = gnc_relation()
        self.number = 0

    def parse(self, rule, tokenizer=None, tag=None):
        made = self.yargy.Parser(rule, tokenizer or morph_tokenizer(), tag)
        text = self.rng.choice(self.items)
        if len(text) < 60:
            for match in made.findall(text):
                try:
                    match.fact
                except (TypeError, ValueError):
                    pass
            made.match(text)
        return made

    def use(self, kind, rule):
        from yargy import Parser, rule as seq, or_, forward
        from yargy.relations import main
        rng = self.rng
        self.number += 1
        if kind == 'parse':
            self.parse(rule)
        elif kind == 'other':
            # may be rejected: token type or grammemes unknown to tokenizer
            try:
                self.parse(rule, other_tokenizer(rng), tagger() if rng.random() < 0.5 else None)
            except (ValueError, AttributeError):
                self.case.count('other_rejected')
        elif kind == 'normalized':
            list(rule.normalized.walk())
            rule.normalized.normalized
        elif kind == 'bnf':
            # of the scheme, pipelines are not split to words yet
            if not any(hasattr(_, 'pipeline') for _ in rule.walk()):
                list(rule.normalized.as_bnf.source)
        elif kind == 'dot':
            list(rule.as_dot.source)
        elif kind == 'bnf_dot':
            if not any(hasattr(_, 'pipeline') for _ in rule.walk()):
                list(rule.normalized.as_bnf.start.as_dot.source)
                list(rule.normalized.as_dot.source)
        elif kind == 'rule':
            self.parse(seq(rule, 'x'))
        elif kind == 'or':
            self.parse(or_(seq('x'), rule, rule))
        elif kind == 'optional':
            self.parse(rule.optional(reverse=rng.random() < 0.5))
        elif kind == 'repeatable':
            self.parse(rule.repeatable(max=2))
        elif kind == 'bounds':
            self.parse(seq(rule.repeatable(min=2, max=3)))
        elif kind == 'named':
            self.parse(rule.named('Named%d' % self.number))
        elif kind == 'interpretation':
            self.parse(rule.interpretation(self.fact))
        elif kind == 'attribute':
            self.parse(seq(rule.interpretation(self.fact.z)).interpretation(self.fact))
        elif kind == 'relation':
            self.parse(seq(rule.match(self.relation), 'x'))
        elif kind == 'forward':
            self.parse(forward().define(rule))if not isinstance(rule, type(forward())) else self.parse(rule)
        elif kind == 'recursion':
            recursion = forward()
            recursion.define(or_(seq('x', recursion), seq(rule)))
            self.parse(recursion)
        elif kind == 'main':
            self.parse(seq('x', main(rule)).match(self.relation))
        elif kind == 'failed':
            # building fails, rule has to stay usable
            from yargy.predicates import type as type_
            for bad in (seq(rule, forward()), seq(rule, type_('NOPE'))):
                try:
                    Parser(bad, morph_tokenizer())
                except (TypeError, ValueError):
                    pass
                else:
                    self.case.fail('bad rule was accepted')
        elif kind == 'twice':
            a, b = Parser(rule, morph_tokenizer()), Parser(rule, morph_tokenizer())
            for text in self.items[:2]:
                self.case.equal(outcome(a, text), outcome(b, text), 'two parsers of one rule')
        elif kind == 'repr':
            str(rule.normalized)


def loads(root, items, limit=600):
    for text in items:
        tokens = ref.tokenize(text)
        Derivations(root, tokens, limit=300).load(limit)


def listing_of(rule):
    if any(hasattr(_, 'pipeline') for _ in rule.walk()):
        return list(rule.as_dot.source)
    return list(rule.normalized.as_bnf.source), list(rule.as_dot.source)


def judge(case, root, items, steps):
    from yargy import Parser
    if not defined(root) or not items:
        raise Skip
    loads(root, items)
    rng = case.rng
    case.note(*describe(root))
    case.note('texts %r' % items)
    fresh = Parser(build(root, copies=True), morph_tokenizer())
    expected = [outcome(fresh, _) for _ in items]
    builder = Builder()
    rule = builder(root)
    parts = list(builder.memo.values()) + list(builder.forwards.values())
    reference = listing_of(Builder()(root))
    printed = [repr(_) for _ in parts]
    early = Parser(rule, morph_tokenizer())
    history = History(case, parts, items)

    def compare(made, what):
        for text, wanted in zip(items, expected):
            case.equal(outcome(made, text), wanted, '%s, text %r' % (what, text))
            case.count('comparisons')
            matches = len(wanted[1][1])
            case.count('matches', matches)
            if matches:
                case.seen(describe(root), text, len(case.notes))

    compare(early, 'parser of the shared rule')
    for step in range(steps):
        kind = rng.choice(USES)
        target = rule if rng.random() < 0.5 else rng.choice(parts)
        case.note('%s of %s' % (kind, 'root' if target is rule else 'part %d' % parts.index(target)))
        history.use(kind, target)
        case.count('uses')
        case.value('kinds_of_use', kind)
        if rng.random() < 0.4:
            compare(Parser(rule, morph_tokenizer()), 'parser built after %d uses' % (step + 1))
    compare(Parser(rule, morph_tokenizer()), 'parser built after all uses')
    compare(early, 'parser built before all uses')
    case.equal(listing_of(rule), reference, 'BNF and graph listings')
    case.equal([repr(_) for _ in parts], printed, 'printed parts of the rule')
    case.count('listings')
    if rng.random() < 0.2:
        case.sample({'rule': describe(root), 'texts': items, 'history': case.notes[-steps:]})


def plain(case):
    rng = case.rng
    letters, literals = alphabet(rng)
    grammars = Grammars(rng, literals, depth=rng.choice([2, 3]), share=0.35, forward=rng.choice([0, 0.2]))
    root = grammars.root()
    items = [text_of(_) for _ in literal_texts(rng, root, letters, 3, 5)]
    judge(case, root, items, rng.randint(2, 6))


def annotated(case):
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0.2]))
    root = rules.root(rng.choice([1, 2]))
    judge(case, root, texts(rng, root, 3), rng.randint(2, 6))


def dictionaries(case):
    """Pipelines: a value may come from several lines, the order of lines counts"""
    rng = case.rng
    made = []
    for _ in range(rng.randint(1, 2)):
        if rng.random() < 0.4:
            group = rng.choice(FAMILIES)
            group = group + [_.capitalize() for _ in group[:3]] + [_.upper() for _ in group[:3]]
            made.append(Pipe(rng.choice(['morph', 'morph', 'caseless']), rng.sample(group, rng.randint(3, len(group)))))
        else:
            made.append(pipes.pipe(rng))
    F = FactSpec('F', [('a', None, False), ('r', None, True)])
    parts = []
    for item in made:
        if rng.random() < 0.6:
            parts.append(Interp(item, ISpec('attr', F, 'a', [('normalized',)])))
        else:
            parts.append(Interp(Interp(item, ISpec('norm', chain=[('normalized',)])), ISpec('attr', F, 'r')))
    tail = [Opt(Term(Pred('custom', longer, types=rng.choice([None, ['INT', 'RU'], ['PUNCT', 'RU', 'LATIN']])))),
            Opt(Rep(Or(parts), max=2))]
    root = Interp(Seq([Or(parts)] + rng.sample(tail, rng.randint(0, 2))), ISpec('fact', F))
    items = [pipes.text(rng, made, 2) for _ in range(3)]
    items += [rng.choice(made[0].lines) for _ in range(2) if made[0].lines]
    judge(case, root, [_ for _ in items if _], rng.randint(2, 5))


FAMILIES = [['стали', 'сталь', 'стать', 'стал', 'стала', 'стало', 'сталью'], ['печь', 'печи', 'пёк', 'пекли', 'печью', 'пекла'],
            ['мыло', 'мыть', 'мыла', 'мыл', 'мыли', 'мылом'], ['дом', 'дома', 'домом', 'дому', 'домов', 'доме']]


def longer(value):
    return len(value) > 1


def tokenizers(case):
    """One rule with predicates and pipelines that depend on tokenizer, many
    tokenizers in turn: as if built fresh for each"""
    from yargy import Parser
    rng = case.rng
    pieces = [Term(context_pred(rng, rng.choice([0, 0, 1, 2]))) for _ in range(rng.randint(1, 3))]
    pieces.append(Pipe(rng.choice(['', 'caseless', 'morph']),
                       ['а-б', 'красный дом', 'a b', 'x@y.ru', '5 книг', 'дом', 'стали']))
    rng.shuffle(pieces)
    shared = rng.choice(pieces)
    root = Or([Seq([_]) for _ in pieces] + [Seq([shared, Opt(shared)])])
    case.note(*describe(root))
    rule = build(root)
    items = [words.sentence(rng, 5, pool=words.ANY + ['а-б', 'a b', 'x@y.ru', 'красные дома', '5 книг'] * 20)
             for _ in range(3)]
    for step in range(4):
        seed = rng.random()

        def make(rule):
            import random
            inner = random.Random(seed)
            tokenizer = other_tokenizer(inner)
            tag = inner.choice([lambda: None, tagger, lambda: tagger(['X']), lambda: tagger(['Y', 'X', 'Z'])])()
            try:
                return Parser(rule, tokenizer, tag)
            except (ValueError, AttributeError) as error:
                # plain tokenizer has no morph
                return type(error).__name__

        actual, expected = make(rule), make(build(root, copies=True))
        case.count('uses')
        case.value('kinds_of_use', 'tokenizer')
        if isinstance(expected, str) or isinstance(actual, str):
            case.equal(actual, expected, 'parser is built')
            case.count('rejected')
            continue
        for text in items:
            wanted = outcome(expected, text, facts=False)
            case.equal(outcome(actual, text, facts=False), wanted, 'shared rule with tokenizer %d on %r' % (step, text))
            case.count('comparisons')
            case.count('matches', len(wanted[1][1]))
            if wanted[1][1]:
                case.seen(describe(root), text, step)


class Later(Builder):
    """Forwards are defined on request"""

    def __call__(self, node):
        self.waiting = []
        return super(Later, self).__call__(node)

    def rule(self, node):
        import yargy
        if isinstance(node, Fwd):
            if id(node) not in self.forwards:
                self.forwards[id(node)] = yargy.forward()
                self.waiting.append(node)
            return self.forwards[id(node)]
        return super(Later, self).rule(node)

    def define(self):
        """Definition of one forward, may bring other forwards"""
        node = self.waiting.pop(0)
        if node.target is not None:
            self.forwards[id(node)].define(self.rule(node.target))
        return self.waiting


EARLY = ['parse', 'normalized', 'bnf', 'dot', 'repr', 'named', 'optional', 'walk']


def early_use(case, kind, rule):
    """Use of a rule some forwards of which are not defined yet, may be rejected"""
    from yargy import Parser
    try:
        if kind == 'parse':
            Parser(rule, plain_tokenizer())
        elif kind == 'normalized':
            repr(rule.normalized)
        elif kind == 'bnf':
            list(rule.normalized.as_bnf.source)
        elif kind == 'dot':
            list(rule.as_dot.source)
        elif kind == 'repr':
            repr(rule)
        elif kind == 'named':
            rule.named('N').normalized
        elif kind == 'optional':
            rule.optional().normalized
        else:
            list(rule.walk())
    except (TypeError, ValueError, AttributeError):
        case.count('early_rejected')


def unfinished(case):
    """Rule is used while some of its forwards are not defined"""
    from yargy import Parser
    rng = case.rng
    letters, literals = alphabet(rng)
    grammars = Grammars(rng, literals, depth=rng.choice([2, 3]), share=0.2, forward=0.35, named=0.3)
    root = grammars.root()
    if not any(isinstance(_, Fwd) for _ in walk(root)):
        root = Seq([Fwd(root), Fwd(Term(literals[0]))])
    if not defined(root):
        raise Skip
    items = [text_of(_) for _ in literal_texts(rng, root, letters, 4, 5)]
    for text in items:
        Derivations(root, ref.tokenize(text, morph=False), limit=300).load(600)
    case.note(*describe(root))
    later = Later()
    rule = later(root)
    while True:
        parts = [rule] + list(later.memo.values()) + list(later.forwards.values())
        for _ in range(rng.randint(0, 2)):
            kind = rng.choice(EARLY)
            case.note('%s before %d definitions' % (kind, len(later.waiting)))
            early_use(case, kind, rule if rng.random() < 0.6 else rng.choice(parts))
            case.count('early_uses')
        if not later.waiting:
            break
        later.define()
    fresh = Builder()(root)
    methods = ('match', 'findall', 'extract')
    expected = Parser(fresh, plain_tokenizer())
    actual = Parser(rule, plain_tokenizer())
    for text in items:
        wanted = outcome(expected, text, methods, facts=False)
        case.equal(outcome(actual, text, methods, facts=False), wanted, 'rule used before it was finished, text %r' % text)
        case.count('comparisons')
        if wanted[1][1]:
            case.seen(describe(root), text)
    case.equal(size_of(rule), size_of(fresh), 'lines of the BNF listing, nodes and edges of the picture')
    case.count('unfinished')


def size_of(rule):
    source = list(rule.as_dot.source)
    return (len(list(rule.normalized.as_bnf.source)), len(source), len([_ for _ in source if '->' in _]))


WORKLOADS = [
    W('plain', plain, 1200, 12000),
    W('annotated', annotated, 900, 9000),
    W('tokenizers', tokenizers, 600, 6000),
    W('dictionaries', dictionaries, 300, 4000),
    W('unfinished', unfinished, 400, 5000),
]
