"""C23: misuse is reported when a rule or parser is built."""
from vlib.run import W, Skip
from vlib.common import morph_tokenizer
from vlib import words

RULE = (
    'A case wraps one unknown grammeme, token type, tag or undefined forward at random depth into '
    'an otherwise valid rule (combinations, quantifiers, names, annotations, agreement, main, '
    'recursion) and builds a parser with a tokenizer of random types; or calls one constructor '
    'with one wrong argument out of a table. The exception type is compared with the documented '
    'one, the same construction with a known name in its place must be accepted, and after a '
    'failure the rest of the rule has to work. Non trivial: every case.'
)
TECHNIQUE = 'runtime monitoring: exception oracle over generated misuse and matching valid neighbours'
QUICK = 3
MINIMUMS = {'rejected': 1000, 'accepted': 500, 'wrong_arguments': 40, 'kinds': 6, 'wrappers': 14, 'dictionaries': 500}

GRAMS = ['NOUN', 'nomn', 'Name', 'masc', 'Surn', 'Pltm', 'GNdr', 'Ms-f', 'VERB', '1per', 'V-oy']
BAD_GRAMS = ['noun', 'NOUNS', 'Noun', '', 'существительное', 'XXXX', 'nomn ', 'RU']
TYPES = ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']
BAD_TYPES = ['ru', 'INTEGER', '', 'NOUN', 'Int', 'EMAIL', 'RULE']


def wrap(case, pred, depth):
    """Rule that uses the predicate (or rule) somewhere inside"""
    from yargy import rule, or_, and_, not_, forward
    from yargy.predicates import eq, true
    from yargy.predicates.constructors import Predicate
    from yargy.relations import main, gnc_relation, case_relation
    from yargy.interpretation import fact, normalized
    from yargy.pipelines import morph_pipeline
    rng = case.rng
    F = fact('F', ['a', 'b'])
    item = pred
    trace = []
    while isinstance(item, Predicate) and rng.random() < 0.6:
        kind = rng.choice(['and', 'or', 'not', 'and2', 'or2', 'many'])
        trace.append(kind)
        if kind == 'and':
            item = and_(eq('x'), item)
        elif kind == 'and2':
            item = and_(item, true())
        elif kind == 'or':
            item = or_(item, eq('x'))
        elif kind == 'or2':
            item = or_(eq('x'), eq('y'), item)
        elif kind == 'many':
            items = [eq('x')] * rng.choice([9, 9, 17, 17, 40, 120])
            items[rng.choice([0, -1, rng.randrange(len(items))])] = item
            item = rng.choice([and_, or_])(*items)
        else:
            item = not_(item)
    if isinstance(item, Predicate):
        kind = rng.choice(['rule', 'rule', 'optional', 'repeatable', 'interpretation', 'match', 'bounds', 'main'])
        trace.append('pred_' + kind)
        if kind == 'optional':
            item = item.optional()
        elif kind == 'repeatable':
            item = item.repeatable()
        elif kind == 'bounds':
            item = item.repeatable(min=2, max=3)
        elif kind == 'interpretation':
            item = item.interpretation(F.a)
        elif kind == 'match':
            item = item.match(gnc_relation())
        elif kind == 'main':
            item = rule('x', main(item))
        else:
            item = rule(item)
    for _ in range(depth):
        kind = rng.choice(['seq', 'or', 'optional', 'repeatable', 'min', 'max', 'minmax', 'named', 'fact',
                           'attribute', 'normalizer', 'match', 'main', 'forward', 'recursion', 'pipeline', 'shared', 'many'])
        trace.append(kind)
        if kind == 'seq':
            item = rule('x', item, 'y')
        elif kind == 'or':
            item = or_(rule('x'), item, rule('y'))
        elif kind == 'optional':
            item = item.optional(reverse=rng.random() < 0.5)
        elif kind == 'repeatable':
            item = item.repeatable(reverse=rng.random() < 0.5)
        elif kind == 'min':
            item = rule(item).repeatable(min=rng.randint(1, 3))
        elif kind == 'max':
            item = rule(item).repeatable(max=rng.randint(1, 3))
        elif kind == 'minmax':
            item = rule(item).repeatable(min=1, max=rng.randint(1, 3))
        elif kind == 'named':
            item = item.named('N')
        elif kind == 'fact':
            item = item.interpretation(F)
        elif kind == 'attribute':
            item = item.interpretation(F.a)
        elif kind == 'normalizer':
            item = item.interpretation(normalized())
        elif kind == 'match':
            item = item.match(case_relation())
        elif kind == 'main':
            item = rule('x', main(item))
        elif kind == 'forward':
            item = forward().define('x', item)
        elif kind == 'recursion':
            recursion = forward()
            recursion.define(or_(rule('x', recursion), rule(item)))
            item = recursion
        elif kind == 'pipeline':
            item = or_(morph_pipeline(['дом', 'красный дом']), rule(item))
        elif kind == 'many':
            # far away
            size = rng.choice([9, 9, 17, 17, 17, 40, 40, 120 if len(trace) < 3 else 17])
            items = ['x'] * size
            items[rng.choice([0, -1, -1, rng.randrange(size)])] = item
            item = rule(*items) if rng.random() < 0.5 else or_(*[rule(_) for _ in items])
        elif kind == 'shared':
            item = rule(item, or_(item, rule('x')))
    for kind in trace:
        case.value('wrappers', kind)
    case.note('wrapped by %s' % ' '.join(trace))
    return item, trace


class Dictionary(object):
    """The usual analyses, other grammemes are known"""

    def __init__(self, known):
        self.raw = morph_tokenizer().morph.raw
        self.TagClass = self
        self.known = known

    def parse(self, word):
        return self.raw.parse(word)

    def grammeme_is_known(self, gram):
        return gram in self.known


def tokenizer(case):
    """-> tokenizer, known types, known grammemes"""
    from yargy.morph import MorphAnalyzer
    from yargy.tokenizer import MorphTokenizer, TokenRule, EMAIL_RULE
    rng = case.rng
    grams = set(GRAMS)
    morph = morph_tokenizer().morph
    if rng.random() < 0.25:
        grams = set(rng.sample(GRAMS + BAD_GRAMS, rng.randint(3, 12)))
        morph = MorphAnalyzer(Dictionary(grams))
        case.count('dictionaries')
    made = MorphTokenizer(morph=morph)
    known = set(TYPES)
    if rng.random() < 0.4:
        removed = rng.sample([_ for _ in TYPES if _ != 'OTHER'], rng.randint(1, 2))
        made.remove_types(*removed)
        known -= set(removed)
    if rng.random() < 0.3:
        made.add_rules(EMAIL_RULE)
        known.add('EMAIL')
    if rng.random() < 0.2:
        made.add_rules(TokenRule('RULE', 'xyz'))
        known.add('RULE')
    return made, known, grams


def tagger(tags):
    from yargy.tagger import Tagger

    class Known(Tagger):
        def __call__(self, tokens):
            for token in tokens:
                yield token.tagged(tags[0]) if tags else token
    Known.tags = tags
    return Known()


def nested(case):
    from yargy import forward, rule
    from yargy.predicates import gram, type, tag, custom
    rng = case.rng
    kind = rng.choice(['gram', 'type', 'tag', 'custom', 'customs', 'forward'])
    case.value('kinds', kind)
    error = ValueError
    always = None
    if kind == 'gram':
        value = rng.choice(GRAMS + BAD_GRAMS)
        item = gram(value)
    elif kind == 'type':
        value = rng.choice(TYPES + BAD_TYPES)
        item = type(value)
    elif kind == 'tag':
        value = rng.choice(['I', 'B', 'O', 'X', ''])
        item = tag(value)
    elif kind == 'custom':
        value = rng.choice(TYPES + BAD_TYPES[1:2] + BAD_TYPES[3:])
        item = custom(str.isupper, types=value)
    elif kind == 'customs':
        value = rng.sample(TYPES + ['EMAIL', 'NOPE'], rng.randint(1, 3))
        item = custom(str.isupper, types=value)
    else:
        value = rng.choice([True, True, False])
        item, always, error = rule(forward()), True, TypeError
        if not value:
            item, always = rule(forward().define('z')), False
    root, trace = wrap(case, item, rng.randint(0, 4) if rng.random() < 0.97 else rng.randint(8, 16))
    case.seen(kind, repr(value), trace)
    # the same rule, parsers that know different things
    for _ in range(rng.choice([1, 1, 2, 3])):
        made, known, grams = tokenizer(case)
        tags = rng.sample(['I', 'B', 'O'], rng.randint(0, 2))
        tag_by = tagger(tags) if tags or rng.random() < 0.5 else None
        bad = {
            'gram': lambda: value not in grams,
            'type': lambda: value not in known,
            'tag': lambda: value not in tags,
            'custom': lambda: value not in known,
            'customs': lambda: not set(value) <= known,
            'forward': lambda: always
        }[kind]()
        case.note('%s(%r), types %s, tags %s, grammemes %s' % (kind, value, sorted(known), tags, sorted(grams)))
        case.ok()
        attempt(case, root, trace, made, tag_by, bad, error, '%s(%r)' % (kind, value))
    case.sample({'kind': kind, 'value': repr(value), 'wrapped': trace, 'rejected': bad})


def attempt(case, root, trace, made, tag_by, bad, error, what):
    from yargy import Parser
    try:
        parser = Parser(root, made, tag_by)
    except Exception as actual:
        if not bad:
            case.fail('valid rule is rejected with %s(%s)' % (actual.__class__.__name__, actual))
        if not isinstance(actual, error):
            case.fail('got %s(%s), expected %s' % (actual.__class__.__name__, actual, error.__name__))
        case.count('rejected')
        return
    if bad:
        case.fail('%s is accepted' % what)
    case.count('accepted')
    heavy = sum(_ in ('repeatable', 'min', 'max', 'minmax', 'recursion', 'shared', 'pred_repeatable', 'pred_bounds',
                       'optional', 'pred_optional')
                for _ in trace) + (len(trace) > 8)
    if heavy < 3:  # nested repetitions of optional parts have too many derivations
        list(parser.findall('x z дом y'))


def table():
    """(name, function, expected exceptions or None when valid)"""
    from yargy import Parser, rule, or_, and_, not_, forward, empty
    from yargy.predicates import eq, gram, type, in_, custom, true
    from yargy.relations import main, gnc_relation, case_relation
    from yargy.interpretation import fact, attribute, normalized, const
    from yargy.pipelines import pipeline, morph_pipeline, caseless_pipeline
    from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule, INT
    from yargy.tagger import PassTagger, Tagger
    F = fact('F', ['a', attribute('b', 1), attribute('r').repeatable()])
    R = lambda: rule('a')
    V, T, K = ValueError, TypeError, KeyError
    rows = []

    def row(name, function, error):
        rows.append((name, function, error))

    for base, make in (('rule', R), ('pred', lambda: eq('a')), ('or', lambda: or_(R(), R())),
                       ('pipeline', lambda: pipeline(['a'])), ('named', lambda: R().named('N')),
                       ('forward', lambda: forward().define('a')), ('empty', lambda: empty()),
                       ('repeatable', lambda: R().repeatable())):
        for arguments, error in (
                (dict(min=-1), V), (dict(max=-1), V), (dict(min=3, max=2), V), (dict(min=2, max=1), V),
                (dict(min=-2, max=2), V), (dict(min=1, max=-1), V), (dict(min=-3, max=-2), V),
                (dict(min=1, max=1), None), (dict(min=2, max=2), None), (dict(min=1), None), (dict(max=1), None),
                (dict(reverse=1), T), (dict(reverse='yes'), T), (dict(reverse=None), T),
                (dict(min=2, reverse=1), T), (dict(max=2, reverse=1), T), (dict(min=1, max=2, reverse=1), T),
                (dict(reverse=True), None)):
            row('%s.repeatable(%r)' % (base, arguments), lambda make=make, arguments=arguments: make().repeatable(**arguments), error)
        if base != 'pred':
            row('%s.optional(reverse=1)' % base, lambda make=make: make().optional(reverse=1), T)
            row('%s.optional(reverse=None)' % base, lambda make=make: make().optional(reverse=None), T)
        for value, error in ((1, T), (None, T), (b'x', T), ('имя', None), ('', None)):
            row('%s.named(%r)' % (base, value), lambda make=make, value=value: make().named(value), error)
        for name, value, error in (
                ('str', 'gnc', T), ('None', None, T), ('class', gnc_relation, T), ('pred', eq('x'), T),
                ('relation', gnc_relation(), None), ('and', and_(gnc_relation(), case_relation()), None)):
            row('%s.match(%s)' % (base, name), lambda make=make, value=value: make().match(value), error)
        for name, value, error in (
                ('str', 'F', T), ('None', None, T), ('instance', F(), T), ('type', dict, T), ('pred', eq('x'), T),
                ('relation', gnc_relation(), T), ('attr name', F.__name__, T), ('normalizer class', normalized, T),
                ('attr', F.a, None), ('repeatable attr', F.r, None), ('attr chain', F.a.normalized(), None),
                ('normalizer', normalized(), None), ('const', const(None), None),
                ('fact', F, T if base == 'pred' else None)):
            row('%s.interpretation(%s)' % (base, name), lambda make=make, value=value: make().interpretation(value), error)
        row('or_(rule, %s)' % base, lambda make=make: or_(R(), make()), T if base == 'pred' else None)
        row('or_(pred, %s)' % base, lambda make=make: or_(eq('x'), make()), None if base == 'pred' else T)
        row('or_(%s, pred)' % base, lambda make=make: or_(make(), eq('x')), None if base == 'pred' else T)
        row('or_(relation, %s)' % base, lambda make=make: or_(gnc_relation(), make()), T)
        row('and_(pred, %s)' % base, lambda make=make: and_(eq('x'), make()), None if base == 'pred' else T)
        row('and_(%s, %s)' % (base, base), lambda make=make: and_(make(), make()), None if base == 'pred' else T)
        row('and_(relation, %s)' % base, lambda make=make: and_(gnc_relation(), make()), T)
        row('not_(%s)' % base, lambda make=make: not_(make()), None if base == 'pred' else T)
        row('two main %s' % base, lambda make=make: rule(main(make()), main(make())), V)
        row('two main apart %s' % base, lambda make=make: rule(main(make()), 'x', main(eq('z'))), V)
        row('one main %s' % base, lambda make=make: rule('x', main(make())), None)
        row('main of main %s' % base, lambda make=make: main(main(make())), T)
        row('define(%s)' % base, lambda make=make: forward().define(make()), V if base == 'forward' else None)
        row('define(x, %s)' % base, lambda make=make: forward().define('x', make()), None)
        row('define two main %s' % base, lambda make=make: forward().define(main(make()), main(make())), V)
        if base != 'pred':
            row('Parser(%s, tokenizer=object)' % base, lambda make=make: Parser(make(), object()), T)
            row('Parser(%s, tokenizer=class)' % base, lambda make=make: Parser(make(), Tokenizer), T)
            row('Parser(%s, tokenizer=function)' % base, lambda make=make: Parser(make(), str.split), T)
            row('Parser(%s, tagger=object)' % base, lambda make=make: Parser(make(), morph_tokenizer(), object()), T)
            row('Parser(%s, tagger=class)' % base, lambda make=make: Parser(make(), morph_tokenizer(), PassTagger), T)
            row('Parser(%s, tagger=tokenizer)' % base, lambda make=make: Parser(make(), morph_tokenizer(), Tokenizer()), T)
            row('Parser(%s)' % base, lambda make=make: Parser(make(), morph_tokenizer(), PassTagger()), None)
            row('Parser(%s, undefined)' % base, lambda make=make: Parser(rule(make(), forward()), morph_tokenizer()), T)
            row('Parser(or_(%s, undefined))' % base, lambda make=make: Parser(or_(make(), forward().optional()), morph_tokenizer()), T)
    row('forward(forward) undefined', lambda: forward().define(forward()), V)
    many = [R() for _ in range(70)]
    preds = [eq('a') for _ in range(70)]
    links = [gnc_relation() for _ in range(40)]
    row('or_(70 rules, str)', lambda: or_(*(many + ['a'])), T)
    row('or_(70 rules, pred)', lambda: or_(*(many + [eq('a')])), T)
    row('or_(70 preds, rule)', lambda: or_(*(preds + [R()])), T)
    row('or_(70 preds, str)', lambda: or_(*(preds + ['a'])), T)
    row('and_(70 preds, rule)', lambda: and_(*(preds + [R()])), T)
    row('and_(70 preds, relation)', lambda: and_(*(preds + [gnc_relation()])), T)
    row('and_(40 relations, pred)', lambda: and_(*(links + [eq('a')])), T)
    row('or_(40 relations, str)', lambda: or_(*(links + ['a'])), T)
    row('or_(70 rules)', lambda: or_(*many), None)
    row('and_(70 preds)', lambda: and_(*preds), None)
    row('rule(main, 70, main)', lambda: rule(*([main(eq('a'))] + ['x'] * 70 + [main(R())])), V)
    row('rule(70, main, main)', lambda: rule(*(['x'] * 70 + [main(eq('a')), main(R())])), V)
    row('define(main, 70, main)', lambda: forward().define(*([main(eq('a'))] + ['x'] * 70 + [main(R())])), V)
    row('rule(70, main)', lambda: rule(*(['x'] * 70 + [main(R())])), None)
    row('rule(main, 70)', lambda: rule(*([main(R())] + ['x'] * 70)), None)
    row('3 main', lambda: rule(main(R()), main(R()), main(R())), V)
    row('repeatable(min=100, max=99)', lambda: R().repeatable(min=100, max=99), V)
    row('repeatable(min=99, max=100)', lambda: R().repeatable(min=99, max=100), None)
    for low, high in [(0, None), (None, 0), (0, 0), (0, 3), (2, 0), (-1, 0), (0, -1)]:
        row('repeatable(min=%s, max=%s)' % (low, high), lambda low=low, high=high: R().repeatable(min=low, max=high), V)
    row('repeatable(min=None, max=None)', lambda: R().repeatable(min=None, max=None), None)
    row('repeatable(min=10, max=9)', lambda: R().repeatable(min=10, max=9), V)
    row('add_rules(40 and str)', lambda: Tokenizer().add_rules(*([TokenRule('A', 'a')] * 40 + ['x'])), T)
    row('Tokenizer(40 and tuple)', lambda: Tokenizer([TokenRule('A', 'a')] * 40 + [('B', 'b')]), T)
    row('remove_types(4 known, unknown)', lambda: Tokenizer().remove_types('RU', 'LATIN', 'INT', 'PUNCT', 'A'), V)
    for function in (pipeline, caseless_pipeline, morph_pipeline):
        row('%s(300 lines, None)' % function.__name__, lambda function=function: function(['a'] * 300 + [None]), T)
        row('%s(None, 300 lines)' % function.__name__, lambda function=function: function([None] + ['a'] * 300), T)
    G = fact('G', ['a%d' % _ for _ in range(100)])
    row('G(a99)', lambda: G(a99=1), None)
    row('G(a0, a99, a100)', lambda: G(a0=1, a99=1, a100=1), K)
    row('G(A1)', lambda: G(A1=1), K)
    row('or_(str)', lambda: or_(R(), 'a'), T)
    row('or_(strs)', lambda: or_('a', 'b'), T)
    row('and_(str)', lambda: and_(eq('a'), 'b'), T)
    row('not_(str)', lambda: not_('a'), T)
    row('not_(None)', lambda: not_(None), T)
    row('not_(relation)', lambda: not_(gnc_relation()), None)
    row('and_(relations)', lambda: and_(gnc_relation(), not_(case_relation())), None)
    row('or_(relations)', lambda: or_(gnc_relation(), case_relation()), None)
    row('main(str)', lambda: main('a'), T)
    row('main(None)', lambda: main(None), T)
    row('main(relation)', lambda: main(gnc_relation()), T)
    for default in (0, '', 1, 'x', False, [], ()):
        row('attribute(default=%r).repeatable()' % (default,), lambda default=default: attribute('a', default).repeatable(), V)
    row('attribute.repeatable()', lambda: attribute('a').repeatable(), None)
    row('attribute(None).repeatable()', lambda: attribute('a', None).repeatable(), None)
    row('F(unknown)', lambda: F(x=1), K)
    row('F(unknown too)', lambda: F(a=1, x=None), K)
    row('F(name)', lambda: F(name=1), K)
    row('F(A)', lambda: F(A=1), K)
    row('F()', lambda: F(), None)
    row('F(a, b, r)', lambda: F(a=1, b=2, r=[3]), None)
    for function in (pipeline, caseless_pipeline, morph_pipeline):
        for lines, error in (([1], T), (['a', None], T), ([b'a'], T), ([['a']], T), ([R()], T), (['a', 'b'], None), (('a',), None)):
            row('%s(%r)' % (function.__name__, lines), lambda function=function, lines=lines: function(lines), error)
    for cls in (Tokenizer, lambda rules: MorphTokenizer(rules, morph_tokenizer().morph)):
        for rules, error in ((['x'], T), ([('A', 'a')], T), ([TokenRule('A', 'a'), None], T), ([TokenRule('A', 'a')], None)):
            row('Tokenizer(%r)' % (rules,), lambda cls=cls, rules=rules: cls(rules), error)
    row('add_rules(str)', lambda: Tokenizer().add_rules('x'), T)
    row('add_rules(good, bad)', lambda: Tokenizer().add_rules(TokenRule('A', 'a'), ('B', 'b')), T)
    row('add_rules()', lambda: Tokenizer().add_rules(TokenRule('A', 'a')), None)
    row('remove_types(unknown)', lambda: Tokenizer().remove_types('A'), V)
    row('remove_types(known, unknown)', lambda: Tokenizer().remove_types('INT', 'A'), V)
    row('remove_types(twice)', lambda: Tokenizer().remove_types('INT').remove_types('INT'), V)
    row('remove_types(known)', lambda: Tokenizer().remove_types('INT', 'RU'), None)
    row('check_type', lambda: Tokenizer().check_type('int'), V)
    row('check_type known', lambda: Tokenizer().check_type('INT'), None)
    return rows


_table = []


def arguments(case):
    if not _table:
        _table.extend(table())
    if case.i >= len(_table):
        raise Skip
    name, function, error = _table[case.i]
    case.note(name)
    case.ok()
    case.seen(name)
    try:
        function()
    except Exception as actual:
        if error is None:
            case.fail('%s: valid call raises %s(%s)' % (name, actual.__class__.__name__, actual))
        if not isinstance(actual, error):
            case.fail('%s: got %s(%s), expected %s' % (name, actual.__class__.__name__, actual, error.__name__))
        case.count('wrong_arguments')
    else:
        if error is not None:
            case.fail('%s: accepted, expected %s' % (name, error.__name__))
        case.count('right_arguments')


WORKLOADS = [
    W('nested', nested, 20000, 200000),
    W('arguments', arguments, 800, 800),
]
