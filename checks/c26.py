"""C26: every text is processed: no exception, no endless parse."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Derivations, Seq, Or, Opt, Rep, Term, Pred, Named, Interp, Rel, RelSpec, Fwd, Pipe, Empty, eq, walk, build
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.facts import FactRules
from vlib.interp import FactSpec, ISpec
from vlib.common import text_of, morph_tokenizer, plain_tokenizer, LETTERS, LITERALS
from vlib import ref, words

RULE = (
    'A case is a hostile text (random code points, control characters, lone surrogates, private '
    'use, combining marks, mixed scripts, unknown and very long words, numbers of thousands of '
    'digits, blanks only) given to rules that use every predicate, pipeline, relation and '
    'normalizer; or a grammar full of empty, optional and cyclic parts with random texts. Every '
    'call and every way to read a result has to return; calls are counted, 30 million function '
    'calls for one small case are reported as endless. Non trivial: distinct texts and grammars.'
)
TECHNIQUE = 'runtime monitoring: exception and progress (function call budget) monitor on hostile inputs'
MINIMUMS = {'crowded': 12, 
    'ready_rules': 300,
    'calls': 10000, 'matches': 5000, 'facts': 1500, 'blank_texts': 300, 'cyclic_grammars': 100,
    'nullable_grammars': 150, 'surrogates': 30, 'deep': 5, 'long_tokens': 10, 'parsers': 13
}
ASSUMPTIONS = ['tokens of type INT made by a user tokenizer are integers', 'user functions do not raise']


def read(case, match, text, facts):
    """Everything a caller may look at"""
    case.count('matches')
    start, stop = match.span
    case.check(0 <= start < stop <= len(text), 'span %s of %r' % (match.span, text[:100]))
    for token in match.tokens:
        case.check(text[token.span.start:token.span.stop] == token.value, 'token %r' % token.value[:100])
    repr(match.span), list(match.tree.walk())
    if not facts:
        return
    fact = match.fact
    if hasattr(fact, 'as_json'):
        case.count('facts')
        fact.as_json, fact.spans, repr(fact)
        case.check(fact == match.fact, 'fact read again differs')


def calls(case, made, text, facts=True, whole=True):
    """All entry points, results are read"""
    case.count('calls', 4)
    match = made.match(text)
    if match is not None:
        read(case, match, text, facts)
    match = made.find(text)
    if match is not None:
        read(case, match, text, facts)
    found = list(made.findall(text))
    for match in found[:30]:
        read(case, match, text, facts)
    for index, match in enumerate(made.extract(text, all=True) if whole else []):
        if index < 10:
            read(case, match, text, facts)
        if index > 200:
            break
    for match in made.extract(text, all=False) if whole else []:
        break
    case.ok()
    return found


# -------------------------------------------------------------------- texts

def hostile(rng):
    kind = rng.choice(['points', 'planes', 'controls', 'surrogates', 'combining', 'glued', 'unknown', 'mixed',
                       'digits', 'caps', 'spaces', 'repeated', 'hyphens', 'sentence', 'shuffle', 'emoji', 'quotes'])
    size = rng.choice([1, 2, 3, 5, 9, 14])
    if kind == 'points':
        return kind, ''.join(chr(rng.randrange(0x3000)) for _ in range(size))
    if kind == 'planes':
        return kind, ''.join(chr(rng.randrange(0x110000)) for _ in range(size))
    if kind == 'controls':
        return kind, ''.join(chr(rng.choice(list(range(0, 33)) + list(range(0x7f, 0xa1)) + [0x2028, 0x2029, 0xfeff, 0x200b, 0x200e, 0xad]))
                             for _ in range(size))
    if kind == 'surrogates':
        return kind, ''.join(rng.choice([chr(rng.randrange(0xd800, 0xe000)), 'дом', 'a', '5', ' ']) for _ in range(size))
    if kind == 'combining':
        return kind, ''.join(rng.choice(['е\u0308', 'и\u0306', 'дом\u0301', '\u0301', 'Ё', 'a\u0301', '\u200d', '\ufe0f']) for _ in range(size))
    if kind == 'glued':
        return kind, ''.join(words.word(rng, words.ANY) for _ in range(size))
    if kind == 'unknown':
        return kind, ' '.join(''.join(rng.choice('абвгдеёжзийклмнопрстуфхцчшщъыьэюя') for _ in range(rng.randint(1, 14))) for _ in range(size))
    if kind == 'mixed':
        return kind, ' '.join(''.join(rng.choice('абвABCабв012-_.йё') for _ in range(rng.randint(1, 7))) for _ in range(size))
    if kind == 'digits':
        return kind, ' '.join(''.join(rng.choice('0123456789٠١٢٣４５௧²½①Ⅷ') for _ in range(rng.randint(1, 6))) for _ in range(size))
    if kind == 'caps':
        return kind, ' '.join(rng.choice(['İ', 'ß', 'ﬁ', 'ŉ', 'Σ', 'ς', 'ǅ', 'ДОМ', 'дОМ', 'İстанбул', 'ΐ']) for _ in range(size))
    if kind == 'spaces':
        return kind, ''.join(rng.choice([' ', '\t', '\u00a0', '\u2003', '\u3000', '\x1c', '\x85', 'дом', 'a', '\n']) for _ in range(size))
    if kind == 'repeated':
        return kind, ' '.join([words.word(rng, words.ANY)] * min(size, 9))
    if kind == 'hyphens':
        return kind, '-'.join(words.word(rng) for _ in range(size))
    if kind == 'emoji':
        return kind, ''.join(rng.choice(['😀', '👩\u200d👩', '🇷🇺', '✈\ufe0f', 'дом', '𝔘', '𝟝']) for _ in range(size))
    if kind == 'quotes':
        return kind, ''.join(rng.choice(['"', "'", '«', '»', '\\', '`', '„', '“', 'a', ' ', '\n']) for _ in range(size))
    if kind == 'shuffle':
        text = list(words.sentence(rng, min(size, 6)))
        rng.shuffle(text)
        return kind, ''.join(text)
    return kind, words.sentence(rng, size, tight=0.3)


_parsers = []
PLAIN = {'mixed_relations', 'single', 'recursion', 'every', 'numbers'}    # rules without interpretation


def functions():
    from yargy import Parser, rule, or_, and_, not_, forward, empty
    from yargy import predicates as bank
    from yargy.interpretation import fact, attribute, normalized, inflected, const
    from yargy.pipelines import pipeline, caseless_pipeline, morph_pipeline
    from yargy.relations import gnc_relation, case_relation, number_relation, gender_relation, main
    F = fact('F', ['a', 'b', attribute('r').repeatable(), attribute('d', 'D')])
    G = fact('G', ['f', attribute('x').repeatable()])
    any_ = bank.true()
    grammatical = [bank.gram(_) for _ in ('NOUN', 'ADJF', 'Name', 'Surn', 'VERB', 'NUMR')]
    every = [
        bank.eq('дом'), bank.caseless('дом'), bank.in_({'a', 'дом'}), bank.in_caseless({'A', 'дом'}),
        bank.length_eq(1), bank.gte(5), bank.lte(3), bank.normalized('дом'), bank.dictionary({'дом', 'стать'}),
        bank.type('OTHER'), bank.custom(lambda _: len(_) > 3), bank.is_lower(), bank.is_upper(), bank.is_title(),
        bank.is_capitalized(), bank.is_single()
    ] + grammatical
    everything = or_(*every)
    nothing = and_(not_(everything), not_(bank.type('INT')))
    relation = gnc_relation()
    other = and_(case_relation(), not_(number_relation()))
    third = or_(gender_relation(), number_relation())
    rules = {
        'values': rule(or_(
            rule(any_.interpretation(F.a.normalized()), any_.interpretation(F.b.inflected({'gent', 'plur'}))),
            rule(any_.interpretation(F.a.inflected()), any_.optional().interpretation(F.r)),
            rule(any_.interpretation(F.r), any_.interpretation(F.r), any_.interpretation(F.d.custom(repr)))
        )).interpretation(F),
        'predicates': rule(everything.interpretation(F.a), or_(everything, nothing).interpretation(F.b.normalized().custom(len))).interpretation(F),
        'nothing': rule(nothing.interpretation(F.a.const(None)), nothing.optional(), any_.optional()).interpretation(F),
        'relations': rule(
            any_.match(relation).interpretation(F.a.inflected({'nomn'})),
            any_.match(relation).match(other).interpretation(F.b.normalized()),
            any_.match(other).optional()
        ).interpretation(F),
        'mixed_relations': rule(any_.match(third), any_.optional(), rule(any_, main(any_)).match(third)),
        'pipelines': or_(
            pipeline(['дом', 'a b', '5 5', '- -']).interpretation(F.a),
            caseless_pipeline(['ДОМ', 'İ', 'ß', 'ﬁ 5']).interpretation(F.a.normalized()),
            morph_pipeline(['дом', 'красный дом', '№ 5', 'ё-моё', 'щщщ']).interpretation(F.a.normalized()),
        ).interpretation(F),
        'repeated': rule(bank.type('RU').interpretation(F.r).repeatable(max=3), any_.repeatable(min=2, max=3, reverse=True)).interpretation(F),
        'nested': rule(rule(any_.interpretation(F.a)).interpretation(F).interpretation(G.f),
                       rule(any_.interpretation(F.r)).interpretation(F).interpretation(G.x).optional()).interpretation(G),
        'normalizers': rule(rule(any_, any_.optional()).interpretation(normalized()).interpretation(F.a),
                            rule(any_).interpretation(inflected({'ablt'})).interpretation(F.r).optional(),
                            empty().interpretation(const(1))).interpretation(F),
        'single': rule(bank.is_single(), any_.optional(), not_(bank.is_single()).optional()),
    }
    # no predicate hides another one
    rules['every'] = rule(or_(*[rule(_) for _ in every]), or_(*[rule(not_(_)) for _ in every]).optional())
    rules['numbers'] = or_(*[
        rule(_(value)) for _ in (bank.gte, bank.lte) for value in (0, 5, -1, 1.5, 10 ** 30)
    ]).repeatable(max=2)
    recursion = forward()
    recursion.define(or_(rule(any_, recursion.optional(), bank.eq('.')), rule(bank.eq(','), recursion), rule(bank.type('RU'))))
    rules['recursion'] = recursion
    tokenizer = morph_tokenizer()
    return sorted((name, Parser(_, tokenizer)) for name, _ in rules.items())


def texts(case):
    if not _parsers:
        _parsers.extend(functions())
    kind, text = hostile(case.rng)
    case.note('%s %r' % (kind, text))
    tokens = list(morph_tokenizer()(text))
    list(plain_tokenizer()(text)), morph_tokenizer().split(text)
    if len(tokens) > 25:
        raise Skip
    for name, made in case.rng.sample(_parsers, 4):
        case.note(name)
        found = calls(case, made, text, name not in PLAIN, len(tokens) < 12)
        if not tokens:
            case.equal(found, [], 'matches of a text without tokens')
        case.value('parsers', name)
    if any(0xd800 <= ord(_) < 0xe000 for _ in text):
        case.count('surrogates')
    case.seen(text)
    case.sample({'kind': kind, 'text': repr(text)})


def long_texts(case):
    """Long tokens and long texts"""
    rng = case.rng
    if not _parsers:
        _parsers.extend(functions())
    kind = rng.choice(['word', 'latin', 'number', 'spaces', 'many', 'zeros', 'punct', 'lines'])
    size = rng.choice([500, 3000, 5000, 20000])
    if kind == 'word':
        text = 'дом ' + rng.choice(['а', 'ом', 'дом', 'ёъ']) * min(size, 3000) + ' 5'
    elif kind == 'latin':
        text = 'x' * size + ' дом'
    elif kind == 'number':
        text = 'дом ' + rng.choice('123456789٣') * size + ' 5'
    elif kind == 'zeros':
        text = '0' * size + '7'
    elif kind == 'spaces':
        text = ' ' * size + 'дом' + '\t' * size
    elif kind == 'lines':
        text = '\n' * 50 + 'дом' + '\r\n' * 20
    elif kind == 'punct':
        text = '.' * 60 + ',' * 20
    else:
        text = ' '.join(words.word(rng, words.ANY) for _ in range(150))
    case.note('%s of %d characters: %r...' % (kind, len(text), text[:60]))
    names = {'nothing', 'predicates', 'values', 'pipelines', 'single', 'nested', 'every', 'numbers'}
    for name, made in rng.sample([_ for _ in _parsers if _[0] in names], 2):
        case.note(name)
        calls(case, made, text, name not in PLAIN, whole=False)
    case.count('long_tokens')
    case.seen(kind, size, text[:20])


def crowded(case):
    """More matches in a text than the interpreter allows nested calls"""
    from yargy import Parser
    rng = case.rng
    F = fact_of_one()
    size = rng.choice([1010, 1100, 1300, 1600])
    kind = rng.choice(['words', 'pairs', 'facts', 'either', 'pipeline'])
    case.note('%s %d' % (kind, size))
    from yargy import rule, or_
    from yargy.predicates import eq, type
    from yargy.pipelines import pipeline
    width = 2 if kind == 'pairs' else 1
    root = {
        'words': lambda: rule(eq('a')), 'pairs': lambda: rule(eq('a'), eq('a')),
        'facts': lambda: rule(type('LATIN').interpretation(F.a)).interpretation(F),
        'either': lambda: or_(rule(eq('b')), rule(eq('a')), rule(eq('b'), eq('c'))), 'pipeline': lambda: pipeline(['a', 'b c']),
    }[kind]()
    made = Parser(root, plain_tokenizer())
    text = rng.choice(['', ', ']) + rng.choice([' ', '\n', ' - '] if width == 1 else [' ']).join('a' * (size * width))
    found = list(made.findall(text))
    case.equal(len(found), size, 'matches of %d words' % (size * width))
    if kind == 'facts':
        case.check(all(_.fact.a == 'a' for _ in found), 'facts')
    case.equal(sum(1 for _ in made.extract(text)), size if width == 1 else size * width - 1, 'derivations')
    case.count('crowded')
    case.seen(kind, size)


def fact_of_one():
    from yargy.interpretation import fact
    return fact('F', ['a'])


def ready_rules(case):
    """EMAIL_RULE and PHONE_RULE on what only looks like an address or a number"""
    from yargy.tokenizer import Tokenizer, MorphTokenizer, EMAIL_RULE, PHONE_RULE
    rng = case.rng
    rules = rng.choice([[EMAIL_RULE], [PHONE_RULE], [EMAIL_RULE, PHONE_RULE], [PHONE_RULE, EMAIL_RULE]])
    case.note([_.type for _ in rules])
    made = rng.choice([Tokenizer, lambda: MorphTokenizer(morph=morph_tokenizer().morph)])().add_rules(*rules)
    parts = ['a', 'ab', 'a.', 'a-', '+', '_', '.', '-', '1', '1-', '1 ', '(1)', '-1-', '_1_', 'a1', '@', 'a@', 'a@a', 'a@a.', 'я', ' ', '(', ')', '٣']
    pieces = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        piece = rng.choice(parts) if rng.random() < 0.7 else rng.choice(parts) + rng.choice(parts)
        pieces.append(piece * rng.choice([1, 5, 9, 13, 30, 60, 120, 400]))
    text = ''.join(pieces)[:1500]
    case.note(repr(text))
    tokens = list(made(text))
    covered = sum(len(_.value) for _ in tokens)
    case.check(all(text[_.span.start:_.span.stop] == _.value for _ in tokens), 'tokens %r' % tokens[:10])
    case.check(covered >= sum(not _.isspace() for _ in text), 'characters are lost')
    case.equal(made.split(text), [_.value for _ in tokens], 'split()')
    case.count('ready_rules')
    case.seen(text)


# ----------------------------------------------------------------- grammars

def degenerate(rng, depth, open_):
    """Parts that match nothing, loops and repetitions of them"""
    x = rng.random()
    if depth <= 0:
        return rng.choice([Empty(), Term(rng.choice(LITERALS)), Opt(Term(rng.choice(LITERALS)))])
    if open_ and x < 0.3:
        return rng.choice(open_)
    if x < 0.4:
        forward = Fwd()
        open_ = open_ + [forward]
        target = Or([degenerate(rng, depth - 1, open_) for _ in range(rng.randint(1, 3))])
        if rng.random() < 0.5:
            target.items.append(Seq([degenerate(rng, 0, []), forward] if rng.random() < 0.5 else [forward, degenerate(rng, 0, [])]))
        forward.target = target
        return forward
    if x < 0.55:
        return Opt(degenerate(rng, depth - 1, open_), rng.random() < 0.5)
    if x < 0.7:
        low = rng.choice([None, None, 1, 2])
        high = rng.choice([None, None, (low or 1) + 1])
        return Rep(degenerate(rng, depth - 1, open_), low, high, rng.random() < 0.3)
    if x < 0.8:
        return Named(degenerate(rng, depth - 1, open_), 'N')
    if x < 0.9:
        return Seq([degenerate(rng, depth - 1, open_) for _ in range(rng.randint(1, 3))])
    return Or([degenerate(rng, depth - 1, open_) for _ in range(rng.randint(1, 3))])


def grammars(case):
    from yargy import Parser
    rng = case.rng
    root = degenerate(rng, rng.choice([2, 3, 4]), [])
    if rng.random() < 0.3:
        root = Seq([root, Term(rng.choice(LITERALS))])
    if not defined(root):
        raise Skip
    case.note(*describe(root))
    made = None
    items = [''] + [text_of(_) for _ in literal_texts(rng, root, LETTERS, 4, 5)]
    for text in items:
        tokens = ref.tokenize(text, morph=False)
        derivations = Derivations(root, tokens, limit=400)
        derivations.load(1500)
        if made is None:
            made = Parser(build(root), plain_tokenizer())
        case.note('text %r' % text)
        calls(case, made, text, facts=False)
        if 0 in derivations.recognizer.get(root, 0):
            case.count('nullable_grammars')
        case.seen(describe(root), text)
    if any(isinstance(_, Fwd) for _ in walk(root)):
        case.count('cyclic_grammars')


def interpreted(case):
    """Interpreted rules on texts of random words"""
    from yargy import Parser
    rng = case.rng
    rules = FactRules(rng, invalid=0, relations=0.1)
    root = rules.root()
    if not defined(root):
        raise Skip
    case.note(*describe(root))
    made = None
    for _ in range(4):
        _, text = hostile(rng)
        tokens = ref.tokenize(text)
        if len(tokens) > 14:
            continue
        Derivations(root, tokens, limit=300).load(1000)
        if made is None:
            made = Parser(build(root), morph_tokenizer())
        case.note('text %r' % text)
        try:
            calls(case, made, text)
        except TypeError as error:
            if not documented(error):
                raise
            case.count('not_combinable')


def documented(error):
    """TypeError of annotations that cannot be combined"""
    import traceback
    return '_interpretation' in str(error) or any(
        'interpretation' in frame.f_code.co_filename for frame, _ in traceback.walk_tb(error.__traceback__)
    )


BLANK = ['', ' ', '  ', '\t', '\u00a0', '\u2003\u3000', '\x0b\x0c', ' \t \u00a0', '\x1c\x1d\x1e\x1f', '\x85', '\u2028', ' ' * 1000]


def blank(case):
    """Texts without tokens have no matches"""
    from yargy import Parser
    from yargy.tokenizer import Tokenizer
    rng = case.rng
    text = rng.choice(BLANK)
    tokenizer = plain_tokenizer()
    if rng.random() < 0.3:
        tokenizer = Tokenizer().remove_types('EOL', 'OTHER')
        text = ''.join(rng.choice(['\n', '\r', ' ', '€', '中']) for _ in range(rng.randint(0, 6)))
    elif list(tokenizer(text)):
        text = ''
    if rng.random() < 0.5:
        root = degenerate(rng, 3, [])
    else:
        root = Grammars(rng, LITERALS, depth=3, empty=0.2, forward=0.2).root()
    if not defined(root):
        raise Skip
    Derivations(root, [], limit=300).load(1000)
    case.note(*describe(root))
    case.note('text %r' % text)
    case.equal(list(tokenizer(text)), [], 'tokens')
    made = Parser(build(root), tokenizer)
    case.equal(made.match(text), None, 'match()')
    case.equal(made.find(text), None, 'find()')
    case.equal(list(made.findall(text)), [], 'findall()')
    case.equal(list(made.extract(text)), [], 'extract()')
    case.equal(list(made.extract(text, all=False)), [], 'extract(all=False)')
    case.count('blank_texts')


# --------------------------------------------------------------------- depth

def deep(case):
    """Nesting that has to work, and the known limits of recursion"""
    from yargy import Parser, rule, or_, forward
    from yargy.interpretation import fact, attribute
    F = fact('F', [attribute('r').repeatable()])

    def attempt(id, what, function):
        """Too deep for the interpreter: listed, anything else is not"""
        case.count('deep')
        case.ok()
        try:
            function()
        except RecursionError:
            case.known(id, what)

    def works(what, function):
        case.note(what)
        case.count('deep')
        case.check(function() is not None, 'no match: %s' % what)
        case.note('ok')

    tokenizer = plain_tokenizer()
    plain = Parser(rule('a').repeatable(), tokenizer)
    left = forward()
    left.define(or_(rule(left, 'a'), rule('a')))
    nested = rule('a')
    for _ in range(60):
        nested = rule(nested, 'a')
    facts = Parser(rule(rule('a').interpretation(F.r).repeatable()).interpretation(F), tokenizer)
    probes = [
        lambda: works('repeatable over 120 tokens', lambda: plain.match('a ' * 120)),
        lambda: works('left recursion over 120 tokens', lambda: Parser(left, tokenizer).match('a ' * 120)),
        lambda: works('60 nested rules', lambda: Parser(nested, tokenizer).match('a ' * 61)),
        lambda: works('repeatable(max=50)', lambda: Parser(rule('a').repeatable(max=50), tokenizer).match('a ' * 50)),
        lambda: works('repeatable(min=80)', lambda: Parser(rule('a').repeatable(min=80), tokenizer).match('a ' * 90)),
        lambda: works('100 facts in a list', lambda: facts.match('a ' * 100).fact),
        lambda: works('100 alternatives', lambda: Parser(or_(*[rule(str(_)) for _ in range(300)]), tokenizer).match('299')),
        lambda: works('long sequence', lambda: Parser(rule(*'a' * 500), tokenizer).match('a ' * 500)),
        lambda: attempt('deep-match', 'RecursionError for a match of repeatable() with 900 items', lambda: plain.match('a ' * 900)),
        lambda: attempt('deep-rule', 'RecursionError when a parser of repeatable(max=300) is built',
                        lambda: Parser(rule('a').repeatable(max=300), tokenizer)),
    ]
    if case.i >= len(probes):
        raise Skip
    probes[case.i]()


WORKLOADS = [
    W('texts', texts, 4000, 50000),
    W('ready_rules', ready_rules, 600, 6000),
    W('long', long_texts, 60, 400),
    W('crowded', crowded, 16, 100),
    W('grammars', grammars, 2500, 30000),
    W('interpreted', interpreted, 700, 8000),
    W('blank', blank, 1200, 12000),
    W('deep', deep, 10, 10),
]
