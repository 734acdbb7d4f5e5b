"""C04: predicates decide exactly their documented condition on every token."""
from vlib.run import W, Skip
from vlib.gram import Pred, Term, Seq, eq
from vlib.common import morph_tokenizer, plain_tokenizer
from vlib import ref, words, pipes

RULE = (
    'A case is a predicate (each built-in, with arguments taken from the same word pools, and '
    'random Boolean combinations) and texts of tokens of every class, letter case and number of '
    'analyses, with and without morphology and tags. The tokens that a parser of the one-term rule '
    'matches are compared with an independent evaluation of the documented condition; calls of '
    'custom functions are logged. Non trivial: distinct (predicate, token) pairs.'
)
QUICK = 4
MINIMUMS = {'alphabets': 200, 'decisions': 50000, 'accepted': 8000, 'rejected': 20000, 'kinds': 22, 'custom_calls': 500, 'guarded_calls': 500, 'large_decisions': 800, 'source_decisions': 5000, 'sources': 30,
            'kind_accepts': 20, 'kind_rejects': 19}

KINDS = ['eq', 'caseless', 'in_', 'in_caseless', 'length_eq', 'gte', 'lte', 'normalized', 'dictionary', 'gram', 'type',
         'custom', 'true', 'is_lower', 'is_upper', 'is_title', 'is_capitalized', 'is_single', 'tag', 'and', 'or', 'not']
CASED = ['ПРЕЗИДЕНТ', 'Президент', 'ПрезиДент', 'iPhone', 'McDonald', 'ǅ', 'ß', 'ẞ', 'ﬁ', 'ªº', 'ⅷ', 'Ⓐ', 'ⓐ', 'ñ', 'Ñ', '中', 'ё', 'Ё',
         '٣٤', '०१२', '００７', '²', '½', '0000', '00000000000000000000001', '9' * 30, '😀', 'я', 'Я', 'x', 'X']


def token_text(rng, size=12):
    values = []
    for _ in range(size):
        x = rng.random()
        if x < 0.6:
            value = words.word(rng, words.ANY)
        elif x < 0.8:
            value = words.recase(rng, rng.choice(pipes.lexeme(rng.choice(words.WORDS))))
        elif x < 0.95:
            value = rng.choice(CASED)
        else:
            value = str(rng.choice([0, 1, 5, 41, 42, 43, 10 ** 20, 10 ** 20 - 1, rng.randrange(2000)]))
        values.append(value)
    if rng.random() < 0.2:
        values.insert(rng.randrange(len(values)), rng.choice(['\n', '\r\n', '\n\n']))
    return ' '.join(values)


class Tags(object):
    """Tags as a function of the token text"""
    names = ['T', 'U', '', 0, None]

    @staticmethod
    def tag(value):
        if len(value) % 3 == 0:
            return
        return Tags.names[(len(value) + ord(value[0])) % 4]

    @staticmethod
    def tagger():
        from yargy.tagger import Tagger

        class tagger(Tagger):
            tags = list(Tags.names[:4])

            def __call__(self, tokens):
                for token in tokens:
                    if len(token.value) % 3 == 0:
                        yield token
                    else:
                        yield token.tagged(Tags.tag(token.value))
        return tagger()


def make(rng, depth):
    x = rng.random()
    if depth and x < 0.35:
        kind = rng.choice(['and', 'or', 'not'])
        return Pred(kind, subs=[make(rng, depth - 1) for _ in range(1 if kind == 'not' else rng.randint(1, 3))])
    kind = rng.choice(KINDS[:19])
    if kind == 'tag':
        return Pred('tag', rng.choice(Tags.names[:2]))
    if kind in ('gte', 'lte'):
        return Pred(kind, rng.choice([0, 1, 2, 5, 41, 42, 43, 1999, -1, 10 ** 20, 10 ** 20 - 1, 2.5]))
    if kind in ('eq', 'in_') and rng.random() < 0.15:
        # values that are no texts (and texts: in_ asks for substrings then)
        values = [rng.choice([1, 5, 41, 42, 0, 5.0, None, True, '5', ('5',), 10 ** 20]) for _ in range(rng.randint(1, 4))]
        if kind == 'eq':
            return Pred('eq', values[0])
        return Pred('in_', rng.choice([values, tuple(values), frozenset(values), {_: 1 for _ in values}, '1 5 41', 'дома ABC']))
    if kind in ('eq', 'caseless', 'in_', 'in_caseless') and rng.random() < 0.3:
        value = rng.choice(CASED)
        return Pred(kind, value if kind in ('eq', 'caseless') else [value, rng.choice(CASED)])
    return words.make_pred(rng, kind)


def judge(case, pred, texts, plain=False):
    from yargy import Parser, rule
    rng = case.rng
    case.note(pred)
    tagger = Tags.tagger()
    tokenizer = plain_tokenizer() if plain else morph_tokenizer()
    made = Parser(rule(pred.build()), tokenizer, tagger)
    case.value('kinds', pred.kind)
    for text in texts:
        tokens = ref.tokenize(text, morph=not plain)
        for token in tokens:
            token.tag = Tags.tag(token.value)
        case.notes.append('text %r' % text)
        found = {match.span.start for match in made.findall(text)}
        for token in tokens:
            expected = pred.test(token)
            actual = token.start in found
            if actual != expected:
                case.fail('%s %s %r' % (pred, 'accepts' if actual else 'rejects', token))
            case.ok()
            case.count('decisions')
            case.count('accepted' if actual else 'rejected')
            case.value('kind_accepts' if actual else 'kind_rejects', pred.kind)
            case.seen(repr(pred), token.value)
        case.notes.pop()


def needs_morph(pred):
    return pred.kind in ('normalized', 'dictionary', 'gram') or any(needs_morph(_) for _ in pred.subs)


def single(case):
    """Each kind in turn"""
    rng = case.rng
    kind = KINDS[case.i % 19]
    pred = make(rng, 0)
    while pred.kind != kind:
        pred = make(rng, 0)
    judge(case, pred, [token_text(rng) for _ in range(4)])


def combined(case):
    rng = case.rng
    pred = make(rng, rng.choice([1, 2, 3]))
    judge(case, pred, [token_text(rng) for _ in range(3)])


def plain(case):
    """Tokenizer without morphology"""
    rng = case.rng
    pred = make(rng, rng.choice([0, 0, 1]))
    if needs_morph(pred):
        raise Skip
    judge(case, pred, [token_text(rng) for _ in range(3)], plain=True)


def near(case):
    """Predicates whose argument is one of the tokens of the text, in another case or form"""
    rng = case.rng
    text = token_text(rng, 8)
    tokens = ref.tokenize(text)
    value = rng.choice(tokens).value
    variant = rng.choice([value, value.lower(), value.upper(), value.title(), value + 'x', value[:-1] or 'x'])
    kind = rng.choice(['eq', 'caseless', 'in_', 'in_caseless', 'length_eq', 'normalized', 'dictionary', 'gte', 'lte'])
    if kind in ('gte', 'lte'):
        arg = int(value) + rng.choice([-1, 0, 1]) if value.isdecimal() and len(value) < 100 else rng.randint(0, 50)
    elif kind == 'length_eq':
        arg = len(variant)
    elif kind in ('in_', 'in_caseless', 'dictionary'):
        arg = [variant, rng.choice(words.ANY)]
        if kind == 'dictionary' and ref.char_class(variant[0]) == 'RU' and rng.random() < 0.7:
            arg = [rng.choice(sorted(ref.normals(variant)))]
        arg = rng.choice([list, tuple, frozenset])(arg)
    elif kind == 'normalized' and ref.char_class(variant[0]) == 'RU':
        arg = rng.choice(sorted(ref.normals(variant)) + [variant])
    else:
        arg = variant
    judge(case, Pred(kind, arg), [text, token_text(rng)])


def custom(case):
    """custom() is asked about tokens of the requested types only"""
    from yargy import Parser, rule, and_, or_, not_
    from yargy.predicates import custom
    rng = case.rng
    types = rng.choice(['RU', 'INT', ['RU', 'LATIN'], ('PUNCT', 'OTHER', 'EOL'), ['INT'], None])
    calls = []
    answer = rng.choice([bool, lambda _: 1, lambda _: 0, lambda _: None, lambda _: '', lambda _: [1]])

    def function(value):
        calls.append(value)
        return answer(len(value) % 2)

    case.note(types)
    made = Parser(rule(custom(function) if types is None else custom(function, types=types)), morph_tokenizer())
    text = token_text(rng)
    tokens = ref.tokenize(text)
    wanted = None if types is None else [types] if isinstance(types, str) else list(types)
    right = [_ for _ in tokens if wanted is None or _.type in wanted]
    found = {match.span.start for match in made.findall(text)}
    case.equal(sorted(set(calls)), sorted({_.value for _ in right}), 'values custom() was asked about')
    case.equal(found, {_.start for _ in right if answer(len(_.value) % 2)}, 'accepted tokens')
    case.count('custom_calls', len(calls))
    case.count('decisions', len(tokens))


def guarded(case):
    """Operands of and_ and or_ are asked left to right until one decides"""
    from yargy import Parser, rule, and_, or_, not_
    from yargy.predicates import custom, type as type_, gte, is_upper, in_, eq as eq_
    rng = case.rng
    calls = []

    def function(value):
        calls.append(value)
        return int(value) > 5 if digits else len(value) > 2

    digits = rng.random() < 0.5
    guards = [
        (type_('INT'), lambda _: _.type == 'INT', True),
        (not_(type_('INT')), lambda _: _.type != 'INT', False),
        (and_(type_('INT'), gte(3)), lambda _: _.type == 'INT' and int(_.value) >= 3, True),
        (in_({'дом', '5', '42'}), lambda _: _.value in ('дом', '5', '42'), None),
        (is_upper(), lambda _: _.value.isupper(), None),
        (type_('RU'), lambda _: _.type == 'RU', None),
    ]
    if digits:
        guards = [_ for _ in guards if _[2] is True]
    guard, test, _ = rng.choice(guards)
    kind = rng.choice(['and', 'or_not', 'nested', 'first'] if digits else ['and', 'or', 'or_not', 'nested', 'first'])
    inner = custom(function)
    if kind == 'and':
        pred, asked, value = and_(guard, inner), test, lambda _, answer: test(_) and answer
    elif kind == 'or':
        pred, asked, value = or_(guard, inner), lambda _: not test(_), lambda _, answer: test(_) or answer
    elif kind == 'or_not':
        pred, asked, value = or_(not_(guard), inner), test, lambda _, answer: not test(_) or answer
    elif kind == 'nested':
        pred, asked, value = and_(guard, not_(inner), guard), test, lambda _, answer: test(_) and not answer
    else:
        pred, asked, value = and_(guard, or_(inner, guard)), test, lambda _, answer: test(_)
    text = token_text(rng)
    tokens = ref.tokenize(text)
    if digits:
        tokens_ok = all(_.type != 'INT' or len(_.value) < 1000 for _ in tokens)
        if not tokens_ok:
            raise Skip
    case.note('%s guard, digits %s, text %r' % (kind, digits, text))
    found = {match.span.start for match in Parser(rule(pred), morph_tokenizer()).findall(text)}
    case.equal(sorted(set(calls)), sorted({_.value for _ in tokens if asked(_)}), 'values custom() was asked about')
    log = list(calls)
    for token in tokens:
        answer = function(token.value) if asked(token) else None
        case.equal(token.start in found, bool(value(token, answer)), 'decision on %r' % token)
    case.count('guarded_calls', len(log))
    case.count('decisions', len(tokens))


def letters_of(number):
    """Distinct Latin word per number"""
    return ''.join('abcdefghij'[int(_)] for _ in str(number))


def large(case):
    """Large sets of values, wide combinations"""
    from yargy import Parser, rule
    rng = case.rng
    size = rng.choice([200, 257, 300, 600, 1025, 2000, 5000])
    kind = ['in_', 'in_caseless', 'dictionary', 'or', 'and'][case.i % 5]
    style = rng.choice(['int', 'latin', 'mixed'])
    make = {'int': str, 'latin': letters_of, 'mixed': lambda _: letters_of(_) if _ % 2 else str(_)}[style]
    step = rng.choice([1, 2, 3])
    values = [make(_ * step) for _ in range(size)]
    rng.shuffle(values)
    values += rng.sample(words.WORDS, 20)
    if kind in ('or', 'and'):
        size = min(size, 600)
        values = values[:size]
        subs = [eq(_) for _ in values]
        pred = Pred('or', subs=subs) if kind == 'or' else Pred('and', subs=[Pred('not', subs=[_]) for _ in subs])
    else:
        pred = Pred(kind, rng.choice([list, tuple, set, frozenset])(values))
    picked = [values[0], values[-1], values[len(values) // 2]] + rng.sample(values, 20)
    picked += [make(_ * step + 1) for _ in rng.sample(range(size), 10)] + [make(size * step), make(-0)]
    picked += [words.recase(rng, _) for _ in rng.sample(words.WORDS + values, 10)]
    text = ' '.join(picked)
    case.note('%s of %d %s values, step %d' % (kind, size, style, step))
    accepted = set(values)
    lower = {_.lower() for _ in values}
    lemmas = None
    if kind == 'dictionary':
        lemmas = set()
        for value in values:
            lemmas |= ref.normals(value)
    made = Parser(rule(pred.build()), morph_tokenizer())
    found = {match.span.start for match in made.findall(text)}
    for token in ref.tokenize(text):
        value = token.value
        if kind in ('in_', 'or'):
            expected = value in accepted
        elif kind == 'and':
            expected = value not in accepted
        elif kind == 'in_caseless':
            expected = value.lower() in lower
        elif token.forms is not None:
            expected = any(_.normal in lemmas for _ in token.forms)
        else:
            expected = value.lower() in lemmas
        case.equal(token.start in found, expected, 'decision on %r' % token)
        case.count('decisions')
        case.count('large_decisions')
        case.seen(kind, size, style, value)


TYPES = [
    # names that begin, end or contain one another, and the built-in ones
    ('INTERVAL', r'\d+-\d+'), ('YEAR', r'(?:19|20)\d\d\b'), ('IN', r'[x-z]+'), ('RUS', r'[а-д]+\b'), ('int', r'[a-c]\d'),
    ('', r'~+'), ('R', r'[э-я]+\b'), ('UN', r'!+'), ('LATIN2', r'[a-w]\w+-\w+'), ('INT ', r'\d+%'), ('PUNCT', r'--'),
]


SOURCES = [
    ('list', list), ('tuple', tuple), ('set', set), ('frozenset', frozenset), ('dict', dict.fromkeys),
    ('keys', lambda _: dict.fromkeys(_).keys()), ('iterator', iter), ('generator', lambda _: (item for item in _)),
    ('map', lambda _: map(str, _)), ('reversed', lambda _: reversed(list(_)))
]


def sources(case):
    """Collections may be given as anything that can be iterated, also once"""
    from yargy import Parser, rule, and_, not_
    from yargy import predicates as bank
    rng = case.rng
    kind = ['in_', 'in_caseless', 'dictionary'][case.i % 3]
    name, source = SOURCES[case.i // 3 % len(SOURCES)]
    pool = ['дом', 'стали', 'мама', 'Красной', 'x', 'kg', 'ООО', '5', '.', '1999', 'ёж', 'руки']
    values = rng.sample(pool, rng.choice([1, 2, 3, 6]))
    pred = Pred(kind, values)
    built = getattr(bank, kind)(source(values))
    case.note('%s(%s of %r)' % (kind, name, values))
    tokenizer = morph_tokenizer()
    shape = rng.choice([lambda: rule(built), lambda: rule(and_(built, bank.true())), lambda: rule(not_(not_(built)))])
    shared = shape()
    for _ in range(3):
        made = Parser(rng.choice([shared, shape()]), tokenizer)
        for _ in range(2):
            text = ' '.join(rng.choice(pool + ['дома', 'красная', 'МАМА', 'X', 'рука', 'сталь', 'нет']) for _ in range(8))
            found = {match.span.start for match in made.findall(text)}
            for token in ref.tokenize(text):
                case.equal(token.start in found, pred.test(token), '%r of %r' % (token, text))
                case.count('source_decisions')
    case.value('sources', (kind, name))
    case.seen(kind, name, values)


def own_types(case):
    """Tokenizers with types of their own, whose names resemble others"""
    from yargy import Parser, rule
    from yargy.tokenizer import MorphTokenizer, TokenRule
    rng = case.rng
    chosen = rng.sample(TYPES, rng.randint(1, 5))
    tokenizer = MorphTokenizer(morph=morph_tokenizer().morph).add_rules(*[TokenRule(*_) for _ in chosen])
    removed = rng.sample(['INT', 'PUNCT', 'LATIN', 'OTHER'], rng.choice([0, 0, 1]))
    removed = [_ for _ in removed if _ not in [name for name, _ in chosen]]
    tokenizer.remove_types(*removed)
    names = sorted(set([name for name, _ in chosen] + ['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']) - set(removed))
    pieces = ['1990', '2024', '1990-2000', '5-7', 'xyz', 'x', 'abc', 'где', 'бег', 'эюя', 'a1', 'b2', '~~', '!!', 'a-b', 'ab-cd',
              '7%', '42', '5', '--', '-', '\n', 'дом', 'стали', '😀']
    text = rng.choice([' ', ' ', '']).join(rng.choice(pieces) for _ in range(14))
    tokens = list(tokenizer(text))

    def pred(depth):
        x = rng.random()
        if depth and x < 0.3:
            kind = rng.choice(['and', 'or', 'not'])
            return Pred(kind, subs=[pred(depth - 1) for _ in range(1 if kind == 'not' else 2)])
        if x < 0.6:
            return Pred('type', rng.choice(names))
        if x < 0.75:
            return Pred(rng.choice(['gte', 'lte']), rng.choice([0, 5, 42, 1990, 2000]))
        types = rng.sample(names, rng.randint(1, min(3, len(names))))
        return Pred('custom', lambda value: len(value) % 2 == 0, types=rng.choice([
            lambda: types, lambda: tuple(types), lambda: types[0]])())

    for _ in range(4):
        item = pred(rng.choice([0, 0, 1, 2]))
        if item.kind == 'custom' and item.types == '':
            continue
        case.notes.append('%s %r of %r on %r' % (item, item.types, names, text))
        made = Parser(rule(item.build()), tokenizer)
        found = {match.span.start for match in made.findall(text)}
        for token in tokens:
            image = ref.RTok(token.value, token.span.start, token.span.stop, token.type)
            case.equal(token.span.start in found, item.test(image), '%s on %r' % (item, token))
            case.count('decisions')
            case.seen(repr(item), item.types, token.value, token.type)
        case.notes.pop()
    case.count('own_types')


# words whose lower, upper or title case is not made letter by letter
FOREIGN = ['ΟΣ', 'ΟΔΟΣ', 'Οδός', 'οδος', 'οδοσ', 'ΣΑΣ', 'σας', 'Σ', 'ς', 'σ', 'İstanbul', 'istanbul', 'ISTANBUL', 'ıstanbul', 'I', 'İ', 'ı',
           'STRASSE', 'straße', 'Straße', 'STRAẞE', 'ﬁn', 'FIN', 'fin', 'ŉ', 'ʼN', 'ΐ', 'ΆΣ', 'άς', 'ǅungla', 'Ǆungla', 'ǆungla', 'ǱA', 'ǲa',
           'ǈ', 'Éa', 'e\u0301a', 'ÉA', '中文', 'שלום', 'ªº', 'ⅷ', 'Ⅷ', 'ŐZ', 'őz', 'ПриВет', 'ПРИВЕТ', 'привет', 'ᏸ', 'Ᏸ', '𐐀𐐨', '𐐨𐐨']


def alphabets(case):
    """Words of other alphabets as tokens of a user tokenizer"""
    from yargy import Parser, rule
    from yargy.tokenizer import Tokenizer, TokenRule
    rng = case.rng
    tokenizer = Tokenizer([TokenRule('WORD', r'\S+')])
    values = [rng.choice(FOREIGN) for _ in range(12)]
    values = [_ if rng.random() < 0.6 else rng.choice([_.lower(), _.upper(), _.title(), _.casefold()]) for _ in values]
    text = ' '.join(values)
    tokens = list(tokenizer(text))
    case.equal([_.value for _ in tokens], values, 'tokens')
    for _ in range(4):
        kind = rng.choice(['eq', 'caseless', 'caseless', 'in_', 'in_caseless', 'in_caseless', 'length_eq', 'is_lower', 'is_upper',
                           'is_title', 'is_capitalized', 'is_single'])
        if kind in ('eq', 'caseless'):
            value = rng.choice(values + FOREIGN)
            pred = Pred(kind, rng.choice([value, value, value.lower(), value.upper()]))
        elif kind in ('in_', 'in_caseless'):
            pred = Pred(kind, rng.choice([list, tuple, set])([rng.choice(values + FOREIGN) for _ in range(rng.randint(1, 4))]))
        elif kind == 'length_eq':
            pred = Pred(kind, rng.randint(1, 8))
        else:
            pred = Pred(kind)
        if rng.random() < 0.2:
            pred = Pred('not', subs=[pred])
        case.notes.append('%s on %a' % (pred, text))
        found = {match.span.start for match in Parser(rule(pred.build()), tokenizer).findall(text)}
        for token in tokens:
            image = ref.RTok(token.value, token.span.start, token.span.stop, token.type)
            case.equal(token.span.start in found, pred.test(image), '%s on %a' % (pred, token.value))
            case.count('decisions')
            case.seen(repr(pred), token.value)
        case.notes.pop()
    case.count('alphabets')


WORKLOADS = [
    W('alphabets', alphabets, 400, 8000),
    W('own_types', own_types, 500, 8000),
    W('single', single, 1900, 38000),
    W('combined', combined, 900, 20000),
    W('plain', plain, 300, 5000),
    W('near', near, 900, 20000),
    W('custom', custom, 200, 3000),
    W('guarded', guarded, 300, 4000),
    W('large', large, 60, 600),
    W('sources', sources, 120, 1500),
]
