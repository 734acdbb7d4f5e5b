"""C03: word analyses are the dictionary's; the analysis cache is invisible."""
import gc
from vlib.run import W, Skip
from vlib.gram import RelSpec
from vlib.common import morph_tokenizer
from vlib import ref, words, pipes

RULE = (
    'A case tokenizes words (real, inflected, unknown, invented, in any letter case) and texts, '
    'interleaved with parsing, agreement, interpretation and floods of other words that overflow '
    'the cache, and compares the analyses (normal forms, grammemes, order, inflection) of every '
    'token, new and kept, with those of a separate dictionary object. Non trivial: distinct words '
    'with 2+ analyses.'
)
QUICK = 1.5
MINIMUMS = {'words': 3000, 'inflections': 3000, 'fallbacks': 200, 'flooded': 11000, 'kept_checked': 500, 'parses': 200, 'odd_words': 80, 'changed': 300}

LETTERS = 'абвгдеёжзийклмнопрстуфхцчшщъыьэюя'


def invented(rng):
    word = ''.join(rng.choice('аеиоу' if index % 2 else 'бвгдклмнпрст') for index in range(rng.randint(1, 9)))
    x = rng.random()
    if x < 0.2:
        word = ''.join(rng.choice(LETTERS) for _ in range(rng.randint(1, 12)))
    elif x < 0.6:
        word += rng.choice(['ов', 'ова', 'ский', 'ами', 'ого', 'ать', 'ость', 'ённый', 'енко', 'ия'])
    return words.recase(rng, word)


def any_word(rng):
    x = rng.random()
    if x < 0.4:
        return words.word(rng)
    if x < 0.7:
        return words.recase(rng, rng.choice(pipes.lexeme(rng.choice(words.WORDS))))
    return invented(rng)


def forms_key(forms):
    return [(_.normalized, frozenset(_.grams.values)) for _ in forms]


GRAMS = [{'nomn'}, {'gent'}, {'datv', 'plur'}, {'plur'}, {'sing', 'ablt'}, {'nomn', 'sing'}, {'femn'}, {'masc', 'accs'},
         {'past'}, {'3per', 'sing'}, {'COMP'}, {'loct', 'plur'}, {'neut', 'gent'}, {'INFN'}, {'voct'}]


def check_token(case, token, inflect=None):
    word = token.value
    forms = getattr(token, 'forms', None)
    if token.type != 'RU':
        case.check(forms is None, '%r has analyses' % token)
        return
    expected = ref.analyses(word)
    case.equal(forms_key(forms), [_.key for _ in expected], 'analyses of %r' % word)
    case.count('words')
    if len(expected) > 1:
        case.seen(word)
    if inflect:
        for form, source in zip(forms, expected):
            # new, own and reused sets
            style = case.rng.randrange(4)
            reused = set()
            for grams in inflect:
                if style == 0:
                    reused.clear()
                    reused.update(grams)
                    given = reused
                elif style == 1:
                    given = grams
                elif style == 2:
                    given = frozenset(grams)
                else:
                    given = set(grams)
                size = set(given)
                case.equal(form.inflect(given), ref.inflect(source, grams), 'inflection of %r to %s' % (word, sorted(grams)))
                case.equal(set(given), size, 'set given to inflect()')
                case.count('inflections')
                case.count('fallbacks', source.raw.inflect(set(grams)) is None)
            case.equal(form.inflect(), ref.inflect(source, {'nomn', 'sing'}), 'inflection of %r' % word)


def alone(case):
    rng = case.rng
    tokenizer = morph_tokenizer()
    for _ in range(6):
        word = any_word(rng)
        case.note(word)
        for token in tokenizer(word):
            check_token(case, token, rng.sample(GRAMS, 3))
        case.equal(tokenizer.morph.normalized(word), {_.normal for _ in ref.analyses(word)}, 'normal forms of %r' % word)


def parse_something(case, rng, text):
    from yargy import Parser, rule, or_
    from yargy.predicates import gram, normalized, dictionary, is_single, type as type_
    from yargy.relations import gnc_relation, number_relation
    from yargy.interpretation import fact, attribute
    F = fact('F', ['a', attribute('r').repeatable()])
    relation = rng.choice([gnc_relation, number_relation])()
    term = lambda: rng.choice([gram('NOUN'), gram('ADJF'), is_single(), type_('RU'), gram('sing'), dictionary(['стать'])])
    body = rule(term().match(relation), term().match(relation)) if rng.random() < 0.6 else or_(rule(term()), rule(term(), term()))
    made = body.interpretation(rng.choice([F.a.inflected({'gent'}), F.a.normalized()])).interpretation(F)
    parser = Parser(made, morph_tokenizer())
    matches = rng.choice([parser.findall, parser.extract])(text)
    for match in matches:
        match.fact.as_json
    case.count('parses')


def kept(case):
    """Tokens kept while the same words are parsed, constrained, interpreted"""
    rng = case.rng
    tokenizer = morph_tokenizer()
    pool = [any_word(rng) for _ in range(5)]
    case.note(pool)
    text = ' '.join(rng.choice(pool) for _ in range(rng.randint(2, 8)))
    before = list(tokenizer(text))
    for _ in range(3):
        parse_something(case, rng, ' '.join(rng.choice(pool) for _ in range(rng.randint(2, 6))))
    for token in before:
        check_token(case, token, [rng.choice(GRAMS)])
        case.count('kept_checked')
    for token in tokenizer(text):
        check_token(case, token)


def flood(case):
    """More words than the cache holds"""
    rng = case.rng
    from yargy.tokenizer import MorphTokenizer
    tokenizer = MorphTokenizer()
    held = []
    for index in range(11500):
        value = index
        word = ''
        while value:
            word += 'бвгдк'[value % 5] + 'аеиоу'[value // 5 % 5]
            value //= 25
        word += rng.choice(['ов', 'ый', 'а', 'ать'])
        if index % 200 == 0:
            word = any_word(rng)
        for token in tokenizer(word):
            if index % 200 == 0 or index % 211 == 0:
                held.append(token)
        case.count('flooded')
    for token in held:
        check_token(case, token, [rng.choice(GRAMS)])
        for again in tokenizer(token.value):
            check_token(case, again)


def separate(case):
    """Analyzers, cached or not, agree; they do not depend on each other"""
    rng = case.rng
    from yargy.morph import MorphAnalyzer, CachedMorphAnalyzer
    from yargy.tokenizer import MorphTokenizer
    made = [MorphTokenizer(morph=MorphAnalyzer(ref.pymorphy())), MorphTokenizer(morph=CachedMorphAnalyzer()), morph_tokenizer()]
    text = ' '.join(any_word(rng) for _ in range(20))
    case.note(text)
    for tokenizer in made:
        for token in tokenizer(text):
            check_token(case, token)
    del made[1]
    gc.collect()
    for token in made[1](text):
        check_token(case, token)


def changed(case):
    """The list of analyses belongs to the caller"""
    rng = case.rng
    from yargy.morph import MorphAnalyzer
    made = morph_tokenizer()
    analyzers = [made.morph, MorphAnalyzer(ref.pymorphy())]
    for _ in range(6):
        word = any_word(rng)
        case.note(word)
        how = rng.choice(['token', 'analyzer', 'normals'])
        if how == 'token':
            tokens = list(made(word))
            lists = [_.forms for _ in tokens if hasattr(_, 'forms')]
        elif how == 'analyzer':
            lists = [rng.choice(analyzers)(word)]
        else:
            made.morph.normalized(word).add('junk')
            lists = []
        for items in lists:
            rng.choice([items.clear, items.reverse, items.pop, lambda: items.append(items[0]), lambda: items.insert(0, items[-1])])()
            case.count('changed')
        for token in made(word + ' ' + word):
            check_token(case, token)
        for analyzer in analyzers:
            case.equal([ref.form_key(_) for _ in analyzer(word)], [_.key for _ in ref.analyses(word)], 'analyses of %r' % word)
            case.equal(analyzer.normalized(word), {_.normal for _ in ref.analyses(word)}, 'normal forms of %r' % word)


def sentences(case):
    """Whole texts: only Russian words carry analyses"""
    rng = case.rng
    text = words.sentence(rng, rng.randint(1, 30), tight=0.3)
    case.note(repr(text))
    tokens = list(morph_tokenizer()(text))
    case.equal([ref.token_key(_) for _ in tokens], [ref.rtok_key(_) for _ in ref.tokenize(text)], 'tokens')
    case.count('words', sum(_.type == 'RU' for _ in tokens))


STEMS = ['сельскохозяйственноперерабатывающ', 'высокопревосходительнейш', 'электрооборудованиепроизводящ', 'красн']
ENDINGS = ['ий', 'ая', 'ое', 'его', 'ей', 'ему', 'ими', 'их', 'ую', 'ие', 'им', 'ый', 'ого']


def similar(case):
    """Long words that differ in the last letters only, in one text"""
    rng = case.rng
    stem = rng.choice(STEMS)
    prefix = rng.choice(['', 'не', 'анти', 'авто' * rng.choice([1, 5, 20])])
    values = [prefix + stem + _ for _ in rng.sample(ENDINGS, rng.randint(2, 6))]
    values += [rng.choice(values) + rng.choice(['', 'ся', 'те'])]
    values = [rng.choice([_, _, _.upper(), _.capitalize()]) for _ in values]
    rng.shuffle(values)
    case.note(values)
    for token, value in zip(morph_tokenizer()(' '.join(values)), values):
        case.equal(token.value, value, 'text')
        check_token(case, token, [rng.choice(GRAMS)])
        case.count('similar')


PATTERNS = [r'[а-яё]+(?:-[а-яё]+)*', r'[а-яё-]+', r"[а-яё']+", r'[а-яё\d]+', r'[а-яё]+\.?', r'[а-яё]+(?: [а-яё]+)?', r'\w+', r'[^\s]+']
_own = {}


def patterns(case):
    """Tokens of type RU are words of some other shape"""
    from yargy.tokenizer import MorphTokenizer, TokenRule, RULES
    rng = case.rng
    pattern = rng.choice(PATTERNS)
    if pattern not in _own:
        _own[pattern] = MorphTokenizer([TokenRule('RU', pattern)] + [_ for _ in RULES if _.type != 'RU'],
                                       morph=morph_tokenizer().morph)
    parts = []
    for _ in range(rng.randint(1, 4)):
        parts.append(any_word(rng))
        parts.append(rng.choice(['-', '--', ' ', ' - ', '. ', ' -', '- ', "'", '5', '-то ', '']))
    if rng.random() < 0.5:
        parts.insert(0, rng.choice(['-', "'", '--', '5']))
    text = ''.join(parts)
    case.note('%r %r' % (pattern, text))
    for token in _own[pattern](text):
        check_token(case, token, [rng.choice(GRAMS)])
        if token.type == 'RU' and not token.value.isalpha():
            case.count('odd_words')


WORKLOADS = [
    W('patterns', patterns, 300, 4000),
    W('similar', similar, 120, 1500),
    W('alone', alone, 800, 20000),
    W('kept', kept, 500, 8000),
    W('flood', flood, 4, 24),
    W('changed', changed, 200, 3000),
    W('separate', separate, 16, 100),
    W('sentences', sentences, 500, 10000),
]
