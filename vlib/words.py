"""Russian word material: pools of words, sentences, predicates."""
from .gram import Pred, eq
from . import ref

ADJECTIVES = 'красный красная красное красные красного красной красным новых новая новый новом густом старому старый синее большие'.split()
NOUNS = ('дом дома доме домов году лесу чаю стол стола столе книга книги книгу книге окно окна ножницы часы сани '
         'директор директора президент города город площадь площади улицы').split()
COMMON = 'сирота сироты судья судье коллега коллеги умница врач врача'.split()
FIXED = 'пальто кофе такси метро шоссе'.split()
NAMES = ('иван ивана ивану саша саше сашу маша маши мария марии юлия петр петра анна анны '
         'александр александра женя жени').split()
SURNAMES = 'иванов иванова иванову ивановой петров петрова петровы сидорова ким шевченко толстой толстого'.split()
VERBS = 'стал стала стало стали стать пришел пришла пришли сказал сказала любит видят иду мыло'.split()
AMBIGUOUS = 'стали мыла печь дуй рой пила стекло стих вести белила души берег знать банка среда маши вина лука роман лев'.split()
OTHER = 'и на в у под не вот очень быстро два пять первый я он ее самый'.split()
UNKNOWN = 'бырдык флуктурировал зюзюка кракозябрам щщщ ёъ'.split()
LATIN = 'abc IBM x iPhone Ok'.split()
NUMBERS = '0 1 2 5 10 42 007 1999 2024 123456789012345678901 ٣٤ ３'.split()
PUNCT = '. , ; - ! ? ( ) " « » : / % № … + $ & @'.split()
SYMBOLS = ['€', '😀', '中', '文', 'ñ', 'é', '±', '°', '™', 'ß', 'Δ']

WORDS = ADJECTIVES + NOUNS + COMMON + FIXED + NAMES + SURNAMES + VERBS + AMBIGUOUS + OTHER + UNKNOWN
ANY = WORDS + LATIN + NUMBERS + PUNCT + SYMBOLS

GRAMS = ('NOUN ADJF ADJS VERB INFN NUMR ADVB NPRO PREP CONJ PRTF GRND Name Surn Patr Geox Abbr '
         'masc femn neut sing plur nomn gent datv accs ablt loct anim inan Fixd Sgtm Pltm '
         'Ms-f GNdr past pres 1per 3per perf impf').split()


def recase(rng, word):
    x = rng.random()
    if x < 0.7:
        return word
    if x < 0.85:
        return word.capitalize()
    if x < 0.95:
        return word.upper()
    return ''.join(rng.choice([_.lower(), _.upper()]) for _ in word)


def word(rng, pool=WORDS):
    return recase(rng, rng.choice(pool))


def sentence(rng, size, pool=ANY, tight=0.15):
    """Text with varied spacing"""
    parts = []
    for index in range(size):
        if index:
            x = rng.random()
            if x < tight:
                pass
            elif x < 0.9:
                parts.append(' ')
            else:
                parts.append(rng.choice(['  ', '\t', '\n', '\u00a0', ' \n ']))
        parts.append(word(rng, pool))
    return ''.join(parts)


def simple_pred(rng, pool=ANY):
    """Random basic predicate likely to hold for words of the pool"""
    kind = rng.choice([
        'eq', 'eq', 'caseless', 'in_', 'in_caseless', 'length_eq', 'gte', 'lte', 'normalized',
        'dictionary', 'gram', 'gram', 'gram', 'type', 'custom', 'true', 'is_lower', 'is_upper',
        'is_title', 'is_capitalized', 'is_single'
    ])
    return make_pred(rng, kind, pool)


def make_pred(rng, kind, pool=ANY):
    if kind in ('eq', 'caseless'):
        return Pred(kind, word(rng, pool))
    if kind in ('in_', 'in_caseless'):
        words = [word(rng, pool) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.5:
            return Pred(kind, frozenset(words))
        return Pred(kind, words)
    if kind == 'length_eq':
        return Pred(kind, rng.randint(1, 7))
    if kind in ('gte', 'lte'):
        return Pred(kind, rng.choice([0, 1, 2, 3, 5, 10, 42, 1000, -1, 10 ** 20]))
    if kind == 'normalized':
        return Pred(kind, rng.choice(pool))
    if kind == 'dictionary':
        words = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        return Pred(kind, words if rng.random() < 0.5 else frozenset(words))
    if kind == 'gram':
        return Pred(kind, rng.choice(GRAMS))
    if kind == 'type':
        return Pred(kind, rng.choice(['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']))
    if kind == 'custom':
        types = rng.choice([None, None, 'INT', 'RU', ['RU', 'LATIN'], ('INT', 'OTHER', 'PUNCT'), 'LATIN'])
        return Pred(kind, rng.choice(['has_even_length', 'starts_with_vowel', 'digit_sum_even']), types=types)
    return Pred(kind)


def pred(rng, depth=2, pool=ANY):
    x = rng.random()
    if depth <= 0 or x < 0.45:
        return simple_pred(rng, pool)
    if x < 0.65:
        return Pred('and', subs=[pred(rng, depth - 1, pool) for _ in range(rng.randint(1, 3))])
    if x < 0.85:
        return Pred('or', subs=[pred(rng, depth - 1, pool) for _ in range(rng.randint(1, 3))])
    return Pred('not', subs=[pred(rng, depth - 1, pool)])
