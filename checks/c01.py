"""C01: tokenizing is an exact, typed, lossless segmentation."""
from vlib.run import W, Skip
from vlib import ref, words
from vlib.common import plain_tokenizer, morph_tokenizer

RULE = (
    'A case is a text: every Unicode code point alone, doubled and between letters and digits; '
    'random texts of all character classes, of one class, of real words; long texts. Tokens are '
    'checked against the text (spans, order, coverage, white space) and against an independent '
    'character class lexer. Non trivial: distinct texts with 2+ classes of characters.'
)
QUICK = 2
MINIMUMS = {'book_tokens': 100000, 'huge': 20, 'texts': 3000, 'tokens': 50000, 'code_points': 1000000, 'types': 6, 'class_pairs': 20}
TYPES = {'RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER'}


def judge(case, text, tokenizer, exact=True):
    tokens = list(tokenizer(text))
    previous = 0
    covered = bytearray(len(text))
    for token in tokens:
        start, stop = token.span.start, token.span.stop
        if not (previous <= start < stop <= len(text)):
            case.fail('span [%d, %d) after %d' % (start, stop, previous))
        if token.value != text[start:stop]:
            case.fail('value %r, text %r' % (token.value, text[start:stop]))
        if token.type not in TYPES:
            case.fail('type %r' % token.type)
        for index in range(start, stop):
            covered[index] = 1
        previous = stop
    for index, char in enumerate(text):
        needed = not char.isspace() or char in '\n\r'
        if covered[index] != needed:
            case.fail('character %r at %d is %s' % (char, index, 'inside of a token' if covered[index] else 'lost'))
    if exact:
        actual = [(_.value, _.span.start, _.span.stop, _.type) for _ in tokens]
        expected = ref.lex(text)
        if actual != expected:
            for a, b in zip(actual + [None], expected + [None]):
                if a != b:
                    case.fail('token %r, expected %r' % (a, b))
    if tokenizer.split(text) != [_.value for _ in tokens]:
        case.fail('split() differs: %r' % tokenizer.split(text))
    case.ok()
    return tokens


def code_points(case):
    """All code points, surrogates included"""
    size = 4096
    start = case.i * size
    tokenizer = plain_tokenizer()
    for code in range(start, start + size):
        char = chr(code)
        if ref.fuzzy(char):
            judge(case, 'ы1%s%sz' % (char, char), tokenizer, exact=False)
            case.count('fuzzy')
        else:
            judge(case, 'ы%sz%s%s1' % (char, char, char), tokenizer)
        case.count('code_points')


ALPHABETS = {
    'RU': 'абвгдеёжийъыьэюяАБВЁЯ',
    'LATIN': 'abcxyzABCXYZ',
    'INT': '0123456789٣٤３',
    'PUNCT': '-\\/!#$%&()[]*+,.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”',
    'EOL': '\n\r',
    'OTHER': '€😀中é±°™ßΔñ’—–•\u200b\ufeff\u0301\ud800\udfff\U0001F468\u200d\x00\x07\x7f©²½',
    'SPACE': ' \t\u00a0\u2003\u3000\x0b\x0c\x85\u2028\x1c\u1680',
}


def random_texts(case):
    rng = case.rng
    kind = rng.choice(['mixed', 'mixed', 'runs', 'two', 'sentence', 'any', 'long'])
    if case.i % 250 == 0:
        kind = 'huge'
    names = list(ALPHABETS)
    if kind == 'mixed':
        text = ''.join(rng.choice(ALPHABETS[rng.choice(names)]) for _ in range(rng.randint(0, 40)))
    elif kind == 'runs':
        text = ''.join(
            ''.join(rng.choice(ALPHABETS[name]) for _ in range(rng.randint(1, 6)))
            for name in (rng.choice(names) for _ in range(rng.randint(1, 10)))
        )
    elif kind == 'two':
        pair = rng.sample(names, 2)
        text = ''.join(rng.choice(ALPHABETS[rng.choice(pair)]) for _ in range(rng.randint(1, 30)))
        case.value('class_pairs', tuple(sorted(pair)))
    elif kind == 'sentence':
        text = words.sentence(rng, rng.randint(1, 20), tight=rng.choice([0, 0.5, 1]))
    elif kind == 'any':
        text = ''.join(chr(rng.choice([rng.randrange(0x250), rng.randrange(0x3000), rng.randrange(0x110000)]))
                       for _ in range(rng.randint(1, 30)))
    elif kind == 'huge':
        # runs of up to 70000 characters, texts of up to 20000 tokens
        case.count('huge')
        name = rng.choice(names)
        if rng.random() < 0.5:
            run = ''.join(rng.choice(ALPHABETS[name]) for _ in range(50)) * rng.choice([30, 100, 1400])
            text = 'a1' + run + 'б' + rng.choice(ALPHABETS[rng.choice(names)]) + '2'
        else:
            text = ''.join(rng.choice(ALPHABETS[rng.choice(names)]) for _ in range(rng.choice([300, 3000, 30000])))
    else:
        text = ''.join(
            rng.choice(ALPHABETS[name]) * rng.randint(1, 300)
            for name in (rng.choice(names) for _ in range(rng.randint(1, 20)))
        )
    case.note(ascii(text[:500]))
    exact = not any(ref.fuzzy(_) for _ in text)
    tokenizer = plain_tokenizer() if rng.random() < 0.7 else morph_tokenizer()
    tokens = judge(case, text, tokenizer, exact)
    if tokenizer is morph_tokenizer():
        case.equal([ref.token_key(_, False) for _ in tokens],
                   [ref.token_key(_, False) for _ in plain_tokenizer()(text)], 'tokens without morphology')
    case.count('texts')
    case.count('tokens', len(tokens))
    for token in tokens:
        case.value('types', token.type)
    if len({_.type for _ in tokens}) > 1:
        case.seen(text)
    case.sample(ascii(text[:100]))


def pieces(case):
    """Tokens of a text do not depend on what is around, up to runs: cutting
    at a change of class gives the same tokens"""
    rng = case.rng
    parts = []
    previous = None
    for _ in range(rng.randint(2, 8)):
        name = rng.choice([_ for _ in ALPHABETS if _ != previous])
        parts.append(''.join(rng.choice(ALPHABETS[name]) for _ in range(rng.randint(1, 5))))
        previous = name
    text = ''.join(parts)
    case.note(ascii(text))
    if any(ref.fuzzy(_) for _ in text):
        raise Skip
    tokenizer = plain_tokenizer()
    joined = []
    offset = 0
    for part in parts:
        for token in tokenizer(part):
            joined.append((token.value, token.span.start + offset, token.span.stop + offset, token.type))
        offset += len(part)
    case.equal([ref.token_key(_, False) for _ in judge(case, text, tokenizer)], joined, 'tokens of the pieces')
    case.count('texts')


def books(case):
    """Texts of hundreds of thousands of characters"""
    rng = case.rng
    size = rng.choice([140000, 300000, 600000, 1200000])
    kind = rng.choice(['words', 'period', 'one', 'mixed'])
    if kind == 'words':
        line = words.sentence(rng, 40, tight=0.3) + '\n'
        text = ' '.join([line] * (size // len(line)))
    elif kind == 'period':
        # every position is on the edge of a token sooner or later
        line = 'a' * rng.choice([2, 6, 10, 100]) + rng.choice([' ', '1', '-', '\n'])
        text = line * (size // len(line))
    elif kind == 'one':
        text = rng.choice(ALPHABETS[rng.choice(['RU', 'LATIN', 'INT'])]) * size
    else:
        alphabet = ''.join(ALPHABETS.values())
        text = ''.join(rng.choice(alphabet) for _ in range(200)) * (size // 200)
    case.note('%s, %d characters: %a' % (kind, len(text), text[:200]))
    tokens = judge(case, text, plain_tokenizer(), not any(ref.fuzzy(_) for _ in set(text)))
    case.count('book_tokens', len(tokens))
    case.value('book_sizes', (kind, size))


WORKLOADS = [
    W('books', books, 8, 60),
    W('code_points', code_points, 272, 272),
    W('random', random_texts, 6000, 150000),
    W('pieces', pieces, 1500, 30000),
]
