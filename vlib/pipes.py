"""Random dictionary lines and texts for pipelines."""
from . import ref, words
from .gram import Pipe, lex

STEMS = ['дом', 'книга', 'новый', 'красный', 'стать', 'сталь', 'печь', 'мыло', 'директор', 'город',
         'москва', 'иван', 'саша', 'мария', 'бырдык', 'зюзюка', 'вода', 'час', 'два', 'они', 'иду']
OTHERS = ['IBM', 'abc', 'Ok', '5', '007', '42', '-', '№', '.', ',', '%', '€', '(', 'ß', 'é', '中']

_lexemes = {}


def lexeme(word):
    """Word forms of all analyses"""
    if word not in _lexemes:
        result = []
        for form in ref.analyses(word)[:4]:
            for item in form.raw.lexeme:
                if item.word not in result and len(lex(item.word)) == 1:
                    result.append(item.word)
        _lexemes[word] = result or [word]
    return _lexemes[word]


def unit(rng, inflect=0.3):
    if rng.random() < 0.75:
        word = rng.choice(STEMS)
        if rng.random() < inflect:
            word = rng.choice(lexeme(word))
    else:
        word = rng.choice(OTHERS)
    return word


def glue(rng, values):
    """Text that is tokenized to values"""
    parts = []
    previous = None
    for value in values:
        if previous is not None:
            classes = ref.char_class(previous[-1]), ref.char_class(value[0])
            if classes[0] == classes[1] and classes[0] in ref.RUNS or rng.random() < 0.75:
                parts.append(rng.choice([' ', ' ', ' ', '  ', '\t']))
        parts.append(value)
        previous = value
    return ''.join(parts)


def lines(rng, size=None):
    """Lines that repeat, share beginnings and are prefixes of one another"""
    result = []
    for _ in range(size or rng.randint(1, 6)):
        x = rng.random()
        if result and x < 0.15:
            values = [_[0] for _ in lex(rng.choice(result))]
            if rng.random() < 0.5:
                values = [rng.choice([str.upper, str.lower, str.capitalize, mixed(rng)])(_) for _ in values]
        elif result and x < 0.4:
            values = [_[0] for _ in lex(rng.choice(result))]
            if rng.random() < 0.5 and len(values) > 1:
                values = values[:rng.randint(1, len(values) - 1)]
            else:
                values = values[:rng.randint(1, len(values))] + [unit(rng)]
        elif result and x < 0.5:
            # another form of the same words
            values = [
                rng.choice(lexeme(_[0].lower())) if _[3] == 'RU' else _[0]
                for _ in lex(rng.choice(result))
            ]
        else:
            values = [unit(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
            if rng.random() < 0.2:
                values = [_.upper() for _ in values]
            elif rng.random() < 0.2:
                values[0] = values[0].capitalize()
        line = glue(rng, values)
        if lex(line):
            result.append(line)
    return result


def pipe(rng, kinds=('', 'caseless', 'morph', 'morph')):
    return Pipe(rng.choice(kinds), lines(rng))


def mixed(rng):
    def function(value):
        return ''.join(rng.choice([_.upper(), _.lower()]) for _ in value)
    return function


def vary(rng, kind, values):
    """Tokens of a line as they may occur in a text"""
    result = []
    for value in values:
        x = rng.random()
        if x < 0.45:
            pass
        elif x < 0.7 and kind != '':
            value = rng.choice([str.upper, str.lower, str.capitalize, mixed(rng)])(value)
        elif ref.char_class(value[0]) == 'RU':
            value = rng.choice(lexeme(value.lower()))
            if rng.random() < 0.3:
                value = value.capitalize()
        elif x < 0.85:
            value = value.upper()
        if not value or len(lex(value)) != 1:
            value = 'x'
        result.append(value)
    return result


def text(rng, pipes, size=2):
    """Text around lines of the pipelines"""
    values = []
    for _ in range(rng.randint(1, size)):
        if rng.random() < 0.3:
            values.append(unit(rng))
        item = rng.choice(pipes)
        if item.lines:
            part = [_[0] for _ in lex(rng.choice(item.lines))]
            values.extend(vary(rng, item.kind, part))
        x = rng.random()
        if x < 0.15 and values:
            del values[rng.randrange(len(values))]
        elif x < 0.3:
            values.insert(rng.randrange(len(values) + 1), unit(rng))
    return glue(rng, values)
