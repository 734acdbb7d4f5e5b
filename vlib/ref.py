"""Reference lexer, morphology and text functions, written from the documented
behaviour and not from yargy's code."""
import re

RU = frozenset('абвгдеёжзийклмнопрстуфхцчшщъыьэюя'
               'АБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯ')
LATIN = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
PUNCT = frozenset('-\\/!#$%&()[]*+,.:;<=>?@^_`{|}~№…"\'«»„“ʼʻ”')
EOL = frozenset('\n\r')


def fuzzy(char):
    """Characters that become a Russian or Latin letter by case folding
    (long s, Kelvin sign, ...): their class is not specified."""
    if char in RU or char in LATIN:
        return False
    for other in (char.lower(), char.upper(), char.casefold(), char.title()):
        if any(_ in RU or _ in LATIN for _ in other):
            return True
    # folding of sre: ᲀ..ᲈ, İ, ı
    return char in 'İıſK' or '\u1c80' <= char <= '\u1c88'


def char_class(char):
    if char in RU:
        return 'RU'
    if char in LATIN:
        return 'LATIN'
    if char.isdecimal():
        return 'INT'
    if char in PUNCT:
        return 'PUNCT'
    if char in EOL:
        return 'EOL'
    if char.isspace():
        return None
    return 'OTHER'


RUNS = {'RU', 'LATIN', 'INT', 'EOL'}


def lex(text):
    """-> [(value, start, stop, type)]"""
    tokens = []
    index = 0
    size = len(text)
    while index < size:
        type = char_class(text[index])
        if type is None:
            index += 1
            continue
        stop = index + 1
        if type in RUNS:
            while stop < size and char_class(text[stop]) == type:
                stop += 1
        tokens.append((text[index:stop], index, stop, type))
        index = stop
    return tokens


class RForm(object):
    __slots__ = ['normal', 'grams', 'raw']

    def __init__(self, normal, grams, raw=None):
        self.normal = normal
        self.grams = grams
        self.raw = raw

    @property
    def key(self):
        return self.normal, self.grams

    def __repr__(self):
        return '%s(%s)' % (self.normal, ','.join(sorted(self.grams)))


class RTok(object):
    """Reference token."""
    __slots__ = ['value', 'start', 'stop', 'type', 'forms', 'tag', 'index']

    def __init__(self, value, start, stop, type, forms=None, tag=None, index=None):
        self.value = value
        self.start = start
        self.stop = stop
        self.type = type
        self.forms = forms
        self.tag = tag
        self.index = index

    def with_forms(self, forms):
        return RTok(self.value, self.start, self.stop, self.type, forms, self.tag, self.index)

    @property
    def normal(self):
        if self.forms is not None:
            return self.forms[0].normal
        return self.value.lower()

    def __repr__(self):
        return 'RTok(%r,%d,%d,%s)' % (self.value, self.start, self.stop, self.type)


_pymorphy = None
_words = {}


def pymorphy():
    global _pymorphy
    if _pymorphy is None:
        import yargy.morph  # patches pymorphy2 for python 3.11+
        from pymorphy2 import MorphAnalyzer
        _pymorphy = MorphAnalyzer()
    return _pymorphy


def analyses(word):
    if word not in _words:
        if len(_words) > 200000:
            _words.clear()
        _words[word] = [
            RForm(_.normal_form, frozenset(_.tag.grammemes), _)
            for _ in pymorphy().parse(word)
        ]
    return _words[word]


def normals(word):
    return {_.normal for _ in analyses(word)}


def inflect(form, grams):
    result = form.raw.inflect(set(grams))
    return result.word if result else form.normal


def tokenize(text, morph=True):
    return [
        RTok(value, start, stop, type,
             analyses(value) if morph and type == 'RU' else None,
             index=index)
        for index, (value, start, stop, type) in enumerate(lex(text))
    ]


def join(parts):
    """[(value, start, stop)] -> text, one space where there was a gap"""
    result = []
    previous = None
    for value, start, stop in parts:
        if previous is not None and start > previous:
            result.append(' ')
        result.append(value)
        previous = stop
    return ''.join(result)


# ---- observation of yargy tokens

def form_key(form):
    return form.normalized, frozenset(form.grams.values)


def token_key(token, forms=True):
    """Observable content of a yargy token."""
    key = (token.value, token.span.start, token.span.stop, token.type)
    if forms:
        items = getattr(token, 'forms', None)
        key += (None if items is None else tuple(form_key(_) for _ in items),)
        key += (getattr(token, 'tag', None),)
    return key


def rtok_key(token, forms=True):
    key = (token.value, token.start, token.stop, token.type)
    if forms:
        key += (None if token.forms is None else tuple(_.key for _ in token.forms),)
        key += (token.tag,)
    return key
