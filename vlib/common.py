"""Shared helpers of checks."""
from . import ref
from .gram import build, describe, Recognizer, Derivations, eq
from .run import Skip

_tokenizers = {}


def plain_tokenizer():
    from yargy.tokenizer import Tokenizer
    if 'plain' not in _tokenizers:
        _tokenizers['plain'] = Tokenizer()
    return _tokenizers['plain']


def morph_tokenizer():
    from yargy.tokenizer import MorphTokenizer
    if 'morph' not in _tokenizers:
        _tokenizers['morph'] = MorphTokenizer()
    return _tokenizers['morph']


def parser(node, tokenizer=None, tagger=None, **args):
    from yargy import Parser
    return Parser(build(node, **args), tokenizer or plain_tokenizer(), tagger)


def text_of(values):
    return ' '.join(values)


def spans_of(matches, tokens):
    """Token ranges of matches, by character positions."""
    starts = {_.start: index for index, _ in enumerate(tokens)}
    stops = {_.stop: index + 1 for index, _ in enumerate(tokens)}
    return [
        (starts[match.span.start], stops[match.span.stop])
        for match in matches
    ]


def max_coverage(spans):
    """Largest number of tokens covered by disjoint spans: brute dynamic
    programme over positions."""
    if not spans:
        return 0
    size = max(stop for _, stop in spans)
    best = [0] * (size + 1)
    by_stop = {}
    for start, stop in spans:
        by_stop.setdefault(stop, []).append(start)
    for position in range(1, size + 1):
        best[position] = best[position - 1]
        for start in by_stop.get(position, []):
            best[position] = max(best[position], best[start] + position - start)
    return best[size]


LETTERS = ['a', 'b', 'c']
LITERALS = [eq(_) for _ in LETTERS]

MIXED = ['a', 'b', 'c', '\n', '\r\n', '1', '07', '-', '.', '«', 'дом', 'Дом', 'A', 'ab', '№', '😀', '%']


def alphabet(rng, rate=0.3):
    """(letters, literals) of three, sometimes of all types and with line breaks"""
    if rng.random() < rate:
        letters = rng.sample(MIXED, 3)
        return letters, [eq(_) for _ in letters]
    return LETTERS, LITERALS
