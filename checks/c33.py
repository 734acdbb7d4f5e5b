"""C33: a match depends only on the tokens it covers."""
import collections
import re

from vlib.run import W, Skip
from vlib.gram import (
    describe, Derivations, Named, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Interp, Pipe, walk, eq
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.facts import FactRules, texts
from vlib.interp import ISpec, FactSpec
from vlib.common import parser, text_of, morph_tokenizer, plain_tokenizer, alphabet, LETTERS, LITERALS
from vlib.observe import freeze, freeze_json
from vlib import ref, words, pipes

RULE = (
    'A case is a rule (annotated, ambiguous, with agreement, with pipelines) and texts. Every match '
    'of findall() is cut out of its text and given to match() alone and inside of blanks; the text '
    'is rewritten with other white space; texts are joined with a token the rule knows nothing '
    'about into documents of 2 to 300 texts. Span, tokens, analyses, tree, fact, JSON and fact '
    'spans must be the same up to the shift. Non trivial: document with matches in several texts.'
)
TECHNIQUE = 'runtime monitoring: metamorphic monitor, results on parts of a text vs results on the whole'
QUICK = 1.3
MINIMUMS = {'cut': 800, 'documents': 400, 'document_matches': 5000, 'long_documents': 40, 'long_tokens': 10000,
            'respaced': 400, 'facts': 1500, 'extracts': 100, 'long_phrases': 10, 'greedy': 8}


def shift(item, origin):
    """Positions of a span relative to the origin"""
    return item.start - origin, item.stop - origin


def view(match, origin=0, facts=True, bare=False):
    """Image of a match; bare: without positions and white space"""
    place = (lambda _: None) if bare else (lambda _: shift(_, origin))
    clean = squeeze if bare else (lambda _: _)

    def token(item):
        key = ref.token_key(item, True)
        return (key[0], place(item.span), item.type, key[4:])

    def visit(node):
        children = list(node.children)
        if not children:
            return token(node.token)
        return (node.label, tuple(visit(_) for _ in children))

    result = [place(match.span), tuple(token(_) for _ in match.tokens), visit(match.tree.root)]
    if facts:
        try:
            value = match.fact
        except (TypeError, ValueError) as error:
            result.append(('error', type(error).__name__))
        else:
            result.append(clean(freeze(value)))
            if hasattr(value, 'as_json'):
                result.append(clean(freeze_json(value.as_json)))
                result.append(tuple(place(_) for _ in value.spans))
    return tuple(result)


def squeeze(item):
    if isinstance(item, str):
        return re.sub(r'\s+', '', item)
    if isinstance(item, tuple):
        return tuple(squeeze(_) for _ in item)
    if isinstance(item, list):
        return [squeeze(_) for _ in item]
    return item


SEPARATORS = ['@', '=', 'qqq', '99999', '¶', 'ъъ', '~', 'Zz', '\n']


def separator(rng, root, items=SEPARATORS):
    """Token that no term of the rule accepts (line breaks join with line
    breaks of the texts, so these get other separators)"""
    items = list(items)
    rng.shuffle(items)
    nodes = list(walk(root))
    for value in items:
        token, = ref.tokenize(value)
        if any(isinstance(_, Term) and _.pred.test(token) for _ in nodes):
            continue
        if any(isinstance(_, Pipe) and any(_.accepts(part, token) for key in _.keys for part in key) for _ in nodes):
            continue
        return value


def respace(rng, text, tokens):
    """Same tokens, other white space"""
    parts = [rng.choice(['', ' ', '\t  '])]
    for one, other in zip(tokens, tokens[1:] + [None]):
        parts.append(one.value)
        gap = other and text[one.stop:other.start]
        if gap == '' and rng.random() < 0.6:
            continue
        if other is None:
            parts.append(rng.choice(['', ' ', '   ']))
        else:
            parts.append(rng.choice([' ', '  ', '\t', '\u00a0', ' \t ', ' ' * 20]))
    return ''.join(parts)


def values_of(text):
    return [_.value for _ in ref.tokenize(text, morph=False)]


def judge(case, root, items, tokenizer=None, facts=True, respaced=True, limit=1500, long=False):
    if not defined(root) or not items:
        raise Skip
    rng = case.rng
    morph = tokenizer is None
    for text in items:
        if limit:
            Derivations(root, ref.tokenize(text, morph=morph), limit=300).load(limit)
    listing = describe(root)
    case.note(*listing)
    case.note('texts %r' % items)
    made = parser(root, tokenizer or morph_tokenizer())
    found = {}
    for text in items:
        found[text] = [view(_, 0, facts) for _ in made.findall(text)]
        case.count('facts', len(found[text]) if facts else 0)

    # parts of a text
    for text in items:
        for match, expected in zip(made.findall(text), found[text]):
            start, stop = match.span.start, match.span.stop
            part = text[start:stop]
            if values_of(part) != [_.value for _ in match.tokens]:
                continue
            case.notes.append('part %r of %r' % (part, text))
            wanted = view(match, start, facts)
            alone = made.match(part)
            case.check(alone is not None, 'match() is None')
            case.equal(view(alone, 0, facts), wanted, 'match() of the part alone')
            before = rng.choice(['', ' ', '\t\u00a0', '     '])
            padded = made.match(before + part + rng.choice(['', ' ', '  ']))
            case.check(padded is not None, 'match() is None inside of blanks')
            case.equal(view(padded, len(before), facts), wanted, 'match() of the part inside of blanks')
            case.equal(expected, view(match, 0, facts), 'the same call again')
            case.count('cut')
            case.notes.pop()

    # white space
    if respaced:
        for text in items:
            other = respace(rng, text, ref.tokenize(text, morph=False))
            if values_of(other) != values_of(text):
                continue
            case.notes.append('%r rewritten as %r' % (text, other))
            case.equal(
                [view(_, 0, facts, True) for _ in made.findall(other)],
                [view(_, 0, facts, True) for _ in made.findall(text)],
                'matches'
            )
            case.count('respaced')
            case.notes.pop()

    # documents
    mark = separator(rng, root, [_ for _ in SEPARATORS if _ != '\n'] if any(set(_) & set('\n\r') for _ in items) else SEPARATORS)
    if mark is None:
        case.count('no_separator')
        return
    for kind in ['short', 'short'] + ['long'] * long:
        number = rng.randint(2, 5) if kind == 'short' else rng.choice([20, 60, 150, 300])
        picked = [rng.choice(items) for _ in range(number)]
        text, places = '', []
        if rng.random() < 0.5:
            text = mark + ' '
        for index, item in enumerate(picked):
            if index:
                text += ' ' + mark + ' '
            places.append(len(text))
            text += item
        if rng.random() < 0.3:
            text += ' ' + mark
        if '\n' in mark and rng.random() < 0.5:
            text += '\n\n'
        case.notes.append('document %r' % (text if len(text) < 500 else [mark, picked[:40]]))
        actual = list(made.findall(text))
        starts = iter(actual)
        for item, place in zip(picked, places):
            for wanted in found[item]:
                match = next(starts, None)
                case.check(match is not None, 'findall() has %d matches, texts of the document have %d' % (
                    len(actual), sum(len(found[_]) for _ in picked)))
                got = view(match, place, facts)
                case.equal(got, wanted, 'match of %r at %d, shifted back' % (item, place))
                case.count('document_matches')
        case.check(next(starts, None) is None, 'findall() has %d matches, texts of the document have %d' % (
            len(actual), sum(len(found[_]) for _ in picked)))
        first = made.find(text)
        case.equal(first and view(first, 0, facts), actual[0] and view(actual[0], 0, facts) if actual else None, 'find()')
        case.count('documents')
        if kind == 'long':
            case.count('long_documents')
            case.count('long_tokens', len(ref.tokenize(text, morph=False)))
        elif rng.random() < 0.3:
            bag = collections.Counter(view(_, 0, False) for _ in made.extract(text))
            wanted = collections.Counter()
            for item, place in zip(picked, places):
                wanted.update(view(_, -place, False) for _ in made.extract(item))
            case.equal(bag, wanted, 'matches of extract()')
            case.count('extracts')
        if sum(bool(found[_]) for _ in picked) > 1:
            case.seen(listing, text)
        case.notes.pop()
    case.sample({'rule': listing, 'texts': items, 'separator': mark})


def annotated(case):
    rng = case.rng
    # functions of the length of a text see white space
    plain = rng.random() < 0.5
    chains = ['none', 'none', 'const', 'normalized', 'inflected'] if plain else None
    rules = FactRules(rng, relations=rng.choice([0, 0.25]), **({'chains': chains} if plain else {}))
    root = rules.root(rng.choice([1, 2]))
    judge(case, root, texts(rng, root, rng.randint(2, 4)), respaced=plain and not any(
        isinstance(_, Interp) and any(step[0] == 'custom' for step in getattr(_.spec, 'chain', None) or ()) for _ in walk(root)))


def ambiguous(case):
    rng = case.rng
    letters, literals = alphabet(rng, 0.5)
    grammars = Grammars(rng, literals[:rng.choice([1, 2, 3])], depth=rng.choice([2, 3]), share=0.2,
                        forward=rng.choice([0, 0.15]), named=0.3, reverse=0.3, empty=0.03)
    root = grammars.root()
    judge(case, root, [text_of(_) for _ in literal_texts(rng, root, letters, 4, 5)], plain_tokenizer(), facts=False)


def agreement(case):
    rng = case.rng
    F = FactSpec('F', [('a', None, False), ('b', None, False), ('r', None, True)])
    relations = [RelSpec(rng.choice(['gnc', 'number', 'case', 'gender'])) for _ in range(2)]

    def part(gram):
        node = Term(Pred('gram', gram))
        if rng.random() < 0.8:
            node = Rel(node, rng.choice(relations))
        steps = rng.choice([[], [('normalized',)], [('inflected', frozenset({'gent'}))], [('inflected', None)]])
        return Interp(node, ISpec('attr', F, rng.choice('ab'), steps))

    alternatives = []
    for _ in range(rng.randint(1, 3)):
        items = [part(rng.choice(['ADJF', 'NOUN', 'Name', 'Surn'])) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3:
            items[rng.randrange(len(items))] = Opt(items[0])
        alternatives.append(Seq(items))
    root = Interp(Or(alternatives), ISpec('fact', F))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES
    judge(case, root, [words.sentence(rng, rng.randint(1, 5), pool, tight=0.1) for _ in range(4)])


def lines(case):
    rng = case.rng
    made = [pipes.pipe(rng) for _ in range(rng.choice([1, 2]))]
    F = FactSpec('F', [('a', None, False), ('r', None, True)])
    item = Or([Interp(_, ISpec('attr', F, 'a', rng.choice([[('normalized',)], []]))) for _ in made]) \
        if len(made) > 1 else Interp(made[0], ISpec('attr', F, 'a', [('normalized',)]))
    items = [pipes.text(rng, made, 3) for _ in range(4)]
    if rng.random() < 0.3:
        # nothing but the pipeline
        root = rng.choice([made[0], Or(made), Interp(made[0], ISpec('norm', chain=[('normalized',)])), Named(made[0], 'P')])
        judge(case, root, items, facts=False)
        return
    root = Interp(rng.choice([item, Rep(Seq([item]), max=3), Seq([Opt(Term(Pred('type', 'INT'))), item])]), ISpec('fact', F))
    judge(case, root, items)


def documents(case):
    """Documents of hundreds of texts"""
    rng = case.rng
    F = FactSpec('F', [('a', None, False), ('b', None, False), ('r', None, True)])
    relation = RelSpec(rng.choice(['gnc', 'number', 'case']))
    noun = lambda: Interp(Rel(Term(Pred('gram', 'NOUN')), relation), ISpec('attr', F, 'a', rng.choice([[], [('normalized',)], [('inflected', None)]])))
    adjective = lambda: Interp(Rel(Term(Pred('gram', 'ADJF')), relation), ISpec('attr', F, 'b'))
    number = lambda: Interp(Interp(Term(Pred('type', 'INT')), ISpec('norm', chain=[('custom', 'first')])), ISpec('attr', F, 'r'))
    kind = rng.choice(['phrase', 'number', 'mixed', 'pipeline', 'overlap', 'wide', 'greedy', 'greedy'])
    if kind == 'phrase':
        root = Seq([adjective(), noun()])
    elif kind == 'number':
        root = Seq([number(), Opt(Rep(Seq([Term(eq('-')), number()])))])
    elif kind == 'mixed':
        root = Or([Seq([Opt(adjective()), noun()]), Rep(number())])
    elif kind == 'pipeline':
        root = Seq([Opt(number()), Interp(pipes.pipe(rng), ISpec('attr', F, 'a', [('normalized',)]))])
    elif kind == 'greedy':
        # a shorter match may leave more to the next one
        values = rng.sample(['а', 'б', 'в', 'г', 'ab', '5'], rng.choice([3, 4, 5]))
        lines = [[rng.choice(values) for _ in range(rng.choice([1, 2, 2, 3, 4]))] for _ in range(rng.choice([3, 5, 8]))]
        lines += [_[:-1] for _ in lines if len(_) > 1 and rng.random() < 0.7]
        rng.shuffle(lines)
        root = Or([Seq([Term(eq(_)) for _ in line]) for line in lines])
    elif kind == 'wide':
        # a hundred alternatives, also the last ones
        values = ['слово' + 'абвгдежзик'[_ % 10] + 'лмнопрстуф'[_ // 10] for _ in range(rng.choice([20, 70, 100]))]
        root = Or([Interp(Term(eq(_)), ISpec('attr', F, 'a')) if rng.random() < 0.8 else Seq([Term(eq(_)), Opt(number())]) for _ in values])
    else:
        root = Or([Seq([number(), noun()]), Seq([noun(), number()]), Seq([adjective(), noun()])])
    root = Interp(root, ISpec('fact', F))
    pool = words.ADJECTIVES + words.NOUNS + words.NUMBERS + ['-']
    items = [words.sentence(rng, rng.randint(1, 4), pool, tight=0) for _ in range(5)]
    inner = [_ for _ in walk(root) if isinstance(_, Pipe)]
    if inner:
        items = [pipes.text(rng, inner) for _ in range(5)]
    if kind == 'wide':
        items = [' '.join(rng.choice([values[0], values[-1], rng.choice(values), rng.choice(values), '5'])
                          for _ in range(rng.randint(1, 4))) for _ in range(5)]
        case.count('wide')
    if kind == 'greedy':
        items = [' '.join(rng.choice(values) for _ in range(rng.randint(2, 7))) for _ in range(5)]
        case.count('greedy')
    judge(case, root, items, long=3 if kind == 'greedy' else 1, respaced=False)


def phrases(case):
    """Phrases of up to hundreds of tokens in brackets, in longer documents"""
    rng = case.rng
    F = FactSpec('F', [('a', None, False), ('r', None, True)])
    word = Interp(Term(Pred('type', 'RU')), ISpec('attr', F, 'r'))
    inner = rng.choice([
        lambda: Rep(word), lambda: Rep(Seq([word, Opt(Term(eq(',')))])), lambda: Rep(Or([word, Seq([word, Term(eq('-'))])])),
    ])()
    opened, closed = rng.choice([('(', ')'), ('[', ']'), ('«', '»')])
    root = Interp(Seq([Term(eq(opened)), inner, Term(eq(closed))]), ISpec('fact', F))
    items = []
    for size in rng.sample([1, 3, 30, 60, 110, 130], 3):
        items.append('%s%s%s' % (opened, ' '.join(words.word(rng, words.WORDS) for _ in range(size)), closed))
    items = [_ for _ in items if all(token.type in ('RU', 'PUNCT') for token in ref.tokenize(_, morph=False))]
    items.append(opened + closed)
    made = parser(root, morph_tokenizer())
    for text in items[:-1]:
        match, = made.findall(text)
        size = len(ref.tokenize(text, morph=False))
        case.equal(len(match.tokens), size, 'tokens of the match')
        case.count('long_phrases', size > 100)
    judge(case, root, items, limit=None, respaced=False)


WORKLOADS = [
    W('phrases', phrases, 40, 400),
    W('annotated', annotated, 500, 6000),
    W('ambiguous', ambiguous, 400, 5000),
    W('agreement', agreement, 400, 5000),
    W('lines', lines, 300, 4000),
    W('documents', documents, 110, 900),
]
