"""C32: a word matched by gram() or is_single() keeps only the analyses that fit."""
from collections import Counter
from vlib.run import W, Skip
from vlib.gram import (
    describe, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd, Reading,
    first_valid, eq, Pipe
)
from vlib.gen import defined
from vlib.interp import ISpec, evaluate
from vlib.common import parser, spans_of, morph_tokenizer
from vlib import ref, words

RULE = (
    'A case is a rule of built-in terms (gram, is_single, all others, Boolean combinations, '
    'pipelines; in sequences, alternatives, repetitions) and texts of ambiguous words, some '
    'repeated. The analyses of every token of every match, in order, are compared with those of '
    'the dictionary filtered by the term of the derivation; afterwards the same words are '
    'tokenized and matched again. Non trivial: a term dropped some analyses.'
)
QUICK = 5
MINIMUMS = {'tokens': 3000, 'narrowed': 1000, 'untouched': 500, 'alternative_readings': 100, 'values': 300, 'made_up': 250}

POOL = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES + words.AMBIGUOUS + words.VERBS + words.FIXED
MIXED = POOL + POOL + words.ANY


def term(rng, depth=1):
    x = rng.random()
    if x < 0.5:
        return Pred('gram', rng.choice(words.GRAMS if rng.random() < 0.4 else
                                       ['NOUN', 'ADJF', 'sing', 'plur', 'nomn', 'gent', 'accs', 'VERB', 'Name', 'masc', 'femn', 'inan']))
    if x < 0.65:
        return Pred('is_single')
    if depth and x < 0.8:
        kind = rng.choice(['and', 'or', 'not'])
        return Pred(kind, subs=[term(rng, 0) for _ in range(1 if kind == 'not' else 2)])
    return words.simple_pred(rng, POOL)


def judge(case, root, texts, tokenizer=None, tokenize=ref.tokenize):
    if not defined(root):
        raise Skip
    listing = describe(root)
    case.note(*listing)
    tokenizer = tokenizer or morph_tokenizer()
    made = parser(root, tokenizer)
    for text in texts:
        tokens = tokenize(text)
        derivations = Derivations(root, tokens, limit=400)
        derivations.load(1200)
        case.notes.append('text %r' % text)
        expected = Counter()
        first = {}
        for i, j in derivations.spans():
            for derivation in derivations.run(i, j):
                reading = Reading(derivation, tokens)
                key = tuple(ref.rtok_key(_) for _ in reading.rtokens())
                expected[i, j, key] += 1
                first.setdefault((i, j), key)
        if len(set((i, j) for i, j, _ in expected)) < len(expected):
            case.count('alternative_readings')
        matches = list(made.extract(text))
        actual = Counter(
            (i, j, tuple(ref.token_key(_) for _ in match.tokens))
            for match, (i, j) in zip(matches, spans_of(matches, tokens))
        )
        case.ok()
        if actual != expected:
            case.fail('extract: missing %s, unexpected %s' % (
                list((expected - actual).items())[:2], list((actual - expected).items())[:2]))
        matches = list(made.findall(text))
        for match, (i, j) in zip(matches, spans_of(matches, tokens)):
            keys = tuple(ref.token_key(_) for _ in match.tokens)
            case.equal(keys, first[i, j], 'tokens in findall')
            for token, source in zip(match.tokens, tokens[i:j]):
                if source.forms is None:
                    continue
                case.count('tokens')
                if len(token.forms) < len(source.forms):
                    case.count('narrowed')
                    case.seen(listing, source.value)
                else:
                    case.count('untouched')
        match = made.match(text)
        if match:
            case.equal(tuple(ref.token_key(_) for _ in match.tokens), first[0, len(tokens)], 'tokens in match()')
        case.equal([ref.token_key(_) for _ in tokenizer(text)], [ref.rtok_key(_) for _ in tokens],
                   'text tokenized again')
        case.notes.pop()
    case.sample({'rule': listing, 'texts': texts})


def texts_of(rng, size, pool=MIXED):
    result = [words.sentence(rng, rng.randint(1, size), pool, tight=0.05) for _ in range(3)]
    few = rng.sample(POOL, 2)
    result.append(' '.join(rng.choice(few) for _ in range(rng.randint(2, size + 1))))
    return result


def sequences(case):
    rng = case.rng
    size = rng.randint(1, 3)
    root = Seq([Term(term(rng)) for _ in range(size)])
    judge(case, root, texts_of(rng, size + 1))


def shapes(case):
    rng = case.rng

    def part(depth):
        x = rng.random()
        if depth <= 0 or x < 0.4:
            return Term(term(rng))
        if x < 0.6:
            return Seq([part(depth - 1) for _ in range(rng.randint(1, 2))])
        if x < 0.8:
            return Or([part(depth - 1) for _ in range(2)])
        if x < 0.88:
            return Opt(Seq([part(depth - 1)]))
        if x < 0.95:
            return Rep(Seq([part(depth - 1)]), max=rng.choice([None, 2, 3]))
        return Pipe('morph', [rng.choice(POOL) for _ in range(2)])

    judge(case, Seq([part(2)]), texts_of(rng, 4))


class Record(object):
    """Made up analysis"""
    class Tag(object):
        def __init__(self, grammemes):
            self.grammemes = frozenset(grammemes)

    def __init__(self, word, normal, grammemes):
        self.word = word
        self.normal_form = normal
        self.tag = self.Tag(grammemes)

    def inflect(self, grams):
        return


class AnyTag(object):
    @staticmethod
    def grammeme_is_known(gram):
        return True


MARKS = ['sing', 'plur', 'Sgtm', 'Pltm', 'NOUN', 'masc', 'femn', 'nomn', 'Fixd', 'LATN']


def made_up(case):
    """Analyses with every combination of marks, also contradictory ones"""
    from yargy.morph import MorphAnalyzer
    from yargy.tokenizer import MorphTokenizer
    rng = case.rng
    table = {}
    for word in ['а', 'б', 'вв', 'г']:
        table[word] = [
            Record(word, rng.choice([word, 'я', 'ю']), [_ for _ in MARKS[:rng.choice([2, 4, 4, 10])] if rng.random() < 0.45])
            for _ in range(rng.choice([1, 2, 3, 3, 5, 9]))
        ]

    class Raw(object):
        TagClass = AnyTag

        def parse(self, word):
            return table[word]

    def tokenize(text):
        return [
            ref.RTok(value, start, stop, type, [
                ref.RForm(_.normal_form, _.tag.grammemes, _) for _ in table[value]] if type == 'RU' else None,
                index=index)
            for index, (value, start, stop, type) in enumerate(ref.lex(text))
        ]

    def pick(depth=1):
        x = rng.random()
        if x < 0.45:
            return Pred('is_single')
        if x < 0.8 or not depth:
            return Pred('gram', rng.choice(MARKS))
        if x < 0.85:
            return Pred('type', 'RU')
        kind = rng.choice(['and', 'or', 'not'])
        return Pred(kind, subs=[pick(0) for _ in range(1 if kind == 'not' else 2)])

    root = Seq([Term(pick()) for _ in range(rng.choice([1, 1, 2]))])
    if rng.random() < 0.3:
        root = Or([root, Seq([Term(pick())])])
    case.note(*['%s: %s' % (word, [(_.normal_form, sorted(_.tag.grammemes)) for _ in items]) for word, items in table.items()])
    case.count('made_up')
    texts = [' '.join(rng.choice(sorted(table)) for _ in range(rng.randint(1, 4))) for _ in range(3)]
    judge(case, root, texts, MorphTokenizer(morph=MorphAnalyzer(Raw())), tokenize)


def words_alone(case):
    """Every word with every grammeme it has: several parsers share a word"""
    rng = case.rng
    word = words.recase(rng, POOL[case.i % len(POOL)])
    forms = ref.analyses(word)
    grams = sorted({gram for form in forms for gram in form.grams})
    rng.shuffle(grams)
    made = [(Pred('gram', gram), None) for gram in grams[:5]] + [(Pred('is_single'), None), (Pred('type', 'RU'), None)]
    made = [(pred, parser(Seq([Term(pred)]), morph_tokenizer())) for pred, _ in made]
    rng.shuffle(made)
    kept = []
    token = ref.tokenize(word)[0]
    for pred, item in made:
        case.note(pred, word)
        match = item.match(word)
        case.check(bool(match) == pred.test(token), 'match of %r by %s is %r' % (word, pred, match))
        if match:
            kept.append((match, pred))
            if len(match.tokens[0].forms) < len(forms):
                case.seen(pred, word)
                case.count('narrowed')
    for match, pred in kept:
        case.equal(ref.token_key(match.tokens[0]), ref.rtok_key(pred.constrain(token)), 'token matched by %s' % pred)
        case.count('tokens')


def values(case):
    """Values use the remaining analyses"""
    rng = case.rng
    pred = term(rng, 0)
    chain = rng.choice([[('normalized',)], [('inflected', None)], [('inflected', frozenset({'gent'}))]])
    node = Term(pred)
    relation = RelSpec(rng.choice(['number', 'case', 'gnc']))
    if rng.random() < 0.3:
        node = Seq([Rel(node, relation), Rel(Term(term(rng, 0)), relation)])
    root = Interp(Seq([node]), ISpec('norm', chain=chain))
    listing = describe(root)
    case.note(*listing)
    made = parser(root, morph_tokenizer())
    for text in texts_of(rng, 3, POOL):
        tokens = ref.tokenize(text)
        derivations = Derivations(root, tokens)
        case.notes.append('text %r' % text)
        matches = list(made.findall(text))
        for match, (i, j) in zip(matches, spans_of(matches, tokens)):
            reading = first_valid(derivations.run(i, j), tokens)
            if reading.marked:
                case.equal([{ref.form_key(_) for _ in _.forms} for _ in match.tokens],
                           [{_.key for _ in _.forms} for _ in reading.rtokens()], 'analyses after agreement')
                continue
            case.equal(match.fact, evaluate(reading.derivation, reading).final, 'value')
            case.count('values')
        case.notes.pop()


WORKLOADS = [
    W('sequences', sequences, 600, 9000),
    W('shapes', shapes, 600, 9000),
    W('words', words_alone, 400, 4000),
    W('values', values, 400, 6000),
    W('made_up', made_up, 600, 9000),
]
