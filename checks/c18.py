"""C18: the main word of a phrase is the marked term."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd, Empty,
    Reading, Pipe, eq, walk
)
from vlib.gen import defined, Sampler
from vlib.interp import FactSpec, ISpec
from vlib.common import parser, spans_of, morph_tokenizer
from vlib import ref, words

RULE = (
    'A case is a random phrase (nested sequences with or without main(), optional terms before '
    'and after the marked one, alternatives, repetitions, recursion, names, interpretations) '
    'under a probe relation that holds between equal words only, followed by a partner word. For '
    'every word of the phrase as the partner, the text must match exactly when that word is the '
    'main word of a derivation of the model. Non trivial: distinct (phrase, text) where the main '
    'word is not the first one.'
)
MINIMUMS = {'probes': 2000, 'main_not_first': 300, 'empties_before_main': 100, 'empty_main': 50, 'two_mains': 20,
            'narrowed': 100, 'late_main': 100}

WORDS = ['дом', 'книга', 'стол', 'город', 'окно', 'красный', 'директор', 'площадь', 'машина', 'школа']


def probe():
    """Holds only for analyses of one lemma"""
    return RelSpec('custom', function=lambda a, b: a[0] == b[0])


class Phrases(object):
    def __init__(self, rng):
        self.rng = rng
        self.letters = list(WORDS)
        rng.shuffle(self.letters)
        self.names = 0
        self.spec = FactSpec('F', [('a', None, False)])
        self.open = []

    def word(self):
        # distinct words where possible: the main one is identified by its text
        if not self.letters:
            raise Skip
        return self.letters.pop()

    def term(self):
        rng = self.rng
        if rng.random() < 0.12 and len(self.letters) > 1:
            size = min(rng.choice([2, 2, 3, 4]), len(self.letters))
            return Pipe(rng.choice(['', 'caseless', 'morph']), [' '.join(self.word() for _ in range(size))])
        return Term(eq(self.word()))

    def node(self, depth):
        rng = self.rng
        x = rng.random()
        if depth <= 0 or x < 0.2:
            return self.term()
        if x < 0.65:
            return self.sequence(depth)
        if x < 0.72:
            return Or([self.node(depth - 1) for _ in range(2)])
        if x < 0.84:
            return Opt(self.plain(depth - 1), rng.random() < 0.5)
        if x < 0.9:
            return Rep(self.plain(depth - 1), max=rng.choice([None, 2, 3]), reverse=rng.random() < 0.4)
        if x < 0.94:
            self.names += 1
            return Named(self.node(depth - 1), 'N%d' % self.names)
        if x < 0.96:
            return Fwd(self.plain(depth - 1))
        if x < 0.98:
            return Interp(self.plain(depth - 1), ISpec('attr', self.spec, 'a'))
        forward = Fwd()
        forward.target = Seq([self.plain(0), Opt(forward)], main=rng.choice([None, 0, 1]))
        return forward

    def plain(self, depth):
        node = self.node(depth)
        if isinstance(node, (Opt, Rep, Fwd, Pipe)):
            node = Seq([node])
        return node

    def sequence(self, depth):
        rng = self.rng
        items = []
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 4, 6])):
            x = rng.random()
            if x < 0.3:
                items.append(Opt(self.plain(depth - 1), rng.random() < 0.6))
            elif x < 0.33:
                items.append(Empty())
            else:
                items.append(self.node(depth - 1))
        main = rng.randrange(len(items)) if rng.random() < 0.7 else None
        return Seq(items, main)


def texts_of(rng, phrase, count=3, limit=6):
    result = []
    for _ in range(count * 3):
        preds = Sampler(rng, limit)(phrase)
        if not preds:
            continue
        values = []
        for pred in preds:
            values.append(pred.arg if pred.kind == 'eq' else sorted(pred.arg)[0])
        if values not in result:
            result.append(values)
        if len(result) == count:
            break
    return result


def judge(case, phrase, limit=8):
    rng = case.rng
    if not defined(phrase):
        raise Skip
    relation = probe()
    after = rng.random() < 0.5
    partner = Rel(Term(Pred('type', 'RU')), relation)
    marked = Rel(phrase, relation)
    root = Seq([marked, Term(eq('!')), partner] if after else [partner, Term(eq('!')), marked])
    listing = describe(root)
    case.note(*listing)
    made = parser(root, morph_tokenizer())
    for values in texts_of(rng, phrase, limit=limit):
        for word in sorted(set(values)):
            parts = values + ['!', word] if after else [word, '!'] + values
            text = ' '.join(parts)
            tokens = ref.tokenize(text)
            derivations = Derivations(root, tokens, limit=400)
            derivations.load(1500)
            case.notes.append('text %r' % text)
            mains = set()
            valid = False
            for derivation in derivations.run(0, len(tokens)):
                reading = Reading(derivation, tokens)
                if reading.marked and len(reading.marked) == 2:
                    valid = valid or reading.valid
                    for node in derivation.walk():
                        if node.sym.node is marked:
                            mains.add(node.main_leaf().start - node.start)
                        if isinstance(node.sym.node, Seq):
                            skipped = [_ for _ in node.items[:node.main] if not _.leaf and _.empty]
                            case.count('empties_before_main', bool(skipped))
                            item = node.items[node.main]
                            case.count('empty_main', not item.leaf and item.empty)
                else:
                    valid = True
            match = made.match(text)
            case.check(bool(match) == valid, 'word %r %s the main word of %r, match is %r' % (
                word, 'is' if valid else 'is not', values, match))
            case.count('probes')
            if any(mains):
                case.count('main_not_first')
                case.seen(listing, values)
                case.count('late_main', max(mains) > 7)
            case.notes.pop()
    case.sample({'rule': listing, 'texts': [' '.join(_) for _ in texts_of(rng, phrase, limit=limit)]})


def random_phrases(case):
    rng = case.rng
    phrases = Phrases(rng)
    judge(case, phrases.sequence(rng.choice([1, 2, 2, 3])))


def optional_around(case):
    """One marked term among optional ones, in all combinations"""
    rng = case.rng
    phrases = Phrases(rng)
    size = rng.randint(2, 4)
    main = rng.randrange(size)
    items = []
    for index in range(size):
        node = Term(eq(phrases.word()))
        if rng.random() < 0.3:
            node = Seq([node, Opt(Term(eq(phrases.word())))] if phrases.letters else [node], main=rng.choice([None, 0]))
        if index != main or rng.random() < 0.25:
            node = Opt(node, rng.random() < 0.5)
        items.append(node)
    phrase = Seq(items, main)
    if rng.random() < 0.3:
        phrase = Seq([Opt(Term(eq(phrases.word()))), phrase] if phrases.letters else [phrase], main=None)
    judge(case, phrase)


def long_sequences(case):
    """Many terms, the marked one anywhere, some of them nested phrases"""
    rng = case.rng
    phrases = Phrases(rng)
    size = rng.choice([5, 7, 9, 10, 12, 14, 17, 25, 40, 66])
    main = rng.randrange(size)
    items = []
    for index in range(size):
        if index == main or len(phrases.letters) > 2 and rng.random() < 0.3:
            node = Term(eq(phrases.word()))
        else:
            node = Term(eq(rng.choice(',.:;-')))
        if rng.random() < 0.15:
            node = Opt(node, rng.random() < 0.5)
        items.append(node)
    case.count('long_sequences')
    judge(case, Seq(items, main if rng.random() < 0.9 else None), 100)


def agreement(case):
    """Real agreement of phrases: analyses of the main words are narrowed"""
    rng = case.rng
    relation = RelSpec(rng.choice(['gnc', 'number', 'gender', 'case']))

    def phrase(depth=1):
        items = []
        size = rng.randint(1, 3)
        main = rng.randrange(size)
        for index in range(size):
            node = Term(rng.choice([Pred('gram', 'NOUN'), Pred('gram', 'ADJF'), Pred('type', 'RU')]))
            if depth and rng.random() < 0.25:
                node = phrase(depth - 1)
            if index != main and rng.random() < 0.5:
                node = Opt(node, rng.random() < 0.5)
            items.append(node)
        return Seq(items, main if rng.random() < 0.8 else None)

    root = Seq([Rel(phrase(), relation), Rel(phrase(), relation)])
    from checks import c16
    pool = words.ADJECTIVES + words.NOUNS + words.AMBIGUOUS
    c16.judge(case, root, [words.sentence(rng, rng.randint(2, 5), pool, tight=0) for _ in range(3)])


def two_mains(case):
    """Two marks in one sequence: ValueError, wherever it is"""
    import yargy
    from yargy.relations import main
    rng = case.rng
    size = rng.randint(2, 5)
    marked = rng.sample(range(size), rng.randint(2, size))
    items = []
    for index in range(size):
        item = rng.choice([
            lambda: yargy.predicates.eq('a'), lambda: yargy.rule('a'), lambda: yargy.rule('a').optional(),
            lambda: yargy.or_(yargy.rule('a'), yargy.rule('b')), lambda: yargy.rule('a').repeatable(),
            lambda: yargy.predicates.gram('NOUN')
        ])()
        items.append(main(item) if index in marked else item)
    case.note('main() at %s of %s' % (marked, size))
    define = rng.random() < 0.3 and size > 1
    try:
        if define:
            yargy.forward().define(*items)
        else:
            yargy.rule(*items)
    except ValueError:
        case.ok()
        case.count('two_mains')
    else:
        case.fail('two main() accepted')


WORKLOADS = [
    W('random', random_phrases, 1800, 15000),
    W('optional', optional_around, 500, 8000),
    W('long', long_sequences, 400, 3000),
    W('agreement', agreement, 200, 3000),
    W('two_mains', two_mains, 60, 300),
]
