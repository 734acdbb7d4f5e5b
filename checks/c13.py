"""C13: values are the text, lemma, inflection or function value asked for."""
from vlib.run import W, Skip
from vlib.gram import describe, Seq, Or, Opt, Rep, Term, Named, Interp, Rel, RelSpec, Fwd, Pred, eq
from vlib.interp import FactSpec, ISpec, canon, canon_model
from vlib.facts import FactRules, observe, texts, features, chain, ALL_CHAINS, large, twins
from vlib.common import parser, morph_tokenizer, plain_tokenizer
from vlib import ref, words

RULE = (
    'A case is a rule whose parts are annotated with attributes and normalizers (every chain '
    'text / const / custom / normalized / inflected / combinations) and a text with varied '
    'spacing, letter case and token classes. The value and the calls of user functions are '
    'compared with an independent computation from the dictionary. Non trivial: distinct '
    '(annotation, text of the value).'
)
QUICK = 2.5
MINIMUMS = {'twins': 350, 'scaled': 80, 'values': 1500, 'calls': 300, 'chains': 8, 'fallbacks': 20, 'inflections': 300, 'spaced_values': 200, 'far_apart': 20}


def calls_key(calls):
    return sorted({(name, repr(canon(value, None))) for name, value in calls})


def model_calls_key(calls):
    return sorted({(name, repr(canon_model(value))) for name, value in calls})


def judge(case, root, items, tokenizer=None):
    listing = describe(root)
    for item in observe(case, root, items, tokenizer=tokenizer):
        fact = item.fact(case)
        if fact is None and item.error:
            continue
        values = [_.value for _ in item.match.tokens]
        case.equal(canon(fact, None), canon_model(item.model.final), 'value of %r' % values)
        case.equal(calls_key(item.calls), model_calls_key(item.expected_calls), 'calls of user functions')
        if item.calls:
            case.count('calls', len(item.calls))
        case.count('values')
        case.seen(repr(getattr(root, 'spec', '')), values)
        if isinstance(fact, str) and ' ' in fact:
            case.count('spaced_values')
    case.sample({'rule': listing, 'texts': items})


def phrases(case):
    """One annotated run of arbitrary tokens"""
    rng = case.rng
    F = FactSpec('F', [('a', None, False), ('r', None, True)])
    kind = rng.choice(['any', 'any', 'ru', 'mixed', 'constrained'])
    if kind == 'any':
        size = rng.randint(1, 6)
        item = Seq([Term(Pred('true')) for _ in range(size)])
        pool = words.ANY
    elif kind == 'ru':
        size = rng.randint(1, 4)
        item = Rep(Term(Pred('type', 'RU')), max=size)
        pool = words.WORDS
    elif kind == 'mixed':
        size = rng.randint(2, 5)
        item = Seq([Term(Pred('type', 'RU')), Rep(Term(Pred('true')), max=size)])
        pool = words.ANY
    else:
        item = Seq([Term(words.make_pred(rng, rng.choice(['gram', 'gram', 'is_single', 'normalized', 'type'])))
                    for _ in range(rng.randint(1, 2))])
        pool = words.WORDS
    steps = chain(rng, ALL_CHAINS)
    case.value('chains', tuple(_[0] for _ in steps))
    if not steps:
        spec = ISpec('attr', F, rng.choice(['a', 'r']))
    elif rng.random() < 0.5:
        spec = ISpec('attr', F, 'a', steps)
    else:
        spec = ISpec('norm', chain=steps)
    root = Interp(item, spec)
    items = []
    for _ in range(3):
        parts = [words.sentence(rng, rng.randint(1, 7), pool, tight=rng.choice([0, 0.3, 0.7]))]
        items.append(''.join(parts))
    if rng.random() < 0.02:
        # words far apart
        gap = rng.choice([' ', '\t', '\u3000']) * rng.choice([255, 1025, 65536, 70001])
        items.append(words.sentence(rng, 2, pool) + gap + words.sentence(rng, 2, pool))
        case.count('far_apart')
    judge(case, root, items)


def lemmas(case):
    """Every word of the pools with every kind of inflection"""
    rng = case.rng
    word = words.recase(rng, words.WORDS[case.i % len(words.WORDS)])
    forms = ref.analyses(word)
    grams = rng.choice([
        {'nomn'}, {'gent'}, {'datv', 'plur'}, {'plur'}, {'sing', 'ablt'}, {'nomn', 'sing'},
        {'femn'}, {'masc', 'accs'}, {'past'}, {'3per', 'sing'}, {'COMP'}, {'loct', 'plur'}, {'neut', 'gent'}
    ])
    filter = rng.choice([None, None, 'gram', 'gram', 'is_single'])
    if filter == 'gram':
        pred = Pred('gram', rng.choice(sorted(rng.choice(forms).grams)))
    elif filter == 'is_single':
        pred = Pred('is_single')
    else:
        pred = Pred('type', 'RU')
    steps = rng.choice([
        [('normalized',)], [('inflected', frozenset(grams))], [('inflected', None)],
        [('inflected', frozenset(grams)), ('custom', 'first')], [('normalized',), ('custom', 'length')],
    ])
    if ref.inflect(forms[0], grams) == forms[0].normal != word.lower():
        case.count('fallbacks')
    case.count('inflections')
    case.value('chains', tuple(_[0] for _ in steps))
    root = Interp(Seq([Term(pred)]), ISpec('norm', chain=steps))
    judge(case, root, [word, 'a ' + word + '.'])


def plain(case):
    """Tokens without analyses: normalized and inflected lower the text"""
    rng = case.rng
    steps = chain(rng, ['normalized', 'ncustom', 'custom', 'const', 'custom2'])
    root = Interp(Rep(Term(Pred('true')), max=4), ISpec('norm', chain=steps))
    from vlib.gram import Derivations
    text = words.sentence(rng, rng.randint(1, 5))
    made = parser(root, plain_tokenizer())
    tokens = ref.tokenize(text, morph=False)
    case.note(*describe(root))
    case.note(repr(text))
    from vlib.gram import first_valid
    from vlib.interp import evaluate
    from vlib.common import spans_of
    derivations = Derivations(root, tokens)
    matches = list(made.findall(text))
    for match, (i, j) in zip(matches, spans_of(matches, tokens)):
        reading = first_valid(derivations.run(i, j), tokens)
        case.equal(canon(match.fact, None), canon_model(evaluate(reading.derivation, reading).final),
                   'value on plain tokens')
        case.count('values')


def agreement(case):
    """Remaining analyses after agreement decide"""
    rng = case.rng
    relation = RelSpec(rng.choice(['gnc', 'number', 'case', 'gender']))
    F = FactSpec('F', [('a', None, False), ('b', None, False)])
    steps = lambda: rng.choice([[('normalized',)], [('inflected', None)], [('inflected', frozenset({'nomn'}))],
                                [('inflected', frozenset({'plur'}))]])
    one = Interp(Rel(Term(Pred('gram', rng.choice(['ADJF', 'Name', 'NOUN']))), relation), ISpec('attr', F, 'a', steps()))
    two = Interp(Rel(Term(Pred('gram', rng.choice(['NOUN', 'Surn', 'NOUN']))), relation), ISpec('attr', F, 'b', steps()))
    root = Interp(Seq([one, two]), ISpec('fact', F))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES + words.AMBIGUOUS
    judge(case, root, [words.sentence(rng, rng.randint(2, 4), pool, tight=0) for _ in range(4)])


def random_rules(case):
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0.1]))
    root = rules.root(depth=rng.choice([1, 2]))
    judge(case, root, texts(rng, root, 3))


def scaled(case):
    """Large facts, long and sparse parts"""
    root, items = large(case)
    judge(case, root, items)
    case.count('scaled')


def twin_parts(case):
    """Parts that are equal but not the same"""
    root = twins(case.rng)
    judge(case, root, texts(case.rng, root, 4, size=12))
    case.count('twins')


WORKLOADS = [
    W('twins', twin_parts, 300, 3600),
    W('scaled', scaled, 160, 1600),
    W('phrases', phrases, 900, 12000),
    W('lemmas', lemmas, 900, 9000),
    W('plain', plain, 200, 2000),
    W('agreement', agreement, 300, 5000),
    W('random', random_rules, 400, 6000),
]
