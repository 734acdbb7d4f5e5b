"""C17: gender, number, case and gnc relations follow Russian agreement."""
import json
import os
from vlib.run import W, Skip, VERIF
from vlib.gram import RelSpec, Seq, Rel, Term, Pred, describe, Derivations, first_valid, AGREEMENT
from vlib.common import morph_tokenizer, parser
from vlib import ref, words

RULE = (
    'A case compares one dictionary analysis with all others: every pair of agreement signatures '
    'of the dictionary (gender, number, case, singular-only, plural-only, indeclinable, common '
    'and general gender; 283 signatures with example words) under the 4 relations and random '
    'Boolean combinations, called directly and through parsers of two marked words. Non trivial: '
    'distinct (relation, pair of signatures).'
)
QUICK = 3
MINIMUMS = {'pairs': 80000, 'agree': 3000, 'disagree': 10000, 'parsed_pairs': 1500, 'compositions': 3000,
            'signatures': 250, 'synthetic_pairs': 20000, 'user_operands': 1000}

with open(os.path.join(VERIF, 'data', 'signatures.json'), encoding='utf8') as file:
    SIGNATURES = json.load(file)

GRAMS = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'sing', 'plur', 'Sgtm', 'Pltm', 'Fixd',
         'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen2', 'acc2', 'loc2', 'gen1', 'loc1']
KINDS = ['gender', 'number', 'case', 'gnc']


def signature(grams):
    return tuple(_ for _ in GRAMS if _ in grams)


_forms = {}


def forms():
    """signature -> actual analysis of a token"""
    if not _forms:
        tokenizer = morph_tokenizer()
        for key, items in SIGNATURES:
            for word in items:
                token, = tokenizer(word)
                for form in token.forms:
                    _forms.setdefault(signature(form.grams.values), form)
    return _forms


def judge_pair(case, relation, spec, a, b, fa, fb):
    expected = spec(ref.RForm('', frozenset(a)), ref.RForm('', frozenset(b)))
    actual = relation(fa, fb)
    case.check(bool(actual) == expected, '%s of %s (%s) and %s (%s) is %r' % (
        spec, fa.normalized, ','.join(a), fb.normalized, ','.join(b), actual))
    case.count('agree' if expected else 'disagree')
    return expected


def exhaustive(case):
    items = forms()
    keys = sorted(items)
    if case.i >= len(keys):
        raise Skip
    a = keys[case.i]
    case.value('signatures', a)
    case.note(items[a])
    for kind in KINDS:
        spec = RelSpec(kind)
        relation = spec.build()
        for b in keys:
            judge_pair(case, relation, spec, a, b, items[a], items[b])
            case.count('pairs')
            case.seen(kind, a, b)


def combination(rng, depth):
    if depth == 0 or rng.random() < 0.3:
        return RelSpec(rng.choice(KINDS))
    kind = rng.choice(['and', 'or', 'not'])
    count = 1 if kind == 'not' else rng.randint(1, 3)
    return RelSpec(kind, [combination(rng, depth - 1) for _ in range(count)])


def compositions(case):
    rng = case.rng
    spec = combination(rng, 3)
    relation = spec.build()
    case.note(spec)
    items = forms()
    keys = sorted(items)
    for _ in range(60):
        a, b = rng.choice(keys), rng.choice(keys)
        one = judge_pair(case, relation, spec, a, b, items[a], items[b])
        two = judge_pair(case, relation, spec, b, a, items[b], items[a])
        case.equal(one, two, 'symmetry')
        case.count('compositions')


def synthetic(case):
    """Analyses of other dictionaries: any set of the grammemes"""
    from yargy.morph import Form, Grams
    rng = case.rng
    base = [rng.choice([(), ('sing',), ('plur',), ('Sgtm',), ('Pltm',), ('sing', 'Sgtm'), ('plur', 'Pltm'), ('sing', 'plur'),
                        ('plur', 'Sgtm'), ('sing', 'Pltm')])
            for _ in range(12)]
    marks = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'Fixd', 'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct',
             'gen1', 'gen2', 'acc2', 'loc1', 'loc2']
    sets = [frozenset(numbers) | frozenset(rng.sample(marks, rng.choice([0, 1, 2, 2, 3]))) for numbers in base]
    items = [(signature(_), Form('x', Grams(_), None)) for _ in sets]
    for kind in KINDS:
        spec = RelSpec(kind)
        relation = spec.build()
        for a, fa in items:
            for b, fb in items:
                judge_pair(case, relation, spec, a, b, fa, fb)
                case.count('synthetic_pairs')


def operands(case):
    """Compositions of relations of the user, not symmetric ones as well"""
    from yargy import and_, or_, not_
    from yargy.relations import Relation
    rng = case.rng

    class user(Relation):
        __attributes__ = ['table']
        label = 'user'

        def __init__(self, table):
            self.table = table

        def __call__(self, form, other):
            return self.table[form, other]

    size = rng.randint(2, 4)
    pairs = [(a, b) for a in range(size) for b in range(size)]
    tables = [
        {_: rng.choice([True, False, 1, 0, None, 'yes']) for _ in pairs}
        for _ in range(3)
    ]

    def make(depth):
        x = rng.random()
        if depth == 0 or x < 0.25:
            table = rng.choice(tables)
            return user(table), lambda a, b: bool(table[a, b]), 'u%d' % tables.index(table)
        if x < 0.5:
            relation, model, text = make(depth - 1)
            return not_(relation), lambda a, b: not model(a, b), 'not_(%s)' % text
        parts = [make(depth - 1) for _ in range(rng.randint(1, 3))]
        function, test = (and_, all) if x < 0.75 else (or_, any)
        return (function(*[_[0] for _ in parts]), lambda a, b: test(_[1](a, b) for _ in parts),
                '%s(%s)' % (function.__name__, ', '.join(_[2] for _ in parts)))

    relation, model, text = make(3)
    case.note(text, tables)
    for a, b in pairs:
        actual = relation(a, b)
        case.check(bool(actual) == model(a, b), '%s of %d and %d is %r' % (text, a, b, actual))
        case.count('user_operands')


def parsed(case):
    """Two marked words in a text"""
    rng = case.rng
    spec = RelSpec(rng.choice(KINDS)) if rng.random() < 0.7 else combination(rng, 2)
    root = Seq([Rel(Term(Pred('type', 'RU')), spec), Rel(Term(Pred('type', 'RU')), spec)])
    made = parser(root, morph_tokenizer())
    pool = words.WORDS
    case.note(spec)
    for _ in range(12):
        pair = [
            rng.choice(rng.choice(SIGNATURES)[1]) if rng.random() < 0.6 else rng.choice(pool)
            for _ in range(2)
        ]
        for text in (' '.join(pair), ' '.join(reversed(pair))):
            tokens = ref.tokenize(text)
            x, y = tokens
            agree = [(f, g) for f in x.forms for g in y.forms if spec(f, g)]
            match = made.match(text)
            case.check(bool(match) == bool(agree), '%s: match of %r is %r' % (spec, text, match))
            case.count('parsed_pairs')
            if match:
                for token, kept in zip(match.tokens, zip(*agree)):
                    case.equal({ref.form_key(_) for _ in token.forms}, {_.key for _ in kept},
                               'analyses of %r in %r' % (token.value, text))


WORKLOADS = [
    W('exhaustive', exhaustive, 300, 300),
    W('compositions', compositions, 100, 4000),
    W('synthetic', synthetic, 100, 3000),
    W('operands', operands, 300, 3000),
    W('parsed', parsed, 300, 6000),
]
