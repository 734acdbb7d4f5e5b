"""C08: optional and repeatable accept exactly the counts their bounds allow."""
import itertools
from vlib.run import W, Skip
from vlib.gram import (
    describe, Recognizer, Derivations, Seq, Or, Opt, Rep, Term, Named, Fwd, Interp, Empty, eq,
    is_unlimited, walk
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.common import parser, text_of, alphabet, LETTERS, LITERALS, spans_of, max_coverage
from vlib import ref

RULE = (
    'A case is a nesting of optional()/repeatable() calls with bounds and reverse flags over a '
    'base rule, used alone or inside a larger rule. Accepted numbers of repetitions are computed '
    'by composing sets of counts (base of one token) or by an independent recognizer (other '
    'bases and contexts) and compared with match() for every length. Non trivial: distinct '
    'nesting.'
)
QUICK = 1.5
MINIMUMS = {'accepted': 500, 'rejected': 500, 'nested': 200, 'contexts': 50}

TOP = 9


def plus(a, b):
    return {x + y for x in a for y in b if x + y <= TOP}


def counts(node):
    """Numbers of tokens accepted, up to TOP; base is a single token"""
    if isinstance(node, Term):
        return {1}
    if isinstance(node, Named) or isinstance(node, Seq):
        item = node.item if isinstance(node, Named) else node.items[0]
        return counts(item)
    inner = counts(node.item)
    if isinstance(node, Opt):
        return inner | {0}
    low, high = node.min or 1, node.max
    if (node.min or node.max) and is_unlimited(node.item):
        low, high = 1, None    # documented exception
    result = set()
    current = {0}
    for number in range(1, (high or TOP * 2) + 1):
        current = plus(current, inner)
        if number >= low:
            result |= current
    return result


OPERATIONS = [('opt',)] + [
    ('rep', min, max)
    for min in (None, 1, 2, 3) for max in (None, 1, 2, 3, 4)
    if not (min and max and max < min)
]


def apply(operation, node, reverse):
    if operation[0] == 'opt':
        return Opt(node, reverse)
    return Rep(node, operation[1], operation[2], reverse)


def judge_counts(case, node):
    case.note(*describe(node))
    expected = counts(node)
    made = parser(node)
    token = 'a'
    judged = 0
    for size in range(0, TOP):
        tokens = ref.tokenize(text_of([token] * size), morph=False)
        try:
            Derivations(node, tokens).load(2500)
        except Skip:
            break
        text = text_of([token] * size)
        match = made.match(text)
        case.ok()
        judged += 1
        if bool(match) != (size in expected and size > 0):
            case.fail('%d occurrences are %s, expected counts %s' % (
                size, 'accepted' if match else 'rejected', sorted(expected)))
        if match:
            case.equal(len(match.tokens), size, 'number of matched tokens')
            case.count('accepted')
        else:
            case.count('rejected')
    if judged < 3:
        raise Skip
    case.seen(describe(node))


def pairs(case):
    """Every pair of operations, all reverse flags (enumerated)."""
    total = list(itertools.product(OPERATIONS, OPERATIONS, (False, True), (False, True)))
    a, b, x, y = total[(case.i * 17 + case.seed) % len(total)]
    node = apply(b, apply(a, Term(eq('a')), x), y)
    judge_counts(case, node)
    case.count('nested')
    case.sample(describe(node))


def singles(case):
    total = list(itertools.product(OPERATIONS, (False, True)))
    a, x = total[case.i % len(total)]
    judge_counts(case, apply(a, Term(eq('a')), x))


def nested(case):
    rng = case.rng
    node = Term(eq('a'))
    for _ in range(rng.randint(3, 4)):
        node = apply(rng.choice(OPERATIONS[:1] * 4 + OPERATIONS[:12]), node, rng.random() < 0.5)
        x = rng.random()
        if x < 0.1:
            node = Named(node, 'N')
        elif x < 0.2:
            node = Seq([node])
    judge_counts(case, node)
    case.count('nested')


def contexts(case):
    """Quantified parts in larger rules, shared, over any base."""
    rng = case.rng
    letters, literals = alphabet(rng)
    base = Grammars(rng, literals, depth=rng.choice([0, 1, 1, 2]), nested=True, empty=0.05, forward=0.05).root()
    node = base
    for _ in range(rng.randint(1, 3)):
        node = apply(rng.choice(OPERATIONS[:1] * 3 + OPERATIONS), node, rng.random() < 0.5)
    other = Grammars(rng, literals, depth=1, forward=0).root()
    kind = rng.choice(['alone', 'before', 'after', 'twice', 'or', 'around', 'both', 'pair'])
    if kind == 'before':
        node = Seq([node, other])
    elif kind == 'after':
        node = Seq([other, node])
    elif kind == 'twice':
        node = Seq([node, other, node])
    elif kind == 'or':
        node = Or([Seq([node, other]), node])
    elif kind == 'around':
        node = Seq([other, node, other])
    elif kind == 'both':
        # the same base under two quantifiers
        second = apply(rng.choice(OPERATIONS), base, rng.random() < 0.5)
        node = Seq([node, other, second])
    elif kind == 'pair':
        # the same quantified rule quantified in two ways
        node = Or([
            Seq([apply(rng.choice(OPERATIONS), node, rng.random() < 0.5), Term(literals[2])]),
            Seq([apply(rng.choice(OPERATIONS), node, rng.random() < 0.5), Term(literals[1])])
        ])
    if not defined(node):
        raise Skip
    listing = describe(node)
    case.note(*listing)
    made = parser(node)
    for values in literal_texts(rng, node, letters, 8, 7):
        text = text_of(values)
        tokens = ref.tokenize(text, morph=False)
        derivations = Derivations(node, tokens)
        derivations.load(2500)
        recognizer = derivations.recognizer
        expected = bool(tokens) and recognizer.accepts()
        match = made.match(text)
        case.ok()
        if bool(match) != expected:
            case.fail('match(%r) is %r, expected %s' % (text, match, expected))
        case.count('accepted' if expected else 'rejected')
        spans = spans_of(made.findall(text), tokens)
        case.equal(sum(b - a for a, b in spans), max_coverage(recognizer.spans()),
                   'coverage of findall(%r), %s' % (text, spans))
    case.count('contexts')
    case.seen(listing)
    case.sample({'rule': listing, 'text': text})


def large(case):
    """Large bounds: one less, exact, one more"""
    rng = case.rng
    sizes = [8, 9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 60, 63, 64, 65, 70]
    kind = rng.choice(['min', 'max', 'both', 'equal', 'wide'])
    low = high = None
    if kind in ('min', 'wide', 'both'):
        low = rng.choice(sizes + [99, 100, 101, 127, 128, 129, 200, 256, 300] * (kind == 'min'))
    if kind == 'max':
        high = rng.choice(sizes)
    elif kind == 'both':
        high = low + rng.choice([1, 2, 3, 5])
    elif kind == 'equal':
        low = high = rng.choice(sizes)
    elif kind == 'wide':
        low, high = sorted([rng.choice(sizes[:8]), rng.choice(sizes)])
    unit = rng.choice([1, 1, 2])
    base = Term(eq('a')) if unit == 1 else Seq([Term(eq('a')), Term(eq('b'))])
    if rng.random() < 0.3:
        base = Named(base, 'N')
    node = Rep(base, low, high, rng.random() < 0.5)
    optional = rng.random() < 0.3
    if optional:
        node = Opt(node, rng.random() < 0.5)
    after = rng.random() < 0.5
    if after:
        node = Seq([Term(eq('c')), node]) if rng.random() < 0.5 else Seq([node, Term(eq('c'))])
    case.note(*describe(node))
    made = parser(node)
    first = after and node.items[0].__class__ is Term
    tried = {0, 1, 2, (low or 1) - 1, low or 1, (low or 1) + 1}
    if high:
        tried |= {high - 1, high, high + 1, high + 5, (low or 1) + (high - (low or 1)) // 2}
    else:
        tried |= {(low or 1) + 20, 2 * (low or 1) + 1}
    for number in sorted(tried):
        values = (['a'] if unit == 1 else ['a', 'b']) * number
        if after:
            values = ['c'] + values if first else values + ['c']
        expected = number >= (low or 1) and (not high or number <= high) or optional and number == 0
        expected = bool(expected and values)
        match = made.match(text_of(values))
        case.ok()
        if bool(match) != expected:
            case.fail('%d occurrences are %s' % (number, 'accepted' if match else 'rejected'))
        case.count('accepted' if expected else 'rejected')
        if match:
            case.equal(len(match.tokens), len(values), 'number of matched tokens')
    case.count('large')
    case.seen(describe(node))


WORKLOADS = [
    W('singles', singles, 2 * len(OPERATIONS), 2 * len(OPERATIONS)),
    W('pairs', pairs, 4 * len(OPERATIONS) ** 2, 4 * len(OPERATIONS) ** 2),
    W('nested', nested, 500, 8000),
    W('contexts', contexts, 800, 15000),
    W('large', large, 160, 2000),
]
