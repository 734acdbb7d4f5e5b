"""C05: match() accepts a text exactly when the rule derives all its tokens."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Recognizer, Derivations, Fwd, Seq, Or, Opt, Rep, Empty, Term, Named, eq, walk
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.common import parser, text_of, plain_tokenizer, alphabet, LETTERS, LITERALS
from vlib import ref

RULE = (
    'A case is a random rule graph (sequences, alternatives, quantifiers, names, empty, '
    'forward recursion, shared parts) or a structured recursive grammar, and texts sampled '
    'from its language, their mutants and noise. match() is compared with an independent '
    'fixpoint recognizer. Non trivial: distinct (grammar, text) with a grammar of 3+ nodes.'
)
QUICK = 3
MINIMUMS = {'accepted': 200, 'rejected': 200, 'recursive': 50, 'nullable': 50, 'partial_only': 20,
            'long_accepted': 40, 'wide_accepted': 50, 'wide_rejected': 40, 'long_rejected': 80}


def judge(case, root, texts, limit=3000):
    if not defined(root):
        raise Skip("forward defined only by itself")
    nodes = list(walk(root))
    listing = describe(root)
    case.note(*listing)
    recursive = any(isinstance(_, Fwd) for _ in nodes)
    made = None
    for values in texts:
        text = text_of(values)
        tokens = ref.tokenize(text, morph=False)
        Derivations(root, tokens).load(limit)
        recognizer = Recognizer(root, tokens)
        if made is None:
            made = parser(root)
        case.notes.append('text %r' % text)
        match = made.match(text)
        expected = bool(tokens) and recognizer.accepts()
        case.ok()
        if bool(match) != expected:
            case.fail('match(%r) is %s, the rule %s the text' % (
                text, match, 'derives' if expected else 'does not derive'
            ), rule=listing)
        if match:
            case.equal(
                [ref.token_key(_, False) for _ in match.tokens],
                [ref.rtok_key(_, False) for _ in tokens],
                'tokens of match(%r)' % text
            )
            case.equal((match.span.start, match.span.stop),
                       (tokens[0].start, tokens[-1].stop), 'span')
            case.count('accepted')
        else:
            case.equal(match, None, 'result')
            case.count('rejected')
            if recognizer.spans():
                case.count('partial_only')
        if recursive:
            case.count('recursive')
        if 0 in recognizer.get(root, 0):
            case.count('nullable')
        if len(nodes) >= 3:
            case.seen(listing, text)
        case.notes.pop()
    case.sample({'rule': listing, 'texts': [text_of(_) for _ in texts]})


def random_rules(case):
    rng = case.rng
    letters, literals = alphabet(rng)
    grammars = Grammars(
        rng, literals,
        depth=rng.choice([2, 3, 3, 4]),
        forward=rng.choice([0, 0.1, 0.25]),
        empty=rng.choice([0, 0.05, 0.15]),
        share=rng.choice([0, 0.15, 0.3]),
        nested=rng.random() < 0.5
    )
    root = grammars.root()
    texts = literal_texts(rng, root, letters, 8, 7)
    judge(case, root, texts)


def recursion(case):
    """Left, right, middle, mutual and nullable recursion with random parts."""
    rng = case.rng

    def some(depth=1):
        return Grammars(rng, LITERALS, depth=depth, forward=0, empty=0.1).root()

    kind = rng.choice(['left', 'right', 'middle', 'mutual', 'nullable', 'hidden', 'expr', 'chain'])
    F = Fwd()
    root = F
    if kind == 'left':
        F.target = Or([Seq([F, some()]), some()])
    elif kind == 'right':
        F.target = Or([Seq([some(), F]), some()])
    elif kind == 'middle':
        F.target = Or([Seq([Term(eq('a')), F, Term(eq('b'))]), some()])
    elif kind == 'mutual':
        G = Fwd()
        F.target = Or([Seq([Term(eq('a')), G]), some()])
        G.target = Or([Seq([F, Term(eq('b'))]), some()])
    elif kind == 'nullable':
        F.target = Or([Seq([some(), F, F]), Empty(), some()])
    elif kind == 'hidden':
        # left recursion behind an optional part
        F.target = Or([Seq([Opt(some()), F, some()]), some()])
    elif kind == 'expr':
        G = Fwd()
        F.target = Or([Seq([F, Term(eq('b')), G]), G])
        G.target = Or([Seq([Term(eq('a')), F, Term(eq('c'))]), some()])
    else:
        G, H = Fwd(), Fwd()
        F.target = Or([G, some()])
        G.target = Or([Seq([H]), some()])
        H.target = Or([Named(F, 'F'), Seq([some(), F])])
    alternatives = [F, Seq([F, Term(eq('c'))]), Opt(F), Seq([F, F]), Rep(F)]
    root = rng.choice(alternatives) if rng.random() < 0.5 else F
    case.count('recursion_' + kind)
    judge(case, root, literal_texts(rng, root, LETTERS, 8, 6))


def exhaustive(case):
    """All texts up to 5 tokens over two letters for one small rule."""
    rng = case.rng
    grammars = Grammars(rng, LITERALS[:2], depth=2, empty=0.1, forward=0.15)
    root = grammars.root()
    texts = [[]]
    level = [[]]
    for _ in range(4 if case.tier == 'quick' else 5):
        level = [_ + [letter] for _ in level for letter in LETTERS[:2]]
        texts.extend(level)
    judge(case, root, texts, limit=1500)


def long(case):
    """Texts of up to hundreds of tokens"""
    rng = case.rng
    a, b, c = [eq(_) for _ in 'abc']
    t = lambda pred: Term(pred)
    kind = rng.choice(['tail', 'head', 'pairs', 'both', 'literal', 'left', 'middle', 'lists'])
    n = rng.choice([20, 45, 66, 75, 85])
    forward = Fwd()
    if kind == 'tail':
        root, good = Seq([Rep(t(a), reverse=rng.random() < 0.5), t(b)]), ['a'] * n + ['b']
    elif kind == 'head':
        root, good = Seq([t(b), Rep(Or([t(a), t(c)])), t(b)]), ['b'] + [rng.choice('ac') for _ in range(n)] + ['b']
    elif kind == 'pairs':
        root = Rep(Or([Seq([t(a), t(b)]), t(c)]))
        good = []
        while len(good) < n:
            good.extend(rng.choice([['a', 'b'], ['c']]))
    elif kind == 'both':
        root = Seq([Opt(t(c)), Rep(t(a)), Rep(t(b)), Opt(t(c))])
        m = rng.randint(1, n - 1)
        good = ['c'] * rng.randint(0, 1) + ['a'] * m + ['b'] * (n - m) + ['c'] * rng.randint(0, 1)
    elif kind == 'literal':
        n = n * rng.choice([1, 2, 4])
        good = [rng.choice('abc') for _ in range(n)]
        root = Seq([Term(eq(_)) for _ in good])
    elif kind == 'left':
        forward.target = Or([Seq([forward, t(b), t(a)]), t(a)])
        root, good = forward, ['a'] + ['b', 'a'] * (n // 2)
    elif kind == 'middle':
        forward.target = Or([Seq([t(a), forward, t(b)]), t(c)])
        root, good = forward, ['a'] * (n // 2) + ['c'] + ['b'] * (n // 2)
    else:
        forward.target = Or([t(a), Seq([t(b), Rep(forward), t(c)])])
        root = forward
        good = ['b'] + ['a'] * (n // 2) + ['b'] + ['a'] * (n // 3) + ['c', 'a', 'c']
    case.note(*describe(root)[:40])
    case.note('%d tokens' % len(good))
    made = parser(root)
    variants = [(good, True)]
    for _ in range(3):
        values = list(good)
        at = rng.choice([0, 1, len(values) // 2, len(values) - 2, len(values) - 1, rng.randrange(len(values))])
        kind_ = rng.choice(['drop', 'swap', 'add'])
        if kind_ == 'drop':
            del values[at]
        elif kind_ == 'swap':
            values[at] = 'd'
        else:
            values.insert(at, 'd')
        variants.append((values, None))
    for values, expected in variants:
        text = text_of(values)
        if expected is None:
            if 'd' in values:
                expected = False
            else:
                expected = Recognizer(root, ref.tokenize(text, morph=False)).accepts()
        match = made.match(text)
        case.equal(bool(match), expected, 'match of %r' % text)
        if match:
            case.equal([_.value for _ in match.tokens], values, 'tokens')
            case.count('long_accepted')
            case.value('lengths', len(values))
        else:
            case.count('long_rejected')
        case.seen(kind, text)


def word_of(number):
    return ''.join('abcdefghij'[int(_)] for _ in str(number))


def wide(case):
    """Thousands of alternatives, parts or nested rules"""
    from yargy import Parser, rule, or_, forward
    from yargy.predicates import eq as eq_
    rng = case.rng
    kind = ['alternatives', 'tree', 'repeated', 'deep', 'pairs', 'columns', 'optionals', 'bounds', 'waiting'][case.i % 9]
    items = []

    def unit(number):
        return rule(word_of(number))

    if kind == 'alternatives':
        size = rng.choice([1000, 3000, 5000, 9000])
        root = or_(*[unit(_) for _ in range(size)])
        for number in [0, 1, size // 2, size - 1, rng.randrange(size), rng.randrange(size), size, size + 7]:
            items.append(([word_of(number)], number < size))
        items.append(([word_of(0), word_of(1)], False))
    elif kind == 'tree':
        # alternatives of alternatives
        width, height = rng.choice([(2, 9), (3, 6), (10, 3), (30, 2)])
        numbers = iter(range(width ** height))

        def tree(level):
            if not level:
                return unit(next(numbers))
            return or_(*[tree(level - 1) for _ in range(width)])
        root = tree(height)
        size = width ** height
        for number in [0, size - 1, rng.randrange(size), rng.randrange(size), size, size + 3]:
            items.append(([word_of(number)], number < size))
    elif kind == 'repeated':
        size = rng.choice([100, 400, 1200])
        root = or_(*[rule(unit(_), word_of(_ + 1)) if _ % 3 == 0 else unit(_) for _ in range(size)]).repeatable()
        values = []
        for _ in range(rng.choice([3, 6])):
            number = rng.randrange(size)
            values.extend([word_of(number), word_of(number + 1)] if number % 3 == 0 else [word_of(number)])
        items.append((values, True))
        items.append((values + [word_of(size + 1)], False))
        items.append(([word_of(size + 1)] + values, False))
        items.append((values + [word_of(0)], False))
    elif kind == 'deep':
        # rules in rules
        size = rng.choice([20, 35, 50])
        root = rule('x')
        for number in range(size):
            root = rng.choice([
                lambda: rule(root), lambda: or_(root, rule('y', 'z')), lambda: rule(root).named('N%d' % number),
                lambda: rule(rule('w').optional(), root)])()
        items = [(['x'], True), (['y'], False), (['w'] * (size + 1) + ['x'], False), (['x', 'x'], False), (['w'], False)]
    elif kind == 'pairs':
        size = rng.choice([200, 800, 2000])
        root = rule(or_(*[unit(_) for _ in range(size)]), or_(*[unit(_) for _ in range(0, 2 * size, 2)]))
        for _ in range(6):
            a, b = rng.randrange(size + 3), rng.randrange(2 * size)
            items.append(([word_of(a), word_of(b)], a < size and b % 2 == 0))
    elif kind == 'columns':
        # many rules are under way at once, each asks for something else at the end
        size = rng.choice([500, 2000, 4500])
        prefix = rng.randint(1, 3)
        root = or_(*[rule(*(['x'] * prefix + [word_of(_)])) for _ in range(size)])
        for number in [0, size - 1, rng.randrange(size), rng.randrange(size), size]:
            items.append((['x'] * prefix + [word_of(number)], number < size))
        items.append((['x'] * prefix, False))
    elif kind == 'waiting':
        # many rules wait for one part
        size = rng.choice([70, 300, 1100, 2100])
        part = rng.choice([
            lambda: rule('x').named('X'), lambda: or_(rule('x'), rule('y', 'x')), lambda: rule('x').repeatable(),
            lambda: rule(rule('x'), rule('y').optional())])()
        head = rng.choice([[], [], ['z'], ['z', 'z']])
        root = or_(*[rule(*(head + [part, word_of(_)])) for _ in range(size)])
        for number in [0, 1, size - 1, size // 2, rng.randrange(size), rng.randrange(size), size]:
            items.append((head + ['x', word_of(number)], number < size))
        items.append((head + ['x'], False))
    elif kind == 'bounds':
        low = rng.choice([None, 5, 17, 33, 40, 65, 100, 130])
        high = rng.choice([None, 10, 35, 66]) if low is None else None
        size = low or high or 1
        root = rule('x').repeatable(min=low, max=high, reverse=rng.random() < 0.3)
        around = rng.random() < 0.5
        if around:
            root = rule('y', root, 'z')
        for number in sorted({0, 1, 2, size // 2, size - 1, size, size + 1, size + 30}):
            values = ['x'] * number
            items.append((values, (low or 1) <= number and (high is None or number <= high)))
        if around:
            items = [(['y'] + values + ['z'], expected) for values, expected in items] + [(['y'], False), (['x'], False)]
    else:
        size = rng.choice([20, 50, 100])
        root = rule(*([rule(word_of(_)).optional(rng.random() < 0.5) for _ in range(size)] + ['x']))
        for _ in range(4):
            chosen = sorted(rng.sample(range(size), rng.randint(1, 8)))
            items.append(([word_of(_) for _ in chosen] + ['x'], True))
            if len(chosen) > 1:
                items.append(([word_of(_) for _ in reversed(chosen)] + ['x'], False))
        items.append(([word_of(_) for _ in range(size)] + ['x'], True))
        items.append(([word_of(_) for _ in range(size)], False))
    case.note('%s of %d' % (kind, size))
    made = Parser(root, plain_tokenizer())
    for values, expected in items:
        text = text_of(values)
        match = made.match(text)
        case.ok()
        if bool(match) != expected:
            case.fail('match(%r) is %r, expected %s' % (text[:300], match and match.span, expected))
        if match:
            case.equal([_.value for _ in match.tokens], values, 'tokens')
        case.count('wide_accepted' if expected else 'wide_rejected')
        case.seen(kind, size, text)


WORKLOADS = [
    W('wide', wide, 54, 540),
    W('long', long, 80, 900),
    W('random', random_rules, 900, 12000),
    W('recursion', recursion, 700, 10000),
    W('exhaustive', exhaustive, 150, 2500),
]
