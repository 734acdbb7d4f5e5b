"""C06: findall() returns ordered, disjoint, valid matches of maximal coverage."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Recognizer, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Pipe,
    first_valid, eq
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.common import (
    parser, text_of, spans_of, max_coverage, morph_tokenizer, alphabet, LETTERS, LITERALS
)
from vlib import ref, words

RULE = (
    'A case is a rule and texts with competing candidate matches: random rule graphs on '
    'letters, alternatives that realise arbitrary sets of intervals, and rules with '
    'agreement on Russian words. The valid token runs come from an independent recognizer '
    '(and agreement model), the maximal coverage from an independent dynamic programme; '
    'findall()/find() are judged against both. Non trivial: 2+ candidate runs that overlap.'
)
QUICK = 1.5
MINIMUMS = {'overlapping': 200, 'several_matches': 100, 'adjacent': 30, 'relation_cases': 20,
            'greedy_suboptimal': 5, 'later_reading': 40}


def judge(case, made, text, tokens, valid):
    listing = list(case.notes)
    matches = list(made.findall(text))
    case.note('text %r' % text)
    try:
        spans = spans_of(matches, tokens)
    except KeyError:
        case.fail('match does not start and end on tokens: %r' % [_.span for _ in matches])
    for match, (start, stop) in zip(matches, spans):
        case.check(start < stop, 'empty match in %r' % spans)
        case.equal(
            [ref.token_key(_, False) for _ in match.tokens],
            [ref.rtok_key(_, False) for _ in tokens[start:stop]],
            'tokens of the match'
        )
        case.check((start, stop) in valid, 'tokens %d:%d are not a match of the rule, matches are %s' % (
            start, stop, sorted(valid)))
    for (_, stop), (start, _) in zip(spans, spans[1:]):
        case.check(stop <= start, 'matches overlap or are not ordered: %s' % spans)
        if stop == start:
            case.count('adjacent')
    best = max_coverage(valid)
    case.equal(sum(b - a for a, b in spans), best,
               'tokens covered by %s, possible matches %s' % (spans, sorted(valid)))
    first = made.find(text)
    case.ok()
    if bool(first) != bool(matches):
        case.fail('find() is %r, findall() has %d matches' % (first, len(matches)))
    if first:
        case.equal(
            (first.span, [ref.token_key(_) for _ in first.tokens]),
            (matches[0].span, [ref.token_key(_) for _ in matches[0].tokens]),
            'find()'
        )
    case.notes.pop()

    order = sorted(valid)
    overlapping = any(a[1] > b[0] for a, b in zip(order, order[1:]))
    if overlapping:
        case.count('overlapping')
        case.seen(listing, text)
    if len(matches) > 1:
        case.count('several_matches')
    # greedy left to right, longest first choice is not enough here
    greedy, position = 0, 0
    for start, stop in sorted(valid, key=lambda _: (_[0], -_[1])):
        if start >= position:
            greedy += stop - start
            position = stop
    if greedy < best:
        case.count('greedy_suboptimal')


def random_rules(case):
    rng = case.rng
    letters, literals = alphabet(rng)
    grammars = Grammars(
        rng, literals, depth=rng.choice([2, 2, 3]), nested=False,
        forward=rng.choice([0, 0.1]), empty=rng.choice([0, 0.1])
    )
    root = grammars.root()
    case.note(*describe(root))
    made = parser(root)
    for values in literal_texts(rng, root, letters, 3, 6):
        for _ in range(rng.choice([0, 1, 2])):
            values = values + rng.choice(literal_texts(rng, root, letters, 1, 5))
        values = values[:12]
        text = text_of(values)
        tokens = ref.tokenize(text, morph=False)
        derivations = Derivations(root, tokens)
        derivations.load(4000)
        judge(case, made, text, tokens, derivations.recognizer.spans())
    case.sample({'rule': describe(root), 'text': text})


def intervals(case):
    """Alternatives that match exactly a chosen set of intervals."""
    rng = case.rng
    size = rng.choice([5, 8, 12, 20, 40])
    values = ['t%d' % _ for _ in range(size)]
    # 't', '1' would be two tokens
    values = [''.join(chr(ord('a') + int(d)) for d in str(_)) + 'x' for _ in range(size)]
    items = set()
    style = rng.choice(['random', 'chain', 'nested', 'dense'])
    for _ in range(rng.randint(1, 14)):
        if style == 'chain' and items:
            last = sorted(items)[-1]
            start = max(0, last[1] + rng.choice([-2, -1, -1, 0, 0, 1]))
            stop = start + rng.randint(1, 4)
        elif style == 'nested' and items:
            base = rng.choice(sorted(items))
            start = max(0, base[0] + rng.choice([-1, 0, 0, 1]))
            stop = base[1] + rng.choice([-1, 0, 0, 1])
        elif style == 'dense':
            start = rng.randrange(min(size, 6))
            stop = start + rng.randint(1, 4)
        else:
            start = rng.randrange(size)
            stop = start + rng.choice([1, 1, 2, 3, 5])
        if 0 <= start < stop <= size:
            items.add((start, stop))
    if not items:
        raise Skip
    order = sorted(items)
    rng.shuffle(order)
    if rng.random() < 0.3:
        root = Pipe('', [' '.join(values[a:b]) for a, b in order])
    else:
        root = Or([
            Seq([Term(eq(_)) for _ in values[a:b]])
            for a, b in order
        ])
    case.note('alternatives match %s of %d tokens' % (order, size))
    text = words.sentence(rng, 0)
    parts = []
    for value in values:
        parts.append(value)
        parts.append(rng.choice([' ', ' ', '  ', '\n ' if False else ' ']))
    text = ''.join(parts)
    tokens = ref.tokenize(text, morph=False)
    judge(case, parser(root), text, tokens, set(items))
    case.count('interval_' + style)
    case.sample({'intervals': sorted(items), 'tokens': size})


def long_text(case):
    """Long texts, short overlapping rules."""
    rng = case.rng
    grammars = Grammars(rng, LITERALS, depth=2, nested=False, forward=0, empty=0.05, bound=2)
    root = grammars.root()
    for node in [root]:
        if Recognizer(root, []).get(root, 0) and rng.random() < 0.5:
            raise Skip
    case.note(*describe(root))
    # 'd' never matches: splits the text into runs
    values = []
    while len(values) < rng.randint(30, 120):
        values.extend(rng.choice(LETTERS) for _ in range(rng.randint(1, 6)))
        values.extend(['d'] * rng.randint(1, 2))
    text = text_of(values)
    tokens = ref.tokenize(text, morph=False)
    derivations = Derivations(root, tokens)
    derivations.load(6000)
    judge(case, parser(root), text, tokens, derivations.recognizer.spans())
    case.count('long_texts')


def many(case):
    """Texts with a great number of competing candidates"""
    rng = case.rng
    letters = 'abcdef'[:rng.choice([2, 3, 4, 6])]
    phrases = set()
    for _ in range(rng.randint(2, 5)):
        phrases.add(tuple(rng.choice(letters) for _ in range(rng.choice([1, 2, 2, 3, 3, 5]))))
    base = sorted(phrases)
    for phrase in base:
        if len(phrase) > 1 and rng.random() < 0.6:
            # continues where another one has begun
            phrases.add(tuple(list(phrase[1:]) + [rng.choice(letters) for _ in range(rng.randint(1, 2))]))
    order = sorted(phrases)
    rng.shuffle(order)
    order = order[:6]
    if rng.random() < 0.4:
        root = Pipe('', [' '.join(_) for _ in order])
    else:
        root = Or([Seq([Term(eq(_)) for _ in phrase]) for phrase in order])
    case.note(*describe(root))
    values = []
    size = rng.choice([400, 900, 1500, 2500])
    while len(values) < size:
        if rng.random() < 0.8:
            values.extend(rng.choice(order))
        else:
            values.append(rng.choice(letters + 'z'))
    text = ' '.join(values)
    tokens = ref.tokenize(text, morph=False)
    valid = {
        (start, start + len(phrase))
        for phrase in set(order) for start in range(len(values))
        if tuple(values[start:start + len(phrase)]) == phrase
    }
    judge(case, parser(root), text, tokens, valid)
    case.count('thousands', len(valid) > 1000)


def heavy(case):
    """Long candidates that compete with each other"""
    rng = case.rng
    size = rng.choice([60, 150, 300, 700])
    letters = 'ab' if rng.random() < 0.3 else None
    values = [rng.choice(letters) if letters else ''.join('abcdefghij'[int(_)] for _ in str(index)) for index in range(size)]
    chosen = set()
    long = rng.choice([40, 80, 150, 300])
    while len(chosen) < rng.randint(3, 12):
        length = rng.choice([1, 3, rng.randint(1, long), rng.randint(long // 2, long), rng.randint(60, 70), rng.randint(125, 132),
                             rng.randint(250, 260)])
        start = rng.randrange(size)
        if chosen and rng.random() < 0.7:
            # about the end or the beginning of another one
            start = rng.choice(sorted(chosen))[rng.randint(0, 1)] + rng.randint(-3, 3)
            if rng.random() < 0.4:
                start -= length
        if 0 <= start and start + length <= size:
            chosen.add((start, start + length))
    phrases = {tuple(values[a:b]) for a, b in chosen}
    order = sorted(phrases)
    rng.shuffle(order)
    if rng.random() < 0.3:
        root = Pipe('', [' '.join(_) for _ in order])
    else:
        root = Or([Seq([Term(eq(_)) for _ in phrase]) for phrase in order])
    case.note('parts of the text %s' % sorted(chosen))
    text = ' '.join(values)
    tokens = ref.tokenize(text, morph=False)
    valid = {
        (start, start + len(phrase))
        for phrase in phrases for start in range(size - len(phrase) + 1)
        if tuple(values[start:start + len(phrase)]) == phrase
    }
    judge(case, parser(root), text, tokens, valid)
    case.count('heavy')


def agreement(case):
    """Candidates rejected by agreement must not take part."""
    rng = case.rng
    relation = RelSpec(rng.choice(['gnc', 'number', 'gender', 'case']))

    def marked():
        return Rel(Term(Pred('gram', rng.choice(['ADJF', 'NOUN', 'Name', 'Surn', 'NOUN']))), relation)

    def maybe():
        # the same word with and without the mark, in either order of preference
        items = [marked(), Term(Pred('gram', rng.choice(['ADJF', 'NOUN', 'Name', 'Surn', 'NOUN'])))]
        rng.shuffle(items)
        return Or(items) if rng.random() < 0.6 else items[0]

    shape = rng.choice(['pair', 'triple', 'or', 'optional', 'repeat', 'ambiguous', 'ambiguous', 'split'])
    if shape == 'pair':
        root = Seq([marked(), marked()])
    elif shape == 'triple':
        root = Or([Seq([marked(), marked(), marked()]), Seq([marked(), marked()])])
    elif shape == 'or':
        root = Or([Seq([marked(), marked()]), Term(Pred('gram', 'NOUN'))])
    elif shape == 'ambiguous':
        # several readings of one run, some of them disagree
        root = Or([Seq([maybe() for _ in range(rng.choice([1, 2, 2, 3]))]) for _ in range(rng.randint(2, 3))])
    elif shape == 'split':
        # one run split in several ways between marked and other words
        root = Seq([Rep(Term(Pred('type', 'RU')), reverse=rng.random() < 0.5), marked(),
                    Opt(Rep(Term(Pred('type', 'RU')))), marked()])
    elif shape == 'optional':
        root = Seq([Opt(marked(), rng.random() < 0.5), marked()])
    else:
        root = Seq([Rep(marked(), max=3), Opt(Term(Pred('gram', 'VERB')))])
    case.note(*describe(root))
    made = parser(root, morph_tokenizer())
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES
    for _ in range(3):
        text = words.sentence(rng, rng.randint(2, 8), pool, tight=0)
        tokens = ref.tokenize(text)
        derivations = Derivations(root, tokens)
        derivations.load(3000)
        possible = derivations.recognizer.spans()
        valid = {
            (i, j) for i, j in possible
            if first_valid(derivations.run(i, j), tokens)
        }
        if valid < possible:
            case.count('relation_rejects')
        for i, j in valid:
            runs = derivations.run(i, j)
            if len(runs) > 1 and not first_valid(runs[:1], tokens):
                case.count('later_reading')
        judge(case, made, text, tokens, valid)
        case.count('relation_cases')


WORKLOADS = [
    W('random', random_rules, 2000, 25000),
    W('intervals', intervals, 1500, 25000),
    W('long', long_text, 150, 2500),
    W('many', many, 12, 100),
    W('agreement', agreement, 800, 8000),
    W('heavy', heavy, 120, 1500),
]
