"""C10: pipelines match exactly their dictionary phrases."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Recognizer, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd, Pipe, eq, walk
)
from vlib.interp import ISpec
from vlib.common import parser, spans_of, morph_tokenizer, plain_tokenizer, max_coverage
from vlib import ref, words, pipes

RULE = (
    'A case is a pipeline of one of the three kinds (lines repeated, prefixes of one another, '
    'sharing words, inflected, with punctuation, digits and letter case variants), alone or used '
    'in rules (optional, repeated, alternative, shared, recursive, interpreted), and texts made '
    'of varied forms of the lines. The token runs extract() reports are compared with a direct '
    'comparison of every run with every line; findall and match are compared too. Non trivial: '
    'some run matches.'
)
QUICK = 2.5
MINIMUMS = {'matching_runs': 2000, 'not_matching_texts': 200, 'inflected': 200, 'prefix_lines': 200,
            'overlaps': 200, 'kinds': 3, 'branching': 40, 'long_words': 10}


def judge(case, root, texts, tokenizer=None, morph=True, limit=14):
    listing = [_ if len(_) < 3000 else _[:3000] + '...' for _ in describe(root)]
    case.note(*listing)
    made = parser(root, tokenizer or morph_tokenizer())
    inner = [_ for _ in walk(root) if isinstance(_, Pipe)]
    for pipe in inner:
        case.value('kinds', pipe.kind)
        keys = [tuple(_[0] for _ in ref.lex(line)) for line in pipe.lines]
        case.count('prefix_lines', any(a != b and a == b[:len(a)] for a in keys for b in keys))
    for text in texts:
        tokens = ref.tokenize(text, morph=morph)
        if len(tokens) > limit:
            continue
        case.notes.append('text %r' % text)
        recognizer = Recognizer(root, tokens)
        expected = recognizer.spans()
        matches = list(made.extract(text))
        actual = set(spans_of(matches, tokens))
        case.equal(sorted(actual), sorted(expected), 'matching runs of %r' % [_.value for _ in tokens])
        found = list(made.findall(text))
        spans = spans_of(found, tokens)
        case.equal(sum(j - i for i, j in spans), max_coverage(expected), 'covered tokens')
        for match, (i, j) in zip(found, spans):
            case.check((i, j) in expected, 'findall reports %s:%s' % (i, j))
            case.equal([ref.token_key(_, False) for _ in match.tokens], [ref.rtok_key(_, False) for _ in tokens[i:j]], 'tokens')
        case.equal(bool(made.match(text)), bool(tokens) and recognizer.accepts(), 'match()')
        case.count('matching_runs', len(expected))
        if len(expected) > 1:
            case.count('overlaps')
        if expected:
            case.seen(listing, text)
            literal = {_.lower() for pipe in inner for line in pipe.lines for _, _, _, _ in ref.lex(line)}
            case.count('inflected', any(tokens[_].value.lower() not in literal for i, j in expected for _ in range(i, j)))
        else:
            case.count('not_matching_texts')
        case.notes.pop()
    case.sample({'rule': listing, 'texts': texts})


def alone(case):
    rng = case.rng
    pipe = pipes.pipe(rng)
    judge(case, pipe, [pipes.text(rng, [pipe]) for _ in range(5)])


def plain(case):
    """Without morphology"""
    rng = case.rng
    pipe = pipes.pipe(rng, ['', 'caseless'])
    judge(case, pipe, [pipes.text(rng, [pipe]) for _ in range(5)], plain_tokenizer(), morph=False)


def used(case):
    """Inside of other rules"""
    rng = case.rng
    made = [pipes.pipe(rng) for _ in range(rng.choice([1, 1, 2]))]
    counter = [0]

    def part(depth):
        x = rng.random()
        if depth <= 0 or x < 0.35:
            return rng.choice(made)
        if x < 0.45:
            return Term(rng.choice([Pred('type', 'RU'), eq(','), Pred('true')]))
        if x < 0.6:
            return Seq([part(depth - 1) for _ in range(rng.randint(1, 3))])
        if x < 0.7:
            return Or([part(depth - 1) for _ in range(2)])
        if x < 0.78:
            return Opt(part(depth - 1), rng.random() < 0.5)
        if x < 0.86:
            return Rep(part(depth - 1), min=rng.choice([None, None, 2]), max=rng.choice([None, 2, 3]), reverse=rng.random() < 0.3)
        if x < 0.9:
            counter[0] += 1
            return Named(part(depth - 1), 'N%d' % counter[0])
        if x < 0.93:
            return Interp(part(depth - 1), ISpec('norm', chain=[('normalized',)]))
        if x < 0.96:
            forward = Fwd()
            item = Seq([rng.choice(made)])
            forward.target = Or([Seq([item, forward]), item])
            return forward
        return Fwd(Seq([part(depth - 1)]))

    root = part(3)
    judge(case, root, [pipes.text(rng, made, 3) for _ in range(4)])


def many(case):
    """Large dictionaries"""
    rng = case.rng
    items = []
    for _ in range(40):
        items.extend(pipes.lines(rng))
    pipe = Pipe(rng.choice(['', 'caseless', 'morph']), items)
    judge(case, pipe, [pipes.text(rng, [pipe]) for _ in range(8)])


def branching(case):
    """Many lines with a common beginning, long lines"""
    rng = case.rng
    kind = rng.choice(['', 'caseless', 'morph'])
    common = [pipes.unit(rng) for _ in range(rng.choice([1, 1, 2, 12]))]
    size = rng.choice([10, 33, 60, 130, 300])
    tails = ['%d' % _ for _ in range(size)] if rng.random() < 0.7 else rng.choice([
        [''.join('абвгд'[_ // 5 ** k % 5] for k in range(4)) for _ in range(size)],
        [''.join('abcde'[_ // 5 ** k % 5] for k in range(4)) for _ in range(size)],
    ])
    rng.shuffle(tails)
    if rng.random() < 0.7:
        values = [common + [_] for _ in tails]
    else:
        values = [[_] + common for _ in tails]
    if rng.random() < 0.3:
        # words of any length
        letter = rng.choice('Zbя')
        values.insert(0, [letter * rng.choice([31, 64, 100, 257, 1025])] + common[:1])
        values.append(values[0][:1])
        case.count('long_words')
    long = [pipes.unit(rng) for _ in range(rng.choice([3, 15, 30]))]
    values.insert(rng.randrange(len(values)), long)
    if rng.random() < 0.5:
        values.append(list(common))
    pipe = Pipe(kind, [' '.join(_) for _ in values])
    picked = [values[0], values[-1], values[-2], rng.choice(values), rng.choice(values), rng.choice(values[size // 2:])]
    items = [' '.join(_) for _ in picked]
    items.append(' '.join(picked[0] + picked[1])[:200])
    items.append(' '.join(pipes.vary(rng, kind, rng.choice(picked))))
    items.append(' '.join(long))
    items.append(' '.join(long[:-1]))
    judge(case, pipe if rng.random() < 0.7 else Seq([Opt(pipe), pipe]), items, limit=70)
    case.count('branching')


def nothing(case):
    """Pipeline without lines matches nothing"""
    rng = case.rng
    pipe = Pipe(['', 'caseless', 'morph'][case.i % 3], [])
    judge(case, Or([pipe, Term(eq('5'))]), [pipes.text(rng, [Pipe('', ['5', 'дом'])]) for _ in range(4)])


WORKLOADS = [
    W('alone', alone, 1000, 12000),
    W('plain', plain, 300, 4000),
    W('used', used, 800, 12000),
    W('many', many, 60, 600),
    W('nothing', nothing, 20, 100),
    W('branching', branching, 100, 1000),
]
