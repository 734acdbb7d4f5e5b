"""C11: the normalized value of a pipeline is the dictionary line that matched."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd, Pipe, eq, walk
)
from vlib.interp import FactSpec, ISpec, canon, canon_model
from vlib.facts import observe
from vlib.common import parser, spans_of, morph_tokenizer
from vlib import ref, words, pipes

RULE = (
    'A case is a pipeline annotated with normalized() (as attribute or normalizer, with functions '
    'chained; directly, through names, relations, one-term rules, forwards; used once or many '
    'times in the grammar) and texts of varied forms of its lines. The value must be verbatim the '
    'line found by comparing the lines with the text directly. Non trivial: the line differs from '
    'the text that matched, or several lines match.'
)
QUICK = 4
MINIMUMS = {'values': 1500, 'differs_from_text': 400, 'several_lines': 200, 'shared': 200, 'kinds': 3,
            'ambiguous_first_word': 50, 'branching': 150}


def wrap(rng, node, counter, relation=None):
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        x = rng.random()
        if x < 0.3:
            counter[0] += 1
            node = Named(node, 'N%d' % counter[0])
        elif x < 0.65:
            node = Seq([node])
        elif x < 0.8:
            node = Rel(node, RelSpec(rng.choice(['number', 'gnc'])))
        elif x < 0.9 and not isinstance(node, Fwd):
            node = Fwd(node)
        else:
            node = Or([node])
    return node


def expected_line(pipe, tokens):
    """Line for the whole run, directly from the statement"""
    lines = [
        line for line, key in zip(pipe.lines, pipe.keys)
        if len(key) == len(tokens) and all(pipe.accepts(part, token) for part, token in zip(key, tokens))
    ]
    if not lines:
        return None, lines
    if pipe.kind == 'morph' and tokens[0].forms is not None:
        for form in tokens[0].forms:
            for line, key in zip(pipe.lines, pipe.keys):
                if line in lines and form.normal in key[0]:
                    return line, lines
    return lines[0], lines


def alone(case):
    """Interpreted pipeline as the root"""
    rng = case.rng
    pipe = pipes.pipe(rng)
    case.value('kinds', pipe.kind)
    F = FactSpec('F', [('a', None, False)])
    chain = rng.choice([[('normalized',)], [('normalized',)], [('normalized',), ('custom', 'first')]])
    spec = ISpec('attr', F, 'a', chain) if rng.random() < 0.5 else ISpec('norm', chain=chain)
    root = Interp(wrap(rng, pipe, [0]), spec)
    listing = describe(root)
    case.note(*listing)
    made = parser(root, morph_tokenizer())
    relations = any(isinstance(_, Rel) for _ in walk(root))
    for _ in range(5):
        text = pipes.text(rng, [pipe])
        case.notes.append('text %r' % text)
        tokens = ref.tokenize(text)
        matches = list(made.findall(text))
        for match, (i, j) in zip(matches, spans_of(matches, tokens)):
            line, lines = expected_line(pipe, tokens[i:j])
            case.check(line is not None, 'match of %r that is not a line' % [_.value for _ in match.tokens])
            value = match.fact
            expected = ('first', line) if len(chain) > 1 else line
            case.equal(value, expected, 'value of %r' % [_.value for _ in match.tokens])
            case.count('values')
            texts = ref.join([(_.value, _.start, _.stop) for _ in tokens[i:j]])
            if texts != line or len(set(lines)) > 1:
                case.count('differs_from_text', texts != line)
                case.count('several_lines', len(set(lines)) > 1)
                case.count('ambiguous_first_word', len({_.normal for _ in tokens[i].forms or []}) > 1)
                case.seen(listing, text)
        case.notes.pop()
    case.sample({'rule': listing})


def branching(case):
    """Many lines with a common beginning or end"""
    rng = case.rng
    kind = rng.choice(['', 'caseless', 'morph', 'morph'])
    case.value('kinds', kind)
    common = [pipes.unit(rng, 0) for _ in range(rng.choice([1, 1, 2, 10]))]
    size = rng.choice([10, 33, 66, 130, 260, 600]) if case.i % 40 else rng.choice([1500, 5000])
    tails = ['%d' % _ for _ in range(size)]
    rng.shuffle(tails)
    first = rng.random() < 0.7
    values = [common + [_] if first else [_] + common for _ in tails]
    if rng.random() < 0.5:
        values.append(list(common))
    extra = pipes.lines(rng)
    lines = [' '.join(_) for _ in values] + extra
    pipe = Pipe(kind, lines)
    F = FactSpec('F', [('a', None, False)])
    spec = ISpec('attr', F, 'a', [('normalized',)]) if rng.random() < 0.5 else ISpec('norm', chain=[('normalized',)])
    root = Interp(wrap(rng, pipe, [0]), spec)
    constrained = any(isinstance(_, Rel) for _ in walk(root))
    case.note(*[_[:3000] for _ in describe(root)])
    made = parser(root, morph_tokenizer())
    for _ in range(8):
        picked = rng.choice([rng.choice(values), values[-1], values[0], rng.choice(values[size // 2:])])
        text = ' '.join(pipes.vary(rng, kind, picked))
        case.notes.append('text %r' % text)
        tokens = ref.tokenize(text)
        matches = list(made.findall(text))
        line, _ = expected_line(pipe, tokens)
        if line is not None and not constrained:
            case.equal(len(matches), 1, 'number of matches')
        for match, (i, j) in zip(matches, spans_of(matches, tokens)):
            line, _ = expected_line(pipe, tokens[i:j])
            case.check(line is not None, 'match of %r that is not a line' % [_.value for _ in match.tokens])
            case.equal(match.fact, line, 'value of %r' % [_.value for _ in match.tokens])
            case.count('values')
            case.count('branching')
            case.seen(common, text)
        case.notes.pop()


def grammar(case):
    """Pipelines used many times, some with annotation, some without"""
    rng = case.rng
    F = FactSpec('F', [('a', None, False), ('b', None, False), ('r', None, True)])
    counter = [0]
    made = [pipes.pipe(rng) for _ in range(rng.choice([1, 1, 2]))]
    shared = [wrap(rng, _, counter) for _ in made]

    def annotated():
        x = rng.random()
        item = rng.choice(made + shared)
        if rng.random() < 0.4:
            item = wrap(rng, item, counter)
        if x < 0.5:
            return Interp(item, ISpec('attr', F, rng.choice('ab'), [('normalized',)]))
        if x < 0.8:
            return Interp(Interp(item, ISpec('norm', chain=[('normalized',)])), ISpec('attr', F, rng.choice('abr')))
        if x < 0.9:
            return Interp(item, ISpec('attr', F, rng.choice('abr')))
        return Interp(item, ISpec('attr', F, rng.choice('ab'), [('inflected', None)]))

    def part(depth):
        x = rng.random()
        if depth <= 0 or x < 0.5:
            return annotated()
        if x < 0.6:
            return rng.choice(made + shared)
        if x < 0.7:
            return Or([part(depth - 1), part(depth - 1)])
        if x < 0.8:
            return Opt(Seq([part(depth - 1)]), rng.random() < 0.5)
        if x < 0.9:
            return Rep(Seq([part(depth - 1)]), max=2)
        return Seq([part(depth - 1), Opt(Term(eq(','))), part(depth - 1)])

    root = Interp(Seq([part(2) for _ in range(rng.randint(1, 3))]), ISpec('fact', F))
    listing = describe(root)
    for item in observe(case, root, [pipes.text(rng, made, 3) for _ in range(4)]):
        fact = item.fact(case)
        if fact is None:
            continue
        case.equal(canon(fact, None), canon_model(item.model.final),
                   'fact of %r' % [_.value for _ in item.match.tokens])
        case.count('values')
        case.count('shared')
        case.seen(listing, [_.value for _ in item.match.tokens])


WORKLOADS = [
    W('alone', alone, 1000, 14000),
    W('grammar', grammar, 800, 12000),
    W('branching', branching, 120, 1200),
]
