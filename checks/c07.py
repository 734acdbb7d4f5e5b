"""C07: ambiguity is resolved to the preferred derivation."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Recognizer, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named,
    Interp, Fwd, Empty, first_valid, Reading, eq, walk, build
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.interp import FactSpec, ISpec
from vlib.common import parser, text_of, spans_of, max_coverage, morph_tokenizer, alphabet, LETTERS, LITERALS
from vlib import ref, words

RULE = (
    'A case is an ambiguous rule whose terms log a unique mark into a repeatable attribute and '
    'whose parts are named. An independent enumerator lists all derivations of every run of '
    'tokens in the documented order; marks and named parts of match() and findall() must be '
    'those of the first valid one. Non trivial: derivations with different marks or names.'
)
MINIMUMS = {'ambiguous': 300, 'ambiguous_observable': 200, 'reverse': 50, 'rejected_first': 10}


def mark(root, log, rng=None):
    """Copy of the graph where every use of a term logs a unique number"""
    memo = {}
    share = rng.choice([0, 0, 0.15, 0.4]) if rng else 0
    marks = []
    counter = []

    def visit(node):
        if id(node) in memo:
            return memo[id(node)]
        if isinstance(node, Term):
            marks.append(node)
            result = Interp(Interp(node, ISpec('norm', chain=[('const', len(marks))])), ISpec('attr', log, 'log'))
            memo[id(node)] = result
            return result
        if isinstance(node, Fwd):
            result = memo[id(node)] = Fwd()
            result.target = visit(node.target)
            return result
        if isinstance(node, Seq):
            result = Seq([visit_item(_) for _ in node.items], node.main)
        elif isinstance(node, Or):
            result = Or([visit_item(_) for _ in node.items])
        elif isinstance(node, Opt):
            result = Opt(visit_quantified(node.item), node.reverse)
        elif isinstance(node, Rep):
            result = Rep(visit_quantified(node.item), node.min, node.max, node.reverse)
        elif isinstance(node, Named):
            # fact and relation labels would hide the name
            result = Named(Seq([visit_item(node.item)]), node.name)
        elif isinstance(node, Rel):
            result = Rel(visit_item(node.item), node.relation)
        else:
            result = node
        if rng and isinstance(node, (Seq, Or, Opt, Rep)) and rng.random() < share:
            # choices inside of an annotated part
            result = Interp(Seq([result]), ISpec('fact', log))
        memo[id(node)] = result
        return result

    def visit_item(node):
        if isinstance(node, Term):
            # every use has its own mark
            memo.pop(id(node), None)
        return visit(node)

    def visit_quantified(node):
        # sometimes the predicate itself: its own optional(), repeatable();
        # the choice is seen in ranges of names and in other marks
        counter.append(node)
        if isinstance(node, Term) and len(counter) % 3 == 0:
            return node
        return visit_item(node)

    return visit(root)


def expected_view(derivation):
    log = []
    names = []

    def visit(node):
        if isinstance(node.sym.node, Named):
            names.append((node.sym.node.name, node.start, node.stop))
        if isinstance(node.sym.node, Interp) and node.sym.node.spec.kind == 'norm':
            log.append(node.sym.node.spec.chain[0][1])
        for item in node.full():
            if not item.leaf:
                visit(item)

    visit(derivation)
    return log, names


def actual_view(match, tokens):
    starts = {_.start: index for index, _ in enumerate(tokens)}
    log = list(match.fact.log)
    names = []

    def visit(node):
        children = list(node.children)
        if not children:
            index = starts[node.token.span.start]
            return index, index + 1
        position = len(names)
        names.append(None)
        ranges = [visit(_) for _ in children]
        names[position] = (node.label, ranges[0][0], ranges[-1][1])
        return ranges[0][0], ranges[-1][1]

    visit(match.tree.root)
    return log, [_ for _ in names if str(_[0]).startswith('N')]


def judge(case, root, log, texts, tokenizer=None, morph=False, limit=3000):
    if not defined(root):
        raise Skip
    case.note(*describe(root))
    listing = describe(root)
    if any(getattr(_, 'reverse', False) for _ in walk(root)):
        case.count('reverse')
    made = None
    for text in texts:
        tokens = ref.tokenize(text, morph=morph)
        derivations = Derivations(root, tokens, limit=800)
        derivations.load(limit)
        if made is None:
            made = parser(root, tokenizer)
        case.notes.append('text %r' % text)

        def judge_match(match, i, j, what):
            found = derivations.run(i, j)
            reading = first_valid(found, tokens)
            if reading is None:
                case.fail('%s returned a match of tokens %d:%d that has no valid derivation' % (what, i, j))
            expected = expected_view(reading.derivation)
            actual = actual_view(match, tokens)
            case.equal(actual, expected, '%s, tokens %d:%d, %d derivations, (marks, parts)' % (
                what, i, j, len(found)))
            if len(found) > 1:
                case.count('ambiguous')
                views = [expected_view(_) for _ in found]
                if any(_ != views[0] for _ in views):
                    case.count('ambiguous_observable')
                    case.seen(listing, text, i, j)
                if reading.derivation is not found[0]:
                    case.count('rejected_first')

        match = made.match(text)
        size = len(tokens)
        whole = first_valid(derivations.run(0, size), tokens) if size else None
        case.ok()
        if bool(match) != bool(whole):
            case.fail('match() is %r, derivation %s' % (match, whole and expected_view(whole.derivation)))
        if match:
            judge_match(match, 0, size, 'match()')
        matches = list(made.findall(text))
        for match, (i, j) in zip(matches, spans_of(matches, tokens)):
            judge_match(match, i, j, 'findall()')
        if morph:
            # a run whose preferred derivations disagree is found by the others
            valid = {(i, j) for i, j in derivations.spans() if first_valid(derivations.run(i, j), tokens)}
            case.equal(sum(j - i for i, j in spans_of(matches, tokens)), max_coverage(valid),
                       'tokens covered by findall(), runs with a valid derivation %s' % sorted(valid))
        case.notes.pop()
    case.sample({'rule': listing, 'texts': texts})


def log_fact():
    return FactSpec('F', [('log', None, True)])


def random_rules(case):
    rng = case.rng
    letters = rng.choice([1, 2, 2, 3])
    symbols, literals = alphabet(rng)
    grammars = Grammars(
        rng, literals[:letters], depth=rng.choice([2, 3, 3]), nested=False,
        forward=rng.choice([0, 0.1, 0.2]), empty=rng.choice([0, 0.05]), named=0.2,
        share=0.2, reverse=0.4
    )
    plain = grammars.root()
    if not defined(plain):
        raise Skip
    texts = [text_of(_) for _ in literal_texts(rng, plain, symbols[:letters], 4, 5)]
    log = log_fact()
    root = Interp(Seq([mark(plain, log, rng)]), ISpec('fact', log))
    judge(case, root, log, texts)


def quantifiers(case):
    """Sequences of quantified parts that compete for the same tokens."""
    rng = case.rng
    count = [0]

    def part():
        count[0] += 1
        item = rng.choice([
            lambda: Term(eq('a')),
            lambda: Term(eq('a')),
            lambda: Or([Term(eq('a')), Term(eq('b'))]),
            lambda: Seq([Term(eq('a')), Term(eq('a'))]),
            lambda: Or([Term(eq('a')), Seq([Term(eq('a')), Term(eq('a'))])]),
            lambda: Or([Seq([Term(eq('a')), Term(eq('b'))]), Term(eq('a'))]),
        ])()
        reverse = rng.random() < 0.5
        kind = rng.choice(['opt', 'rep', 'min', 'max', 'minmax', 'star', 'plain'])
        if kind == 'opt':
            item = Opt(item, reverse)
        elif kind == 'rep':
            item = Rep(item, reverse=reverse)
        elif kind == 'min':
            item = Rep(item, min=rng.randint(1, 2), reverse=reverse)
        elif kind == 'max':
            item = Rep(item, max=rng.randint(1, 3), reverse=reverse)
        elif kind == 'minmax':
            item = Rep(item, min=1, max=rng.randint(1, 3), reverse=reverse)
        elif kind == 'star':
            item = Opt(Named(Rep(item, reverse=rng.random() < 0.5), 'N%dr' % count[0]), reverse)
        return Named(item, 'N%d' % count[0])

    plain = Seq([part() for _ in range(rng.randint(2, 3))])
    if rng.random() < 0.3:
        plain = Or([plain, Seq([part(), part()])])
    log = log_fact()
    root = Interp(Seq([mark(plain, log, rng)]), ISpec('fact', log))
    texts = [
        text_of(['a'] * size) for size in range(1, 6)
    ] + [text_of(rng.choice('aab') for _ in range(rng.randint(2, 5))) for _ in range(2)]
    judge(case, root, log, texts)


def agreement(case):
    """Preferred derivations rejected by agreement."""
    rng = case.rng
    relations = [RelSpec(rng.choice(['gnc', 'number', 'gender', 'case'])) for _ in range(2)]
    count = [0]

    def term():
        pred = Pred('gram', rng.choice(['ADJF', 'NOUN', 'NOUN', 'Name', 'Surn'])) \
            if rng.random() < 0.8 else Pred('type', 'RU')
        node = Term(pred)
        if rng.random() < 0.7:
            node = Rel(node, rng.choice(relations))
        count[0] += 1
        return Named(node, 'N%d' % count[0])

    def sequence():
        items = [term() for _ in range(rng.randint(1, 3))]
        items = [Opt(_, rng.random() < 0.5) if rng.random() < 0.3 else _ for _ in items]
        return Seq(items)

    plain = Or([sequence() for _ in range(rng.randint(2, 4))])
    if rng.random() < 0.3:
        plain = Rep(plain, max=2, reverse=rng.random() < 0.5)
    log = log_fact()
    root = Interp(Seq([mark(plain, log, rng)]), ISpec('fact', log))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES
    texts = [words.sentence(rng, rng.randint(1, 4), pool, tight=0) for _ in range(4)]
    judge(case, root, log, texts, morph_tokenizer(), morph=True)


def wide(case):
    """More alternatives, repeats and parts than one digit counts."""
    rng = case.rng
    letters = 'ab'
    size = rng.choice([9, 11, 12, 15, 20, 33, 70])

    def item():
        return rng.choice([
            lambda: Term(eq('a')), lambda: Term(eq('a')), lambda: Term(eq('b')),
            lambda: Seq([Term(eq('a')), Term(eq('a'))]), lambda: Seq([Term(eq('a')), Term(eq('b'))]),
            lambda: Seq([Opt(Term(eq('a')), rng.random() < 0.5), Term(eq('a'))]),
            lambda: Or([Term(eq('b')), Term(eq('a'))]),
        ])()

    count = [0]

    def named(node):
        count[0] += 1
        return Named(node, 'N%d' % count[0])

    def deep(node):
        # the same text by one derivation or another, found sooner or later
        for _ in range(rng.choice([0, 0, 1, 3])):
            node = rng.choice([lambda: Seq([node]), lambda: named(node), lambda: Or([node])])()
        return named(node)

    def tail():
        return rng.choice([
            lambda: Or([deep(item()) for _ in range(rng.randint(2, 5))]),
            lambda: Seq([Opt(deep(Term(eq('a'))), rng.random() < 0.5), Opt(deep(Term(eq('a'))), rng.random() < 0.5), Term(eq('a'))]),
            lambda: Seq([Opt(deep(Rep(Term(eq('a')), reverse=rng.random() < 0.5)), rng.random() < 0.5),
                         deep(Rep(Term(eq('a')), reverse=rng.random() < 0.5))]),
        ])()

    kind = rng.choice(['or', 'or', 'late', 'nested', 'repeat', 'parts', 'contest', 'contest', 'tail', 'tail'])
    if kind == 'contest':
        # two or three quantified parts want the same items
        def want():
            low = rng.choice([None, None, 0, 1, 2, 3, 5])
            high = rng.choice([None, 4, 5, 6, 7, 9])
            if low is not None and high is not None and low > high:
                low = high
            return deep(Rep(Term(eq('a')), low, high, rng.random() < 0.5))
        wants = [want() for _ in range(rng.choice([2, 2, 3]))]
        plain = Seq([Opt(_, rng.random() < 0.5) if rng.random() < 0.3 else _ for _ in wants])
    elif kind == 'tail':
        # the choice is made after many parts that leave none
        head = rng.choice([8, 11, 12, 13, 16, 20])
        after = rng.choice([0, 0, 1, 3])
        plain = Seq([Term(eq('b')) for _ in range(head)] + [tail()] + [Term(eq('b')) for _ in range(after)])
    elif kind == 'or':
        plain = Or([named(item()) for _ in range(size)])
    elif kind == 'late':
        # the ones that match come late
        plain = Or([named(Term(eq('c'))) for _ in range(rng.choice([2, 5, 8, 9, 10]))] +
                   [named(item()) for _ in range(rng.choice([3, 10]))])
    elif kind == 'nested':
        plain = Or([Or([named(item()) for _ in range(rng.randint(1, 5))]) for _ in range(min(size, 12))])
    elif kind == 'repeat':
        reverse = rng.random() < 0.5
        high = rng.randint(8, 12)
        plain = Seq([named(Rep(Term(eq('a')), rng.choice([None, 2]), high, reverse)),
                     Opt(named(Term(eq('a'))), rng.random() < 0.5),
                     Opt(named(Rep(Term(eq('a')), reverse=rng.random() < 0.5)), rng.random() < 0.5)])
    else:
        plain = Seq([Opt(named(Term(eq('a'))), rng.random() < 0.3) for _ in range(rng.choice([4, 5, 11, 12]))] + [Term(eq('a'))])
        size = len(plain.items)
    if kind in ('or', 'late') and rng.random() < 0.4:
        plain = Rep(plain, max=2, reverse=rng.random() < 0.5)
        if rng.random() < 0.5:
            plain = Seq([plain, Opt(Term(eq('a')))])
    log = log_fact()
    root = Interp(Seq([mark(plain, log, rng)]), ISpec('fact', log))
    if kind == 'repeat':
        lengths = [2, high - 1, high, high + 1, high + 2]
        items = [text_of(['a'] * _) for _ in lengths]
    elif kind == 'contest':
        items = [text_of(['a'] * _) for _ in rng.sample(range(3, 15), 4)]
    elif kind == 'tail':
        items = [text_of(['b'] * head + ['a'] * _ + ['b'] * after) for _ in (1, 2, 3)]
    elif kind == 'parts':
        items = [text_of(['a'] * _) for _ in (1, 2, size - 2, size - 1, size)]
    else:
        items = [text_of(rng.choice('aab') for _ in range(_)) for _ in (1, 1, 2, 2, 3)]
    judge(case, root, log, items)
    case.count('wide_' + kind)


def rejected(case):
    """Tens of preferred derivations that disagree, then some that agree"""
    rng = case.rng
    relation = RelSpec(rng.choice(['gnc', 'number', 'case', 'gender']))
    other = RelSpec(rng.choice(['gnc', 'number', 'case', 'gender']))
    count = [0]

    def named(node):
        count[0] += 1
        return Named(node, 'N%d' % count[0])

    def marked(*relations):
        node = Term(Pred('type', 'RU'))
        for item in relations:
            node = Rel(node, item)
        return node

    kind = rng.choice(['alternatives', 'alternatives', 'split', 'optionals'])
    size = rng.choice([8, 12, 20, 40])
    if kind == 'alternatives':
        items = []
        for _ in range(size):
            pair = rng.choice([(relation, relation), (relation, relation), (other, other)])
            items.append(named(Seq([marked(_) for _ in pair])))
        items.insert(rng.randint(size // 2, size), named(Seq([marked(), marked(relation)])))
        items.append(named(Seq([marked(relation), marked()])))
        plain = Or(items)
        length = 2
    elif kind == 'split':
        # the linked words may be any two
        plain = Seq([
            Opt(named(Rep(Term(Pred('type', 'RU')))), rng.random() < 0.5), named(marked(relation)),
            Opt(named(Rep(Term(Pred('type', 'RU')), reverse=rng.random() < 0.5)), rng.random() < 0.5), named(marked(relation)),
            Opt(named(Rep(Term(Pred('type', 'RU')))), rng.random() < 0.5)
        ])
        length = rng.randint(5, 7)
    else:
        plain = Seq([Or([named(marked(relation)), named(marked())]) for _ in range(rng.randint(4, 6))])
        length = len(plain.items)
    log = log_fact()
    root = Interp(Seq([mark(plain, log, rng)]), ISpec('fact', log))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES + ['быстро', 'идёт', 'и', 'не', 'красив', 'стоит']
    items = [words.sentence(rng, length, pool, tight=0) for _ in range(4)]
    judge(case, root, log, items, morph_tokenizer(), morph=True, limit=8000)
    case.count('rejected_' + kind)


WORKLOADS = [
    W('rejected', rejected, 120, 3000),
    W('random', random_rules, 1200, 20000),
    W('quantifiers', quantifiers, 800, 15000),
    W('agreement', agreement, 400, 6000),
    W('wide', wide, 600, 8000),
]
