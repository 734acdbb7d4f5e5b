"""C16: linked words agree; exactly the agreeing analyses remain."""
from collections import Counter
from vlib.run import W, Skip
from vlib.gram import (
    describe, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Fwd, Reading, Pipe,
    first_valid, eq, walk
)
from vlib.gen import defined
from vlib.facts import twins, texts
from vlib.facts import texts as sampled_texts
from vlib.common import parser, spans_of, morph_tokenizer, max_coverage
from vlib import ref, words

RULE = (
    'A case is a rule with terms and phrases marked with one or several relation objects '
    '(built-in, Boolean combinations, random symmetric ones; a word under several relations; '
    'optional, alternative and repeated marked parts) and texts of ambiguous words. Matches of '
    'extract, findall and match, and the analyses kept by every token, are compared with an '
    'independent arc consistency computation over all derivations. Non trivial: agreement '
    'dropped some analysis or some derivation.'
)
MINIMUMS = {'twins': 100,
    'readings': 2000, 'rejected': 300, 'narrowed': 500, 'multi_relation': 100, 'three_words': 100,
    'chained': 30, 'less_preferred': 10, 'linked': 30, 'linked_lines': 40,
}


def kept_key(tokens):
    """Sets: order is not specified here"""
    result = []
    for token in tokens:
        forms = getattr(token, 'forms', None)
        if forms is not None:
            forms = frozenset(
                _.key if isinstance(_, ref.RForm) else ref.form_key(_)
                for _ in forms
            )
        result.append((token.value, forms))
    return tuple(result)


def judge(case, root, texts, limit=1500, tagger=None):
    if not defined(root):
        raise Skip
    listing = describe(root)
    case.note(*listing)
    made = None
    for text in texts:
        tokens = ref.tokenize(text)
        derivations = Derivations(root, tokens, limit=500)
        derivations.load(limit)
        if made is None:
            made = parser(root, morph_tokenizer())
        case.notes.append('text %r' % text)
        expected = Counter()
        best = {}
        interesting = False
        for i, j in derivations.spans():
            for rank, derivation in enumerate(derivations.run(i, j)):
                reading = Reading(derivation, tokens)
                if len(reading.marked) > 1:
                    case.count('multi_relation', len({id(_) for _, _ in reading.marked}) > 1)
                    case.count('three_words', len({_ for _, _ in reading.marked}) > 2)
                    indexes = [_ for _, _ in Counter(_[1] for _ in reading.marked).items() if _ > 1]
                    case.count('chained', bool(indexes))
                if not reading.valid:
                    case.count('rejected')
                    interesting = True
                    continue
                key = kept_key(reading.rtokens())
                if any(
                    forms is not None and len(forms) < len({_.key for _ in token.forms})
                    for (_, forms), token in zip(key, tokens[i:j])
                ):
                    case.count('narrowed')
                    interesting = True
                expected[i, j, key] += 1
                if (i, j) not in best:
                    best[i, j] = key
                    if rank:
                        case.count('less_preferred')
        case.count('readings', sum(expected.values()))

        matches = list(made.extract(text))
        actual = Counter(
            (i, j, kept_key(match.tokens))
            for match, (i, j) in zip(matches, spans_of(matches, tokens))
        )
        case.ok()
        if actual != expected:
            case.fail('extract: missing %s, unexpected %s' % (
                list((expected - actual).items())[:2], list((actual - expected).items())[:2]))

        matches = list(made.findall(text))
        spans = spans_of(matches, tokens)
        for match, span in zip(matches, spans):
            case.check(span in best, 'findall reports %s:%s that cannot agree' % span)
            case.equal(kept_key(match.tokens), best[span], 'analyses in findall')
        case.equal(sum(j - i for i, j in spans), max_coverage(set(best)), 'covered tokens')

        match = made.match(text)
        whole = best.get((0, len(tokens)))
        case.equal(match and kept_key(match.tokens), whole, 'match()')
        if interesting:
            case.seen(listing, text)
        case.notes.pop()
    case.sample({'rule': listing, 'texts': texts})


def builtin(rng):
    kind = rng.choice(['gnc', 'gnc', 'number', 'gender', 'case', 'and', 'or', 'not'])
    if kind in ('and', 'or'):
        return RelSpec(kind, [RelSpec(rng.choice(['number', 'gender', 'case', 'gnc'])) for _ in range(2)])
    if kind == 'not':
        return RelSpec(kind, [RelSpec(rng.choice(['number', 'gender', 'case']))])
    return RelSpec(kind)


def combined(rng, relations):
    """Relations made of relations of the same rule are relations of their own"""
    if rng.random() < 0.2:
        base = rng.choice(relations)
        kind = rng.choice(['not', 'not', 'and', 'or'])
        subs = [base] if kind == 'not' else [base, rng.choice([base, builtin(rng)])]
        relations = relations + [RelSpec(kind, subs)]
        if rng.random() < 0.2:
            relations.append(RelSpec(kind, subs))
    return relations


def random_relation(rng):
    """Random symmetric relation over analyses"""
    salt = rng.random()
    density = rng.choice([0.2, 0.35, 0.5, 0.7])
    table = {}

    def function(a, b):
        key = tuple(sorted([(a[0], tuple(sorted(a[1]))), (b[0], tuple(sorted(b[1])))]))
        if key not in table:
            import random
            table[key] = random.Random('%r%r' % (salt, key)).random() < density
        return table[key]
    return RelSpec('custom', function=function)


POOL = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES + words.COMMON + words.FIXED + words.AMBIGUOUS
MANY = [_ for _ in POOL if len(ref.analyses(_)) >= 3]


def marked_term(rng, relations, pred=None):
    node = Term(pred or rng.choice([
        Pred('type', 'RU'), Pred('gram', 'NOUN'), Pred('gram', 'ADJF'), Pred('gram', 'sing'),
        Pred('type', 'RU'), Pred('is_single'), Pred('true')
    ]))
    count = rng.choice([0, 1, 1, 1, 2]) if len(relations) > 1 else rng.choice([0, 1, 1, 1])
    for relation in rng.sample(relations, min(count, len(relations))):
        node = Rel(node, relation)
        if rng.random() < 0.15:
            node = Seq([node])
    return node


def flat(case):
    """Sequences of marked words, few or many relations"""
    rng = case.rng
    make = rng.choice([builtin, builtin, random_relation])
    relations = combined(rng, [make(rng) for _ in range(rng.choice([1, 1, 2, 3]))])
    size = rng.randint(2, 4)
    items = [marked_term(rng, relations) for _ in range(size)]
    root = Seq(items)
    pool = words.ANY if rng.random() < 0.1 else MANY if make is random_relation else POOL
    texts = [words.sentence(rng, rng.randint(size, size + 1), pool, tight=0) for _ in range(4)]
    judge(case, root, texts)


def shapes(case):
    """Optional, alternative, repeated and recursive marked parts"""
    rng = case.rng
    make = rng.choice([builtin, builtin, random_relation])
    relations = combined(rng, [make(rng) for _ in range(rng.choice([1, 1, 2]))])

    def part(depth):
        x = rng.random()
        if depth <= 0 or x < 0.4:
            return marked_term(rng, relations)
        if x < 0.6:
            return Seq([part(depth - 1) for _ in range(rng.randint(1, 3))])
        if x < 0.75:
            return Or([part(depth - 1) for _ in range(2)])
        if x < 0.85:
            return Opt(Seq([part(depth - 1)]), rng.random() < 0.5)
        if x < 0.95:
            return Rep(Seq([part(depth - 1)]), max=rng.choice([None, 2, 3]), reverse=rng.random() < 0.3)
        forward = Fwd()
        item = Seq([part(depth - 1)])
        forward.target = Or([Seq([item, forward]), item])
        return forward

    root = Seq([part(2) for _ in range(rng.randint(1, 2))])
    texts = [words.sentence(rng, rng.randint(1, 4), POOL, tight=0) for _ in range(3)]
    judge(case, root, texts)


def phrases(case):
    """Marked phrases: the first word of each is linked, other relations inside"""
    rng = case.rng
    make = rng.choice([builtin, random_relation])
    outer = make(rng)
    inner = make(rng)

    def phrase():
        if rng.random() < 0.2:
            # the first word of a line
            case.count('linked_lines')
            return Rel(Pipe(rng.choice(['morph', 'morph', 'caseless']), [
                ' '.join(rng.choice(POOL) for _ in range(rng.choice([1, 2, 3]))) for _ in range(3)
            ]), outer)
        items = [marked_term(rng, [inner]) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        return Rel(Seq(items, main=rng.choice([None, rng.randrange(len(items))])), outer)

    root = Seq([phrase() for _ in range(rng.choice([2, 2, 2, 3]))])
    texts = [words.sentence(rng, rng.randint(2, 4), POOL, tight=0) for _ in range(2)]
    if any(isinstance(_, Pipe) or isinstance(_, Seq) and len(_.items) > 2 for _ in walk(root)):
        texts += [_ for _ in sampled_texts(rng, root, 4) if len(_.split()) < 12]
    judge(case, root, texts)


def identity(case):
    """Equal relations that are distinct objects do not link words"""
    rng = case.rng
    kind = rng.choice(['gnc', 'number', 'gender', 'case'])
    relations = [RelSpec(kind) for _ in range(2)]
    items = [Rel(Term(Pred('type', 'RU')), relations[_ % 2]) for _ in range(4)]
    if rng.random() < 0.5:
        items = items[:3]
    texts = [words.sentence(rng, len(items), POOL, tight=0) for _ in range(3)]
    judge(case, Seq(items), texts)


def repeated_words(case):
    """Same words several times in one text, overlapping matches"""
    rng = case.rng
    relation = rng.choice([builtin, random_relation])(rng)
    pool = rng.sample(MANY, 2)
    root = Seq([Rel(Term(Pred('type', 'RU')), relation) for _ in range(rng.randint(2, 3))])
    if rng.random() < 0.4:
        root = Rep(Rel(Term(Pred('type', 'RU')), relation), max=3)
    texts = [' '.join(rng.choice(pool) for _ in range(rng.randint(2, 5))) for _ in range(3)]
    judge(case, root, texts)


def crowd(case):
    """Five to eight linked words, some agree with everything"""
    rng = case.rng
    relations = [builtin(rng) for _ in range(rng.choice([1, 1, 2]))]
    size = rng.randint(5, 8)
    items = []
    for _ in range(size):
        node = Term(Pred(rng.choice(['type', 'type', 'type', 'gram']), None))
        node.pred.arg = 'RU' if node.pred.kind == 'type' else rng.choice(['NOUN', 'sing', 'NOUN'])
        for relation in relations if rng.random() < 0.2 else [rng.choice(relations)]:
            node = Rel(node, relation)
        items.append(node)
    universal = words.FIXED + words.COMMON + ['кофе', 'пальто', 'метро', 'сирота', 'Саша']
    texts = []
    for _ in range(3):
        values = [rng.choice(universal) for _ in range(size)]
        # words that may disagree are far from each other
        for _ in range(rng.choice([1, 2, 2, 3])):
            values[rng.randrange(size)] = rng.choice(POOL)
        texts.append(' '.join(values))
    case.count('crowds', len(texts))
    judge(case, Seq(items), texts)


def linked(case):
    """Thirteen to twenty words under one relation, a few of them disagree"""
    rng = case.rng
    relations = [RelSpec(rng.choice(['gnc', 'number', 'gender', 'case'])) for _ in range(rng.choice([1, 1, 2]))]
    size = rng.choice([13, 14, 15, 17, 20])
    items = []
    for _ in range(size):
        node = Term(Pred('type', 'RU'))
        items.append(Rel(node, rng.choice(relations)) if rng.random() < 0.9 else node)
    friendly = ['кофе', 'пальто', 'метро', 'шоссе', 'такси'] if rng.random() < 0.5 else ['дом', 'стол', 'город', 'стих']
    texts = []
    for number in rng.sample(range(4), 2):
        values = [rng.choice(friendly) for _ in range(size)]
        # the first, the last or any word disagrees
        for place in [[], [size - 1], [rng.randrange(size // 2, size)], [0, size - 2]][number]:
            values[place] = rng.choice(words.ADJECTIVES + words.NOUNS)
        texts.append(' '.join(values))
    # words that agree with everything, then words that agree with each other
    fixed = rng.choice([size - 3, size // 2, 6])
    pool = rng.choice([['дому', 'столу', 'городу'], ['домом', 'столом', 'городом'], ['домами', 'столами']])
    values = [rng.choice(['кофе', 'пальто', 'метро', 'кино']) for _ in range(fixed)]
    values += [rng.choice(pool) for _ in range(size - fixed)]
    texts.append(' '.join(values))
    values[-1] = rng.choice(['домам', 'столе', 'окном', 'дом'])
    texts.append(' '.join(values))
    case.count('linked', len(texts))
    judge(case, Seq(items), texts)


def twin_parts(case):
    """Equal parts, each with relations of its own"""
    root = twins(case.rng, ['relation'])
    case.count('twins')
    judge(case, root, texts(case.rng, root, 4, size=12))


WORKLOADS = [
    W('twins', twin_parts, 200, 3000),
    W('linked', linked, 32, 400),
    W('crowd', crowd, 200, 2500),
    W('flat', flat, 800, 12000),
    W('shapes', shapes, 800, 12000),
    W('phrases', phrases, 300, 5000),
    W('identity', identity, 100, 1000),
    W('repeated', repeated_words, 300, 4000),
]
