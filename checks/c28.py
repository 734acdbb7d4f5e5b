"""C28: extract() enumerates every derivation once; trees are derivations."""
from collections import Counter
from vlib.run import W, Skip
from vlib.gram import (
    describe, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd,
    Reading, Pipe, eq, walk
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.interp import ISpec
from vlib.common import parser, text_of, spans_of, morph_tokenizer, LETTERS, LITERALS
from vlib import ref, words
from checks.c07 import mark, log_fact, expected_view, actual_view

RULE = (
    'A case is a rule (ambiguous, recursive, with empty parts, with agreement) whose terms log '
    'marks and whose parts are named, and a text. The multiset of (token run, marks, parts) over '
    'extract(all=True) and extract(all=False) must equal that of an independent enumeration of '
    'derivations; every tree is walked: leaves are the tokens of the run and satisfy their '
    'predicates, children follow a production. Non trivial: 2+ derivations in the text.'
)
MINIMUMS = {'crowds': 2, 'matches': 2000, 'trees': 2000, 'ambiguous_texts': 200, 'empty_parts': 50, 'rejected_derivations': 20}


def check_tree(case, match, tokens, i, j):
    root = match.tree.root
    leaves = []

    def visit(node):
        children = list(node.children)
        if not children:
            leaves.append(node)
            return
        case.check(len(children) > 0, 'node without children')
        rule = getattr(node, 'rule', None)
        production = getattr(node, 'production', None)
        if rule is not None and production is not None:
            case.check(any(_ is production for _ in rule.productions) or not isinstance(rule.productions, list),
                       'node %s uses a production of another rule' % node.label)
            terms = list(production.terms)
            position = 0
            for child in children:
                target = child.predicate if not list(child.children) else child.rule
                while position < len(terms) and terms[position] is not target:
                    position += 1
                    case.count('empty_parts')
                case.check(position < len(terms), 'children of %s do not follow its production: %s, %s' % (
                    node.label, [_.label for _ in children], production))
                position += 1
        for child in children:
            visit(child)

    visit(root)
    case.equal([ref.token_key(_.token) for _ in leaves], [ref.token_key(_) for _ in match.tokens],
               'leaves and match.tokens')
    case.equal([ref.token_key(_, False) for _ in match.tokens],
               [ref.rtok_key(_, False) for _ in tokens[i:j]], 'tokens of the run')
    for leaf in leaves:
        case.check(leaf.predicate(leaf.token), 'leaf %s does not satisfy %s' % (leaf.token, leaf.predicate))
    case.count('trees')


def judge(case, root, texts, tokenizer=None, morph=False, limit=2500):
    if not defined(root):
        raise Skip
    listing = describe(root)
    case.note(*listing)
    made = None
    for text in texts:
        tokens = ref.tokenize(text, morph=morph)
        derivations = Derivations(root, tokens, limit=600)
        derivations.load(limit)
        if made is None:
            made = parser(root, tokenizer)
        case.notes.append('text %r' % text)
        expected = Counter()
        total = 0
        for i, j in derivations.spans():
            for derivation in derivations.run(i, j):
                reading = Reading(derivation, tokens)
                if reading.valid:
                    log, names = expected_view(derivation)
                    kept = tuple(ref.rtok_key(_) for _ in reading.rtokens()) if not reading.marked else None
                    expected[i, j, tuple(log), tuple(names)] += 1
                    total += 1
                else:
                    case.count('rejected_derivations')
        for all in (True, False):
            actual = Counter()
            matches = list(made.extract(text, all=all))
            for match, (i, j) in zip(matches, spans_of(matches, tokens)):
                check_tree(case, match, tokens, i, j)
                log, names = actual_view(match, tokens)
                actual[i, j, tuple(log), tuple(names)] += 1
                case.count('matches')
            if all:
                wanted = expected
            else:
                wanted = Counter({
                    key: value for key, value in expected.items()
                    if key[:2] == (0, len(tokens))
                })
            case.ok()
            if actual != wanted:
                case.fail('extract(all=%s): missing %s, unexpected %s' % (
                    all, list((wanted - actual).items())[:3], list((actual - wanted).items())[:3]))
        if total > 1:
            case.seen(listing, text)
            case.count('ambiguous_texts')
        case.notes.pop()
    case.sample({'rule': listing, 'texts': texts})


def random_rules(case):
    rng = case.rng
    letters = rng.choice([1, 2, 2, 3])
    grammars = Grammars(
        rng, LITERALS[:letters], depth=rng.choice([2, 3, 3]), nested=False,
        forward=rng.choice([0, 0.1, 0.2]), empty=rng.choice([0, 0.05, 0.1]), named=0.2,
        share=0
    )
    plain = grammars.root()
    texts = [text_of(_) for _ in literal_texts(rng, plain, LETTERS[:letters], 4, 5)]
    log = log_fact()
    root = Interp(Seq([mark(plain, log)]), ISpec('fact', log))
    judge(case, root, texts)


def recursive(case):
    """Highly ambiguous recursion: S -> S S | a and relatives."""
    rng = case.rng
    F = Fwd()
    a = lambda: Term(eq('a'))
    b = lambda: Term(eq('b'))
    F.target = Named(Or(rng.choice([
        [Seq([F, F]), a()],
        [Seq([F, Opt(b()), F]), a()],
        [Seq([a(), F]), Seq([F, a()]), a()],
        [Seq([Opt(F), a()]), Seq([a(), Opt(F)])],
        [Seq([F, b(), F]), Seq([F, F]), a()],
        [Seq([Rep(F, min=2, max=3)]), a(), b()],
        [Opt(Seq([F, F])), a()],
        [Opt(F), Seq([a(), F]), a()],
    ])), 'NF')
    plain = Seq([F])
    log = log_fact()
    root = Interp(Seq([mark(plain, log)]), ISpec('fact', log))
    texts = [text_of(['a'] * size) for size in range(1, 5)]
    texts += [text_of(rng.choice('aab') for _ in range(rng.randint(2, 5)))]
    judge(case, root, texts)


def agreement(case):
    rng = case.rng
    relation = RelSpec(rng.choice(['gnc', 'number', 'gender', 'case']))
    count = [0]

    def term():
        node = Term(Pred('gram', rng.choice(['ADJF', 'NOUN', 'NOUN', 'Name', 'Surn', 'VERB'])))
        if rng.random() < 0.7:
            node = Rel(node, relation)
        count[0] += 1
        node = Named(Seq([node]), 'N%d' % count[0])
        return Opt(node) if rng.random() < 0.25 else node

    plain = Or([Seq([term() for _ in range(rng.randint(1, 3))]) for _ in range(rng.randint(1, 3))])
    if rng.random() < 0.3:
        plain = Rep(plain, max=2)
    log = log_fact()
    root = Interp(Seq([mark(plain, log)]), ISpec('fact', log))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES
    judge(case, root, [words.sentence(rng, rng.randint(1, 4), pool, tight=0) for _ in range(3)],
          morph_tokenizer(), morph=True)


def wide(case):
    """Hundreds of alternatives, many wait for one shared part"""
    rng = case.rng
    size = rng.choice([20, 70, 140, 300])
    shared = rng.choice([
        lambda: Seq([Term(eq('a')), Term(eq('a'))]),
        lambda: Named(Or([Term(eq('a')), Seq([Term(eq('a')), Term(eq('a'))])]), 'NS'),
        lambda: Opt(Term(eq('a'))),
        lambda: Rep(Term(eq('a')), max=3),
        lambda: Term(eq('a')),
    ])()
    log = log_fact()
    tails = [str(_) for _ in range(size)]
    rng.shuffle(tails)
    alternatives = [Named(Seq([shared, Term(eq(_))]), 'N%s' % _) for _ in tails]
    if rng.random() < 0.5:
        alternatives.append(Named(Seq([shared, shared]), 'NX'))
    root = Interp(Seq([mark(Or(alternatives), log)]), ISpec('fact', log))
    picked = [tails[0], tails[-1], rng.choice(tails), rng.choice(tails[size // 2:])]
    case.count('wide')
    judge(case, root, ['%s %s' % (rng.choice(['a', 'a a', 'a a a', '']), _) for _ in picked] + ['a a a'], limit=12000)


def crowd(case):
    """Thousands of alternatives at one place of the text"""
    rng = case.rng
    size = rng.choice([1500, 3000, 5000])
    shared = rng.choice([
        lambda: Term(eq('a')), lambda: Term(eq('a')),
        lambda: Named(Or([Term(eq('a')), Seq([Term(eq('a')), Term(eq('a'))])]), 'NS'),
    ])()
    log = log_fact()
    tails = [str(_) for _ in range(size)]
    rng.shuffle(tails)
    alternatives = [Named(Seq([shared, Term(eq(_))]), 'N%s' % _) for _ in tails]
    root = Interp(Seq([mark(Or(alternatives), log)]), ISpec('fact', log))
    picked = [tails[0], tails[-1], rng.choice(tails[size // 2:])]
    case.count('crowds')
    judge(case, root, ['a %s' % _ for _ in picked], limit=60000)


WORKLOADS = [
    W('crowd', crowd, 5, 40),
    W('wide', wide, 30, 400),
    W('random', random_rules, 900, 15000),
    W('recursive', recursive, 200, 2500),
    W('agreement', agreement, 250, 5000),
]
