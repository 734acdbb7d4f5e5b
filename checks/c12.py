"""C12: a fact holds exactly what the annotations of its derivation assign."""
from vlib.run import W, Skip
from vlib.gram import describe, Seq, Or, Opt, Rep, Term, Named, Interp, Fwd, Pred, eq
from vlib.interp import FactSpec, ISpec, canon, canon_model
from vlib.facts import FactRules, observe, texts, features, term, large, twins

RULE = (
    'A case is a random interpreted rule (plain, default, repeatable attributes; nested, merged, '
    'derived and foreign facts; normalizers; optional, repeated, alternative, recursive and '
    'shared parts) and texts realised from it. match.fact is compared with an independent '
    'evaluation of the preferred derivation, TypeError included. Non trivial: distinct '
    '(rule, text) with 2+ annotations.'
)
QUICK = 2.5
MINIMUMS = {'twins': 700, 'scaled': 80, 'matches': 500, 'facts': 400, 'type_errors': 10, 'annotation_kinds': 12}


def judge(case, root, items):
    listing = describe(root)
    kinds = features(root)
    for item in observe(case, root, items):
        fact = item.fact(case)
        if fact is None:
            continue
        actual = canon(fact, None)
        expected = canon_model(item.model.final)
        case.equal(actual, expected, 'fact of %r' % [_.value for _ in item.match.tokens],
                   got_fact=fact, model_fact=item.model.final)
        case.count('facts')
        # reading again gives an equal fact
        case.equal(canon(item.match.fact, None), expected, 'fact read again')
        for kind in kinds:
            case.value('annotation_kinds', kind)
        if len(kinds) > 1:
            case.seen(listing, [_.value for _ in item.match.tokens])
    case.sample({'rule': listing, 'texts': items})


def random_rules(case):
    rng = case.rng
    rules = FactRules(rng, invalid=rng.choice([0, 0, 0.15]), relations=rng.choice([0, 0, 0.1]))
    root = rules.root(depth=rng.choice([1, 2, 2, 3]))
    judge(case, root, texts(rng, root, 3))


def lists(case):
    """Repeatable attributes filled through repetition, recursion and merging."""
    rng = case.rng
    F = FactSpec('F', [('r', None, True), ('a', None, False), ('q', None, True)])
    name = lambda: rng.choice(['r', 'r', 'a', 'q'])

    def item():
        return Interp(Term(rng.choice([Pred('type', 'INT'), Pred('gram', 'NOUN'), Pred('type', 'LATIN')])),
                      ISpec('attr', F, name()))

    comma = Term(eq(','))
    kind = rng.choice(['rep', 'right', 'left', 'merge', 'merge_right', 'merge_left', 'mixed'])
    body = item() if rng.random() < 0.6 else Or([item(), item()])
    if kind == 'rep':
        node = Seq([body, Opt(Rep(Seq([comma, body])))])
    elif kind == 'right':
        node = Fwd()
        node.target = Or([Seq([body, comma, node]), body])
    elif kind == 'left':
        node = Fwd()
        node.target = Or([Seq([node, comma, body]), body])
    elif kind == 'merge':
        part = Interp(Seq([body, Opt(comma)]), ISpec('fact', F))
        node = Rep(part, max=4)
    elif kind == 'merge_right':
        node = Fwd()
        part = Interp(Or([Seq([body, comma, node]), body]), ISpec('fact', F))
        node.target = part
    elif kind == 'merge_left':
        node = Fwd()
        part = Interp(Or([Seq([node, comma, body]), body]), ISpec('fact', F))
        node.target = part
    else:
        part = Interp(Seq([body, body]), ISpec('fact', F))
        node = Seq([body, comma, part, Opt(Seq([comma, body]))])
    root = Interp(Seq([node]), ISpec('fact', F))
    case.count('list_' + kind)
    judge(case, root, texts(rng, root, 3))


def other_roots(case):
    """Rules whose root is an attribute or a normalizer give the value itself."""
    rng = case.rng
    rules = FactRules(rng)
    node = rules.attribute(1, rules.F) if rng.random() < 0.6 else Interp(
        rules.text(), ISpec('norm', chain=rng.choice([[('normalized',)], [('const', 5)], [('custom', 'first')], [('inflected', None)]])))
    judge(case, node, texts(rng, node, 3))


def no_interpretation(case):
    """A rule without interpretation has no fact: ValueError"""
    rng = case.rng
    rules = FactRules(rng)
    node = rules.text()
    case.note(*describe(node))
    from vlib.common import parser, morph_tokenizer
    items = texts(rng, node, 1)
    if not items:
        raise Skip
    match = parser(node, morph_tokenizer()).find(items[0])
    if not match:
        raise Skip
    try:
        fact = match.fact
    except ValueError:
        case.ok()
    else:
        case.fail('fact of a rule without interpretation is %r' % fact)


def scaled(case):
    """Large facts, long and sparse parts"""
    root, items = large(case)
    judge(case, root, items)
    case.count('scaled')


def twin_parts(case):
    """Parts that are equal but not the same"""
    root = twins(case.rng)
    judge(case, root, texts(case.rng, root, 4, size=12))
    case.count('twins')


WORKLOADS = [
    W('twins', twin_parts, 600, 7200),
    W('scaled', scaled, 160, 1600),
    W('random', random_rules, 1500, 25000),
    W('lists', lists, 500, 8000),
    W('roots', other_roots, 300, 4000),
    W('none', no_interpretation, 60, 300),
]
