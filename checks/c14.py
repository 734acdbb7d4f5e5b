"""C14: fact.spans are the text ranges its values were taken from."""
from vlib.run import W, Skip
from vlib.gram import describe
from vlib.interp import canon, FactModel, Attr, Norm, Chain
from vlib.facts import FactRules, observe, texts, features, large, twins
from checks import c12

RULE = (
    'A case is a random interpreted rule and texts realised from it. fact.spans (and those of '
    'facts nested in it) is compared with the ranges of the parts an independent evaluation of '
    'the derivation takes the values from; order, token boundaries, containment, stability of '
    'spans, fact and JSON under repeated reading are checked. Non trivial: 2+ ranges.'
)
QUICK = 2.5
MINIMUMS = {'twins': 450, 'scaled': 80, 'composed': 10, 'facts': 700, 'spans': 1000, 'nested_facts': 60, 'const_spans': 50, 'repeatable_spans': 50}


def nested(fact, model):
    """Pairs (fact, model) of the facts held in the attributes"""
    yield fact, model
    for name, _, repeatable in model.spec.attrs:
        if name not in model.set_values:
            continue
        value = getattr(fact, name)
        items = model.set_values[name]
        pairs = zip(value, items) if repeatable else [(value, items)]
        for actual, item in pairs:
            if isinstance(item, Attr):
                item = item.value
            if isinstance(item, FactModel):
                for pair in nested(actual, item):
                    yield pair


def judge(case, root, items):
    listing = describe(root)
    for item in observe(case, root, items):
        fact = item.fact(case)
        if fact is None:
            continue
        if not isinstance(item.model, FactModel):
            raise Skip
        match = item.match
        before = canon(fact, None)
        starts = {_.span.start for _ in match.tokens}
        stops = {_.span.stop for _ in match.tokens}
        for index, (part, model) in enumerate(nested(fact, item.model)):
            spans = part.spans
            case.check(isinstance(spans, list), 'spans is %s' % type(spans))
            actual = [(_.start, _.stop) for _ in spans]
            case.equal(sorted(actual), model.spans, 'spans of %s' % part)
            case.equal([_[0] for _ in actual], sorted(_[0] for _ in actual), 'order of spans')
            for start, stop in actual:
                case.check(start in starts and stop in stops and start < stop,
                           'span %s:%s is not on token boundaries of the match' % (start, stop))
                case.check(match.span.start <= start and stop <= match.span.stop,
                           'span %s:%s is outside of the match' % (start, stop))
            # the list is the caller's
            spans.reverse()
            spans.append(None)
            case.equal([(_.start, _.stop) for _ in part.spans], actual, 'spans read again')
            if case.rng.random() < 0.3:
                del part.spans[:]
                case.equal([(_.start, _.stop) for _ in part.spans], actual, 'spans read the third time')
            case.count('spans', len(actual))
            if index:
                case.count('nested_facts')
            if len(actual) > 1:
                case.seen(listing, [_.value for _ in match.tokens], index)
            for name, _, repeatable in model.spec.attrs:
                values = model.set_values.get(name)
                if repeatable:
                    case.count('repeatable_spans', len(values or []))
                elif isinstance(values, Norm) and values.final in ('K', 1, 0, '', None, True):
                    case.count('const_spans')
        case.equal(canon(fact, None), before, 'fact after spans were read')
        case.count('facts')
    case.sample({'rule': listing, 'texts': items})


def random_rules(case):
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0, 0.1]))
    root = rules.root(depth=rng.choice([1, 2, 2, 3]))
    judge(case, root, texts(rng, root, 3))


def lists(case):
    kept = c12.judge
    c12.judge = judge
    try:
        c12.lists(case)
    finally:
        c12.judge = kept


def scaled(case):
    """Large facts, long and sparse parts"""
    root, items = large(case)
    judge(case, root, items)
    case.count('scaled')


def twin_parts(case):
    """Parts that are equal but not the same"""
    root = twins(case.rng)
    judge(case, root, texts(case.rng, root, 4, size=12))
    case.count('twins')


WORKLOADS = [
    W('twins', twin_parts, 400, 4800),
    W('scaled', scaled, 160, 1600),
    W('random', random_rules, 1500, 20000),
    W('lists', lists, 400, 6000),
]
