"""C15: as_json mirrors the fact and survives JSON serialisation."""
import json
from collections.abc import Mapping
from vlib.run import W, Skip
from vlib.gram import describe
from vlib.interp import canon, canon_json, canon_json_model, FactModel
from vlib.facts import FactRules, observe, texts, large, twins
from checks import c12

RULE = (
    'A case is a random interpreted rule and texts realised from it. as_json is compared with an '
    'independent evaluation and, walked side by side, with the attributes of the fact itself '
    '(order of keys, missing None, nesting, lists); a returned mapping is destroyed and the fact '
    'and JSON are read again; plain values are sent through json.dumps/loads. Non trivial: '
    'distinct (rule, text) with 2+ keys.'
)
QUICK = 2.5
MINIMUMS = {'twins': 450, 'scaled': 80, 'facts': 700, 'nested': 100, 'lists': 200, 'missing_none': 200, 'falsy_kept': 50, 'round_trips': 300}


def mirror(case, fact, data, path='fact'):
    from yargy.interpretation.fact import Fact
    case.check(isinstance(data, Mapping), 'JSON of %s is %r' % (path, data))
    expected = [
        key for key in type(fact).__attributes__
        if getattr(fact, key) is not None
    ]
    case.equal(list(data), expected, 'keys of %s' % path)
    if len(expected) < len(type(fact).__attributes__):
        case.count('missing_none')
    for key in expected:
        value, item = getattr(fact, key), data[key]
        where = '%s.%s' % (path, key)
        if isinstance(value, Fact):
            if isinstance(item, Fact):
                # the value of a user function, as it is
                continue
            case.count('nested')
            mirror(case, value, item, where)
        elif isinstance(value, list) and repeatable(type(fact), key):
            case.count('lists')
            case.check(isinstance(item, list), 'JSON of %s is %r' % (where, item))
            case.equal(len(item), len(value), 'size of %s' % where)
            for index, (x, y) in enumerate(zip(value, item)):
                if isinstance(x, Fact) and not isinstance(y, Fact):
                    case.count('nested')
                    mirror(case, x, y, '%s[%d]' % (where, index))
                else:
                    case.equal(canon(y, None), canon(x, None), 'value of %s[%d]' % (where, index))
        else:
            if not value:
                case.count('falsy_kept')
            case.equal(canon(item, None), canon(value, None), 'value of %s' % where)


def repeatable(cls, key):
    return isinstance(getattr(cls(), key), list)


def plain(value):
    if isinstance(value, Mapping):
        return all(plain(_) for _ in value.values())
    if isinstance(value, list):
        return all(plain(_) for _ in value)
    return isinstance(value, (str, int, bool))


def as_plain(value):
    if isinstance(value, Mapping):
        return {key: as_plain(_) for key, _ in value.items()}
    if isinstance(value, list):
        return [as_plain(_) for _ in value]
    return value


def destroy(data, model):
    """Change everything that as_json made"""
    for name, _, many in model.spec.attrs:
        if name not in data:
            continue
        value = model.set_values.get(name)
        items = data[name]
        pairs = zip(items, value or []) if many else [(items, value)]
        for item, source in list(pairs):
            if isinstance(source, FactModel) and isinstance(item, Mapping):
                destroy(item, source)
        if many:
            items.append('junk')
            items.reverse()
    for key in list(data):
        data[key] = 'junk'
    data['other'] = 1


def judge(case, root, items):
    listing = describe(root)
    for item in observe(case, root, items):
        fact = item.fact(case)
        if fact is None:
            continue
        if not isinstance(item.model, FactModel):
            raise Skip
        before = canon(fact, None)
        data = fact.as_json
        expected = canon_json_model(item.model.json)
        what = 'JSON of %r' % [_.value for _ in item.match.tokens]
        case.equal(canon_json(data), expected, what)
        mirror(case, fact, data)
        if plain(data):
            case.equal(json.loads(json.dumps(data)), as_plain(data), 'round trip')
            case.equal(list(json.loads(json.dumps(data))), list(data), 'order after round trip')
            case.count('round_trips')
        if len(data) > 1:
            case.seen(listing, [_.value for _ in item.match.tokens])
        destroy(data, item.model)
        case.equal(canon(fact, None), before, 'fact after its JSON was changed')
        case.equal(canon_json(fact.as_json), expected, what + ' after a returned one was changed')
        case.equal(canon_json(item.match.fact.as_json), expected, what + ' of a fact read again')
        case.equal(canon(item.match.fact, None), before, 'fact read again')
        case.count('facts')
    case.sample({'rule': listing, 'texts': items})


def random_rules(case):
    rng = case.rng
    rules = FactRules(rng)
    root = rules.root(depth=rng.choice([1, 2, 2, 3]))
    judge(case, root, texts(rng, root, 3))


def lists(case):
    kept = c12.judge
    c12.judge = judge
    try:
        c12.lists(case)
    finally:
        c12.judge = kept


def scaled(case):
    """Large facts, long and sparse parts"""
    root, items = large(case)
    judge(case, root, items)
    case.count('scaled')


def twin_parts(case):
    """Parts that are equal but not the same"""
    root = twins(case.rng)
    judge(case, root, texts(case.rng, root, 4, size=12))
    case.count('twins')


WORKLOADS = [
    W('twins', twin_parts, 400, 4800),
    W('scaled', scaled, 160, 1600),
    W('random', random_rules, 1500, 20000),
    W('lists', lists, 400, 6000),
]
