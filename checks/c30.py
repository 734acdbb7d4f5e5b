"""C30: parsing work stays polynomial and nothing of a text is retained."""
import gc
import sys
import weakref

from vlib.run import W, Skip
from vlib.gram import (
    Builder, describe, Seq, Or, Opt, Rep, Term, Named, Fwd, Pred, Pipe, Interp, build
)
from vlib.interp import CALLS
from vlib.facts import FactRules, texts
from vlib.common import morph_tokenizer, parser
from vlib import words

RULE = (
    'work: every term of a random finite rule is a counting predicate; calls per (term, token) of '
    'findall, extract and match are compared with the number of partial derivations that reach '
    'the term at the token (exactly once for sequences). growth: rules without ambiguity '
    '(lists, left, right and nested recursion, options) on texts of doubled lengths; predicate '
    'calls may grow 4 times, function calls of yargy polynomially. memory: weak references to all '
    'tokens, matches, trees, facts, user values and the text must die with the results, and the '
    'number of live yargy objects must stay the same. Non trivial: rule with matches.'
)
QUICK = 1.5
MINIMUMS = {'term_tokens': 30000, 'calls_seen': 10000, 'growth_points': 300, 'tracked_tokens': 5000,
            'tracked_facts': 300, 'tracked_matches': 500, 'dropped_iterators': 100, 'families': 8,
            'live_checks': 30, 'parts_of_texts_checked': 30, 'tracked_texts': 300, 'tracked_values': 100,
            'long_texts': 20, 'long_matches': 100}


class Counter(object):
    """Calls of the predicate of one term, by token index"""

    def __init__(self, kind):
        self.kind = kind
        self.calls = {}

    def make(self):
        def accept(value):
            index = int(value[1:])
            self.calls[index] = self.calls.get(index, 0) + 1
            return self.kind == '*' or value[0] == self.kind
        return accept


def make_tokenizer():
    from yargy.tokenizer import Tokenizer
    from yargy.token import Token
    from yargy.span import Span

    class Letters(Tokenizer):
        """'abca' -> tokens a0 b1 c2 a3"""

        def __call__(self, text):
            for index, char in enumerate(text):
                yield Token('%s%d' % (char, index), Span(2 * index, 2 * index + 1), 'X')

    return Letters()


def arrivals(root, text, starts):
    """{id(term): {token: number of partial derivations that get there}}"""
    table = {}
    budget = [20000]

    def visit(node, ends, factor):
        budget[0] -= 1
        if budget[0] < 0:
            raise Skip
        if isinstance(node, Term):
            row = table.setdefault(id(node), {})
            result = {}
            kind = node.counter.kind
            for position, count in ends.items():
                if position < len(text):
                    row[position] = row.get(position, 0) + count * factor
                    if kind == '*' or text[position] == kind:
                        result[position + 1] = count
            return result
        if isinstance(node, Seq):
            for item in node.items:
                ends = visit(item, ends, factor)
            return ends
        if isinstance(node, Or):
            result = {}
            for item in node.items:
                merge(result, visit(item, ends, factor))
            return result
        if isinstance(node, Opt):
            result = dict(ends)
            merge(result, visit(node.item, ends, factor))
            return result
        if isinstance(node, Named):
            return visit(node.item, ends, factor)
        if isinstance(node, Rep):
            # continue and stop are two productions that start with the item
            result = {}
            low, high = node.bounds
            count = 0
            while ends and (high is None or count < high):
                ends = visit(node.item, ends, factor * 2)
                count += 1
                if count >= low:
                    merge(result, ends)
            return result
        raise AssertionError(node)

    for start in starts:
        visit(root, {start: 1}, 1)
    return table


def merge(table, other):
    for key, value in other.items():
        table[key] = table.get(key, 0) + value


def counted(rng):
    node = Term(None)
    node.counter = Counter(rng.choice(['a', 'b', 'c', 'a', '*']))
    node.pred = Pred('custom', node.counter.make())
    return node


def run(made, method, text):
    result = getattr(made, method)(text)
    if method in ('findall', 'extract'):
        result = list(result)
    return result


def finite(rng, depth, terms):
    x = rng.random()
    if depth <= 0 or x < 0.2:
        node = counted(rng)
        terms.append(node)
        return node
    if x < 0.55:
        return Seq([finite(rng, depth - 1, terms) for _ in range(rng.randint(1, 3))])
    if x < 0.7:
        return Or([finite(rng, depth - 1, terms) for _ in range(rng.randint(2, 3))])
    if x < 0.82:
        return Opt(finite(rng, depth - 1, terms), rng.random() < 0.4)
    if x < 0.9:
        return Named(finite(rng, depth - 1, terms), 'N')
    item = Seq([finite(rng, depth - 2, terms)])
    return Rep(item, rng.choice([None, None, 2]), rng.choice([None, 2, 3]), rng.random() < 0.3)


def show(root, terms):
    for index, term in enumerate(terms):
        term.pred.arg.__name__ = 't%d_%s' % (index, term.counter.kind)
    return describe(root)


def work(case):
    from yargy import Parser
    rng = case.rng
    terms = []
    root = finite(rng, rng.choice([1, 2, 2, 3]), terms)
    listing = show(root, terms)
    case.note(*listing)
    made = Parser(build(root), make_tokenizer())
    for _ in range(3):
        text = ''.join(rng.choice('abcaa') for _ in range(rng.choice([1, 3, 6, 10])))
        size = len(case.notes)
        case.note('tokens %s' % text)
        for method in ('findall', 'extract', 'match', 'find'):
            for term in terms:
                term.counter.calls.clear()
            limits = arrivals(root, text, [0] if method == 'match' else range(len(text)))
            result = run(made, method, text)
            for index, term in enumerate(terms):
                limit = limits.get(id(term), {})
                for token, count in term.counter.calls.items():
                    case.ok()
                    case.count('term_tokens')
                    case.count('calls_seen', count)
                    if count > limit.get(token, 0):
                        case.fail('%s() asked term %d about token %d %d times, it can get there in %d ways' % (
                            method, index, token, count, limit.get(token, 0)))
            if result:
                case.seen(listing, text, method)
        del case.notes[size:]
    case.sample({'rule': listing, 'tokens': text})


def sequences(case):
    """Once per term and token; match() asks term k about token k only"""
    from yargy import Parser
    rng = case.rng
    terms = [counted(rng) for _ in range(rng.randint(1, 5))]
    root = Seq(terms)
    if rng.random() < 0.3:
        root = Named(root, 'N')
    listing = show(root, terms)
    case.note(*listing)
    made = Parser(build(root), make_tokenizer())
    text = ''.join(rng.choice('abcaa') for _ in range(rng.randint(0, 20)))
    if rng.random() < 0.5:
        text = ''.join(_.counter.kind if _.counter.kind != '*' else 'b' for _ in terms) * rng.randint(1, 3)
    case.note('tokens %s' % text)
    for method in ('findall', 'extract', 'find', 'match'):
        for term in terms:
            term.counter.calls.clear()
        result = run(made, method, text)
        for index, term in enumerate(terms):
            for token, count in term.counter.calls.items():
                case.count('term_tokens')
                case.count('calls_seen', count)
                case.check(count == 1, '%s() asked term %d about token %d %d times' % (method, index, token, count))
                if method == 'match':
                    case.check(token == index, 'match() asked term %d about token %d' % (index, token))
        if result:
            case.seen(listing, text, method)


# ------------------------------------------------------------------ growth


def t(char, counters):
    node = Term(None)
    node.counter = Counter(char)
    node.pred = Pred('custom', node.counter.make())
    counters.append(node.counter)
    return node


def family(rng, counters):
    """-> name, rule without ambiguity, function n -> text"""
    name = rng.choice(['list', 'left', 'right', 'nested', 'arithmetic', 'pairs', 'options', 'repeat', 'bounded', 'blocks'])
    a, b, c = [t(_, counters) for _ in 'abc']
    if name == 'list':
        root = Seq([a, Opt(Rep(Seq([b, t('a', counters)])))])
        return name, root, lambda n: 'ab' * (n // 2) + 'a'
    if name == 'left':
        root = Fwd()
        root.target = Or([Seq([root, b, a]), t('a', counters)])
        return name, root, lambda n: 'ab' * (n // 2) + 'a'
    if name == 'right':
        root = Fwd()
        root.target = Or([Seq([a, b, root]), t('a', counters)])
        return name, root, lambda n: 'ab' * (n // 2) + 'a'
    if name == 'nested':
        root = Fwd()
        root.target = Or([Seq([a, root, b]), c])
        return name, root, lambda n: 'a' * (n // 2) + 'c' + 'b' * (n // 2)
    if name == 'arithmetic':
        expr, item = Fwd(), Fwd()
        item.target = Or([a, Seq([t('(', counters), expr, t(')', counters)])])
        expr.target = Or([Seq([expr, b, item]), item])
        return name, expr, lambda n: ('(aba)b' * (n // 6 + 1))[:-1]
    if name == 'pairs':
        return name, Rep(Seq([a, b])), lambda n: 'ab' * (n // 2)
    if name == 'options':
        return name, Seq([Opt(a), b, Opt(c)]), lambda n: 'abcb' * (n // 4)
    if name == 'repeat':
        return name, Seq([Rep(a), b]), lambda n: 'a' * (n - 1) + 'b'
    if name == 'bounded':
        return name, Seq([Rep(a, max=3), b]), lambda n: 'aab' * (n // 3)
    return name, Rep(Seq([a, Opt(b), c]), min=2), lambda n: 'abcac' * (n // 5)


def yargy_calls(function):
    """Function calls inside of yargy"""
    import yargy
    folder = yargy.__path__[0]
    count = [0]

    def profile(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(folder):
            count[0] += 1

    kept = sys.getprofile()
    sys.setprofile(profile)
    try:
        function()
    finally:
        sys.setprofile(kept)
    return count[0]


def growth(case):
    from yargy import Parser
    rng = case.rng
    counters = []
    name, root, make = family(rng, counters)
    case.value('families', name)
    tail = rng.choice(['', '', 'd', 'a'])
    method = rng.choice(['findall', 'match', 'extract'])
    case.note(name, method)
    made = Parser(build(root), make_tokenizer())
    points = []
    for n in (12, 24, 48):
        text = make(n) + tail
        for counter in counters:
            counter.calls.clear()
        run(made, method, text)
        asked = sum(sum(_.calls.values()) for _ in counters)
        calls = yargy_calls(lambda: run(made, method, text))
        points.append((len(text), asked, calls))
        case.count('growth_points')
    case.note('tokens, predicate calls, function calls %s' % points)
    terms = len(counters)
    for (size, asked, calls), (size2, asked2, calls2) in zip(points, points[1:]):
        scale = size2 / size
        case.check(asked2 <= asked * scale ** 2 * 1.15 + 4 * terms,
                   '%s: predicates asked %d times for %d tokens and %d times for %d' % (name, asked, size, asked2, size2))
        case.check(calls2 <= calls * scale ** 4 * 1.3,
                   '%s: %d function calls for %d tokens and %d for %d' % (name, calls, size, calls2, size2))
        case.check(asked2 <= 4 * terms * size2 ** 2, '%d predicate calls for %d tokens' % (asked2, size2))
    case.seen(name, method, tail)


# ------------------------------------------------------------------ memory


class Text(str):
    """Text that can be watched"""


class Value(object):
    """Value made by a user function"""

    def __init__(self, text):
        self.text = text


def memory(case):
    from yargy import Parser
    from yargy.tagger import Tagger
    rng = case.rng
    refs = []
    failing = []

    class Watching(Tagger):
        tags = ['B']

        def __call__(self, tokens):
            for token in tokens:
                refs.append(('token', weakref.ref(token)))
                if failing and rng.random() < 0.3:
                    raise RuntimeError
                if rng.random() < 0.1:
                    token = token.tagged('B')
                    refs.append(('token', weakref.ref(token)))
                yield token

    def valued(text):
        value = Value(text)
        refs.append(('value', weakref.ref(value)))
        return value

    rules = FactRules(rng, relations=rng.choice([0, 0.15]))
    root = rules.root(depth=rng.choice([1, 2]))
    listing = describe(root)
    case.note(*listing)
    rule = build(root)
    if rng.random() < 0.3:
        from yargy import interpretation
        from yargy import rule as rule_
        from yargy.predicates import gram
        rule = rule_(gram('NOUN')).repeatable(max=2).interpretation(interpretation.custom(valued))
    made = Parser(rule, morph_tokenizer(), Watching())

    def use():
        for item in texts(rng, root, 2) + [words.sentence(rng, 4)]:
            text = Text(item)
            refs.append(('text', weakref.ref(text)))
            method = rng.choice(['findall', 'extract', 'match', 'find', 'partial', 'failing'])
            found = []
            if method == 'failing':
                failing.append(True)
                try:
                    found = run(made, rng.choice(['findall', 'match', 'extract']), text)
                    found = found if isinstance(found, list) else [found] if found else []
                except RuntimeError:
                    case.count('failed_texts')
                failing.pop()
            elif method == 'partial':
                iterator = made.findall(text)
                for match in iterator:
                    found.append(match)
                    break
                case.count('dropped_iterators')
            else:
                result = run(made, method, text)
                found = result if isinstance(result, list) else [result] if result else []
            for match in found[:20]:
                refs.append(('match', weakref.ref(match)))
                refs.append(('tree', weakref.ref(match.tree)))
                for token in match.tokens:
                    refs.append(('token', weakref.ref(token)))
                try:
                    fact = match.fact
                except (TypeError, ValueError):
                    continue
                try:
                    refs.append(('fact', weakref.ref(fact)))
                except TypeError:
                    # plain text
                    pass
                if hasattr(fact, 'as_json'):
                    fact.as_json, fact.spans
                if rng.random() < 0.3:
                    match.tree.as_dot

    case.note(*['texts are made from the rule'])
    use()
    del CALLS[:]        # values given to user functions
    gc.collect()
    names = {'token': 'tracked_tokens', 'match': 'tracked_matches', 'fact': 'tracked_facts',
             'text': 'tracked_texts', 'tree': 'tracked_trees', 'value': 'tracked_values'}
    alive = []
    for kind, ref in refs:
        case.ok()
        case.count(names[kind])
        value = ref()
        if value is not None:
            alive.append('%s %r' % (kind, value))
        del value
    case.check(not alive, '%d objects of the text are still alive: %s' % (len(alive), alive[:3]))
    if any(kind == 'match' for kind, _ in refs):
        case.seen(listing)
    # the parser and the rule still work
    run(made, 'findall', 'дом 5')
    case.sample({'rule': listing, 'watched': len(refs)})


def census():
    import collections
    counts = collections.Counter()
    for item in gc.get_objects():
        cls = type(item)
        if cls.__module__ and cls.__module__.startswith('yargy'):
            counts[cls.__name__] += 1
    return counts


CACHED = {'Form', 'Grams'}      # analyses of words are cached on purpose
TEXT = ('yargy.token', 'yargy.span', 'yargy.tree', 'yargy.parser')      # what texts are made into


def kept_parts():
    """Live objects that are parts of texts"""
    gc.collect()
    return sum(1 for _ in gc.get_objects() if type(_).__module__ in TEXT)


def population(case):
    """Live yargy objects after many texts"""
    from yargy import Parser
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0.15]))
    root = rules.root(depth=2)
    case.note(*describe(root))
    made = Parser(build(root), morph_tokenizer())
    items = texts(rng, root, 4) + [words.sentence(rng, 5) for _ in range(4)]

    def use():
        for text in items:
            for method in ('findall', 'match', 'find', 'extract'):
                result = run(made, method, text)
                for match in (result if isinstance(result, list) else [result])[:10]:
                    if match:
                        try:
                            match.fact
                        except (TypeError, ValueError):
                            pass
            iterator = iter(made.findall(text))
            next(iterator, None)
            del iterator

    start = kept_parts()
    use()
    del CALLS[:]
    gc.collect()
    rest = kept_parts()
    case.check(rest <= start, '%d tokens, spans, trees and states are alive before the texts, %d after' % (start, rest))
    case.count('parts_of_texts_checked')
    before = census()
    for _ in range(3):
        use()
    del CALLS[:]
    gc.collect()
    after = census()
    grown = {key: (before[key], after[key]) for key in after if after[key] > before[key] and key not in CACHED}
    case.check(not grown, 'live objects before and after: %s' % grown)
    case.count('live_checks')
    case.seen(describe(root))


def long_texts(case):
    """Nothing of a text of hundreds of tokens is kept either"""
    from yargy import Parser
    from yargy import rule, or_
    from yargy.interpretation import fact
    from yargy.pipelines import morph_pipeline
    from yargy.predicates import gram, eq, in_
    from yargy.relations import gnc_relation
    rng = case.rng
    gnc = gnc_relation()
    F = fact('F', ['a', 'b'])
    made = Parser(rng.choice([
        lambda: rule('красная', 'площадь'),
        lambda: morph_pipeline(['красная площадь', 'дом']),
        lambda: rule(
            gram('ADJF').match(gnc).interpretation(F.a.normalized()), gram('NOUN').match(gnc).interpretation(F.b)
        ).interpretation(F),
        lambda: or_(rule(in_(['дом', 'красная'])), rule(eq('.'), gram('ADJF').optional())).interpretation(F.a).interpretation(F),
    ])(), morph_tokenizer())
    size = rng.choice([33, 65, 100, 129, 257, 300, 513, 700, 1025])
    text = ' '.join(rng.choice(['красная площадь', 'большого дома .', 'красной площади', 'дом', 'стали', '. 5']) for _ in range(size))
    case.note('%d parts' % size)
    made.match('дом')
    start = kept_parts()
    for _ in range(2):
        method = rng.choice(['findall', 'extract', 'match', 'find', 'partial'])
        if method == 'partial':
            found = [next(iter(made.findall(text)), None)]
        else:
            found = run(made, method, text)
        for match in (found if isinstance(found, list) else [found])[:20]:
            if match:
                try:
                    match.fact
                except ValueError:
                    # rule without interpretation
                    pass
                match.span, match.tokens
                case.count('long_matches')
        found = match = None
        rest = kept_parts()
        case.check(rest <= start, '%d tokens, spans, trees and states are alive before %s() of %d parts of a text, %d after' % (
            start, method, size, rest))
    case.count('long_texts')
    case.seen(size, made.rule.label, text[:100])


WORKLOADS = [
    W('work', work, 1500, 15000),
    W('sequences', sequences, 600, 4000),
    W('growth', growth, 160, 1200),
    W('memory', memory, 500, 6000),
    W('population', population, 64, 400),
    W('long', long_texts, 20, 120),
]
