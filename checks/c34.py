"""C34: labels name what the user wrote; everything can be displayed."""
import re

from vlib.run import W, Skip
from vlib.gram import (
    describe, Recognizer, Derivations, Builder, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd, Pipe, Empty, eq, walk, build
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.facts import FactRules, texts
from vlib.interp import ISpec, FactSpec, USER
from vlib.common import text_of, morph_tokenizer, plain_tokenizer, alphabet, LETTERS, LITERALS
from vlib.observe import outcome
from vlib import ref, words, pipes
from checks.c09 import Later

RULE = (
    'labels: random predicate expressions, annotations and relations are put in a rule; the label '
    'in the listing, the picture, the parse tree and the chart must name constructor, operands and '
    'arguments as given. display: repr, str and pretty printing of everything a user can get hold '
    'of (rules, their normal forms and listings, predicates, attributes, parsers, charts, matches, '
    'trees and their nodes, tokens, facts, pictures) are called between two rounds of parsing; '
    'none may raise or change a result. charts: the completed entries of a printed chart are the '
    'runs an independent recognizer finds. Non trivial: composed labels.'
)
TECHNIQUE = 'runtime monitoring: labels and displays against the expressions they were built from; results before and after displaying'
QUICK = 1.5
MINIMUMS = {'nameless': 60, 'callables_matched': 120, 'labels': 2000, 'composed': 400, 'annotation_labels': 800, 'relation_labels': 300, 'displayed': 20000,
            'kinds_displayed': 25, 'charts': 400, 'chart_lines': 5000, 'complete': 600, 'tree_labels': 300,
            'early_displays': 200, 'finished': 150}


# ---------------------------------------------------------------- labels


def first(value):
    return value


def Second(value):
    return value




def literal(value):
    """repr(value), strings in any quotes"""
    if isinstance(value, str):
        return "(?:%s|'%s')" % (re.escape(repr(value)), re.escape(value))
    return re.escape(repr(value))


def function(value):
    return r'(?:%s|(?:function=)?<[^<>]*\b%s\b[^<>]*>(?:, types=[^()]*)?|%s, types=[^()]*)' % (
        re.escape(value.__name__), re.escape(value.__name__), re.escape(value.__name__))


def pattern(pred, active=False):
    """Regular expression of the label; active: as the parser uses it"""
    kind, arg = pred.kind, pred.arg
    if kind in ('and', 'or', 'not'):
        return r'%s_\(%s\)' % (kind, ', '.join(pattern(_, active) for _ in pred.subs))
    if kind == 'normalized' and active:
        # a dictionary of one word
        return r'(?:normalized\((?:value=)?%s\)|dictionary\(\.\.\.\))' % literal(arg)
    if kind == 'eq':
        return literal(arg)
    if kind in ('in_', 'in_caseless', 'dictionary'):
        return r'%s\(\.\.\.\)' % kind
    if kind == 'custom':
        return r'custom\(%s\)' % function(arg)
    if kind in ('true', 'is_lower', 'is_upper', 'is_title', 'is_capitalized', 'is_single'):
        return r'%s\(\)' % kind
    if kind == 'caseless':
        # letter case does not matter
        return r'caseless\((?:value=)?(?:%s|%s)\)' % (literal(arg), literal(arg.lower()))
    return r'%s\((?:value=)?%s\)' % (kind, literal(arg))


VALUES = ['a', 'дом', 'IBM', '5', ',', '-', 'it', 'x y', '»', '(', '|', '->', 'R0', '^', 'e', 'é', '№', 'a|b', 'None',
          '\n', ' ', '\t', ' a', '\r\n', '\\', '.*', '%s', '{}', '[a']


def atom(rng):
    kind = rng.choice(['eq', 'eq', 'caseless', 'normalized', 'gram', 'gram', 'type', 'type', 'tag', 'length_eq', 'gte', 'lte',
                       'in_', 'in_caseless', 'dictionary', 'custom', 'true', 'is_lower', 'is_upper', 'is_title',
                       'is_capitalized', 'is_single'])
    if kind in ('eq', 'caseless', 'normalized'):
        return Pred(kind, rng.choice(VALUES))
    if kind == 'gram':
        return Pred(kind, rng.choice(['NOUN', 'ADJF', 'Name', 'sing', 'gent', 'INFN', 'Geox']))
    if kind == 'type':
        return Pred(kind, rng.choice(['RU', 'LATIN', 'INT', 'PUNCT', 'EOL', 'OTHER']))
    if kind == 'tag':
        return Pred(kind, rng.choice(TAGS))
    if kind in ('length_eq', 'gte', 'lte'):
        return Pred(kind, rng.choice([0, 1, 5, 12, 1990, 10 ** 12]))
    if kind in ('in_', 'in_caseless'):
        return Pred(kind, rng.choice([('a', 'b'), ('дом',), frozenset({'x', 'y', 'z'}), 'SML']))
    if kind == 'dictionary':
        return Pred(kind, rng.choice([('дом',), ('дом', 'книга', 'стать')]))
    if kind == 'custom':
        return Pred(kind, rng.choice([first, Second, len, named]), types=rng.choice([None, None, ['INT'], ['RU', 'LATIN']]))
    return Pred(kind)


def named(value):
    return True


TAGS = ['B', 'I-PER', 'тег', 7, 0, ('B', 'PER')]


def expression(rng, depth):
    if depth <= 0 or rng.random() < 0.3:
        return atom(rng)
    kind = rng.choice(['and', 'or', 'not'])
    return Pred(kind, subs=[expression(rng, depth - 1) for _ in range(1 if kind == 'not' else rng.choice([1, 2, 2, 3, 4] * 8 + [9, 33]))])


def tagger():
    from yargy.tagger import Tagger

    class Knows(Tagger):
        tags = list(TAGS)

        def __call__(self, tokens):
            return tokens
    return Knows()


def picture_labels(source):
    """Labels of nodes, quoted characters as written"""
    return [
        re.sub(r'\\(.)', lambda match: {'n': '\n', 'r': '\r'}.get(match.group(1), match.group(1)), _, flags=re.S) for _ in
        re.findall(r'^\d+ \[.*?label="((?:[^"\\]|\\.)*)"', '\n'.join(source), re.M | re.S)
    ]


def matches(case, label, expected, what):
    case.ok()
    case.count('labels')
    if not re.fullmatch(expected, label, re.S):
        case.fail('%s is %r, expected %s' % (what, label, expected))


def predicates(case):
    from yargy import Parser, rule
    rng = case.rng
    preds = [expression(rng, rng.choice([0, 0, 1, 2])) for _ in range(rng.randint(1, 4))]
    case.note(*[repr(_) for _ in preds])
    made = rule(*[_.build() for _ in preds])
    expected = [pattern(_) for _ in preds]
    whole = ' '.join(expected)
    line, = made.normalized.as_bnf.source
    matches(case, line, 'R0 -> ' + whole, 'listing')
    matches(case, '\n'.join(str(_) for _ in made.normalized.as_bnf.source), 'R0 -> ' + whole, 'listing, again')
    drawn = [_ for _ in picture_labels(made.as_dot.source) if _ not in ('Rule', 'Production')]
    case.equal(len(drawn), len(preds), 'leaves of the picture %s' % drawn)
    for label, item in zip(drawn, expected):
        matches(case, label, item, 'label in the picture')
    parser = Parser(made, morph_tokenizer(), tagger())
    text = words.sentence(rng, 2)
    charted = list(parser.chart(text).source) if rng.random() < 0.3 else []
    for line in charted:
        if line.startswith('[0:0]'):
            # the chart shows predicates as the parser uses them
            active = ' '.join(pattern(_, True) for _ in preds)
            matches(case, line, r'\[0:0\] R0 -> \$ ' + active, 'entry of the chart')
    if any(_.subs for _ in preds):
        case.count('composed')
        case.seen(repr(preds))
    case.sample({'predicates': [repr(_) for _ in preds], 'listing': line})


def step_pattern(step, after):
    name = step[0]
    if name == 'normalized':
        return r'normalized\(\)'
    if name == 'inflected':
        # nominative singular is the default
        return r'inflected\(%s\)' % (', '.join(sorted(step[1])) if step[1] else '(?:nomn, sing)?')
    if name == 'const':
        return r'const\(%s\)' % literal(step[1])
    title = USER[step[1]].__name__
    title = re.escape(title)
    # a function after normalized() or inflected() may be shown by name only
    return r'(?:custom\(%s\)|%s)' % (title, title) if after else r'custom\(%s\)' % title


def spec_pattern(spec):
    if spec.kind == 'fact':
        return spec.fact.name
    parts = ['%s\\.%s' % (spec.fact.name, spec.attr)] if spec.kind == 'attr' else []
    for index, step in enumerate(spec.chain):
        parts.append(step_pattern(step, index > 0))
    return r'\.'.join(parts)


def relation_pattern(spec):
    if spec.kind in ('and', 'or', 'not'):
        return r'%s_\(%s\)' % (spec.kind, ', '.join(relation_pattern(_) for _ in spec.subs))
    return spec.kind


def chain(rng):
    name = lambda: rng.choice(sorted(USER))
    grams = lambda: rng.choice([None, frozenset({'gent'}), frozenset({'nomn', 'plur'}), frozenset({'sing', 'ablt', 'femn'})])
    return rng.choice([
        lambda: [], lambda: [('normalized',)], lambda: [('inflected', grams())], lambda: [('inflected', grams())],
        lambda: [('const', rng.choice(['K', 1, None, ('x',), 'дом', 2.5]))], lambda: [('custom', name())],
        lambda: [('custom', name()), ('custom', name())], lambda: [('normalized',), ('custom', name())],
        lambda: [('inflected', grams()), ('custom', name())],
    ])()


def relation(rng, depth=2):
    if depth <= 0 or rng.random() < 0.5:
        return RelSpec(rng.choice(['gnc', 'number', 'gender', 'case']))
    kind = rng.choice(['and', 'or', 'not'])
    return RelSpec(kind, [relation(rng, depth - 1) for _ in range(1 if kind == 'not' else rng.randint(2, 3))])


def annotations(case):
    """Labels of facts, attributes, normalizers and relations"""
    from yargy import Parser
    rng = case.rng
    title = rng.choice(['F', 'Person', 'Дата', 'A_b'])
    spec = FactSpec(title, [('a', None, False), ('first', 0, False), ('r', None, True)])
    parts = []
    labels = []
    count = rng.randint(1, 3)
    for index in range(count):
        node = Term(eq('abc'[index]))
        kind = rng.choice(['attr', 'attr', 'norm', 'repeatable', 'fact', 'named'])
        if kind == 'repeatable':
            item = ISpec('attr', spec, 'r')
        elif kind == 'fact':
            item = ISpec('fact', spec)
        elif kind == 'named':
            item = None
        else:
            steps = chain(rng)
            if kind == 'norm' and not steps:
                steps = [('normalized',)]
            item = ISpec(kind, spec, rng.choice(['a', 'first']), steps)
        if item is None:
            name = rng.choice(['NAME', 'имя', 'x'])
            node, label = Named(node, name), name
        else:
            node, label = Interp(Seq([node]) if kind == 'fact' else node, item), spec_pattern(item)
        if rng.random() < 0.5:
            given = relation(rng)
            node = Rel(node, given)
            label += r'\^' + relation_pattern(given)
            case.count('relation_labels')
        case.count('annotation_labels')
        parts.append(node)
        labels.append(label)
    # parts with two names keep the outer one
    root = Named(Seq(parts), 'ROOT')
    listing = describe(root)
    case.note(*listing)
    made = build(root)
    lines = list(made.normalized.as_bnf.source)
    case.check(lines[0].startswith('ROOT -> '), 'first line %r' % lines[0])
    matches(case, lines[0], 'ROOT -> ' + ' '.join(labels), 'first line of the listing')
    for index, label in enumerate(labels):
        found = [_ for _ in lines[1:] if re.fullmatch(label + " -> '%s'" % 'abc'[index], _)]
        case.check(found, 'no line %s in %s' % (label, lines))
    shown = picture_labels(made.as_dot.source)
    for label in labels:
        for part in label.split(r'\^'):
            case.check(any(re.fullmatch(part, _) for _ in shown), 'no node %s in the picture %s' % (part, shown))
    parser = Parser(made, plain_tokenizer())
    match = parser.match('a b c'[:2 * count - 1])
    if match:
        # relations are between words only
        root_node = match.tree.root
        case.equal(root_node.label, 'ROOT', 'label of the tree')
        case.equal(len(root_node.children), count, 'children')
        for node, label in zip(root_node.children, labels):
            matches(case, node.label, label, 'label in the tree')
            case.equal([_.label for _ in node.children], [node.children[0].token.value], 'label of a leaf')
            case.count('tree_labels')
    case.seen(listing)
    case.sample({'rule': listing, 'lines': lines})


# --------------------------------------------------------------- display


class Printer(object):
    """The part of IPython's printer that displays use"""

    def __init__(self):
        self.parts = []
        self.depth = 0
        self.active = []

    def text(self, value):
        if not isinstance(value, str):
            raise AssertionError('text(%r)' % (value,))
        self.parts.append(value)

    def break_(self):
        self.parts.append('\n')

    def breakable(self, sep=' '):
        self.parts.append(sep)

    def indent(self, size):
        return self

    def group(self, *args):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def pretty(self, value):
        show = getattr(type(value), '_repr_pretty_', None)
        if show is None:
            if isinstance(value, (list, tuple)):
                self.text('[')
                for item in value:
                    self.pretty(item)
                    self.text(', ')
                self.text(']')
                return
            self.text(repr(value))
            return
        cycle = any(_ is value for _ in self.active)
        self.active.append(value)
        try:
            show(value, self, cycle)
        finally:
            self.active.pop()


def pretty(value):
    printer = Printer()
    printer.pretty(value)
    return ''.join(printer.parts)


def display(case, value, deep=True):
    """-> all the ways to show it"""
    result = [repr(value), str(value)]
    case.count('displayed', 2)
    case.value('kinds_displayed', type(value).__name__)
    case.ok()
    for item in result:
        case.check(item.__class__ is str, 'not a text')
    if deep and len(result[0]) < 20000:
        try:
            from IPython.lib.pretty import pretty as ipython
        except ImportError:
            ipython = None
        result.append(pretty(value))
        if ipython and case.i % 10 == 0:
            result.append(ipython(value))
        case.count('displayed')
        case.check(result[2], 'nothing is shown of %s' % type(value).__name__)
    label = getattr(value, 'label', None)
    if label is not None and not callable(label):
        case.check(str(label), 'empty label of %s' % type(value).__name__)
        result.append(str(label))
    return result


def nodes(tree):
    stack = [tree.root]
    while stack:
        node = stack.pop()
        yield node
        stack.extend(node.children)


def parts(item, name):
    return list(getattr(item, name, ()))


def everything(rule, parser, text):
    """All objects a user can get hold of"""
    yield rule
    yield rule.normalized
    listing = rule.normalized.as_bnf
    yield listing
    yield listing.start
    for item in parts(listing, 'rules')[:6]:
        yield item
        for production in parts(item, 'productions')[:3]:
            yield production
            for term in parts(production, 'terms')[:3]:
                yield term
    yield rule.as_dot
    yield parser
    yield parser.tokenizer
    yield parser.tagger
    yield getattr(parser.tokenizer, 'rules', None)
    tokens = list(parser.tokenizer(text))
    for token in tokens[:4]:
        yield token
        yield token.span
        for form in (getattr(token, 'forms', None) or [])[:2]:
            yield form
            yield form.grams
    found = list(parser.findall(text))
    found += [item for item, _ in zip(parser.extract(text), range(3))]
    yield found
    for match in found[:4]:
        yield match
        yield match.span
        yield match.tree
        for node in list(nodes(match.tree))[:8]:
            yield node
        yield match.tree.as_dot
        try:
            fact = match.fact
        except (TypeError, ValueError):
            continue
        yield fact
        if hasattr(fact, 'as_json'):
            yield fact.as_json
            yield fact.spans
            for key in type(fact).__attributes__:
                yield getattr(fact, key)
                yield getattr(type(fact), key)
    chart = parser.chart(text)
    yield chart
    for column in parts(chart, 'columns')[:4]:
        yield column
        for state in parts(column, 'states')[:4]:
            yield state


def judge_display(case, root, items, tokenizer, morph=True):
    from yargy import Parser
    if not defined(root) or not items:
        raise Skip
    rng = case.rng
    for text in items:
        Derivations(root, ref.tokenize(text, morph=morph), limit=150).load(400)
    case.note(*describe(root))
    rule = build(root)
    reference = Parser(build(root), tokenizer)
    methods = ('match', 'findall', 'extract')
    expected = {text: outcome(reference, text, methods) for text in items}
    listing = list(rule.normalized.as_bnf.source)
    made = Parser(rule, tokenizer)
    for text in items:
        case.notes.append('text %r' % text)
        objects = list(everything(rule, made, text))
        shown = [display(case, _) for _ in objects]
        for item, before in list(zip(objects, shown))[::-1][::rng.choice([1, 2, 5])]:
            case.equal(display(case, item), before, 'second display of %s' % type(item).__name__)
        case.equal(outcome(made, text, methods), expected[text], 'results after displaying')
        case.equal(list(rule.normalized.as_bnf.source), listing, 'listing after displaying')
        case.equal(pretty(rule.normalized.as_bnf), ''.join(_ + '\n' for _ in listing), 'display of the listing')
        case.equal(outcome(Parser(rule, tokenizer), text, methods), expected[text], 'results of a parser made after displaying')
        for match in made.findall(text):
            shown = repr(match)
            for token in match.tokens:
                case.check(repr(token) in shown, 'token %r is not in %s' % (token, shown))
            case.check(repr(match.span) in shown, 'span is not in %s' % shown)
        case.notes.pop()
    case.seen(describe(root))
    case.sample({'rule': describe(root), 'kinds': sorted({type(_).__name__ for _ in objects})})


def annotated(case):
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0.3]))
    root = rules.root(rng.choice([1, 2]))
    judge_display(case, root, texts(rng, root, 2, 6), morph_tokenizer())


def shapes(case):
    rng = case.rng
    letters, literals = alphabet(rng, 0.4)
    grammars = Grammars(rng, literals[:2], depth=rng.choice([1, 2, 3]), share=0.2, forward=rng.choice([0, 0.3]),
                        named=0.2, empty=0.1)
    root = grammars.root()
    judge_display(case, root, [text_of(_) for _ in literal_texts(rng, root, letters, 2, 4)], plain_tokenizer(), False)


def unusual(case):
    """Objects before they are used in a rule"""
    from yargy import rule, or_, forward, interpretation, empty
    rng = case.rng
    spec = FactSpec('F', [('a', None, False), ('b', 'D', False), ('r', None, True)])
    preds = [expression(rng, rng.choice([0, 1, 2])) for _ in range(5)]
    objects = [_.build() for _ in preds]
    objects += [relation(rng).build() for _ in range(3)]
    for _ in range(4):
        steps = chain(rng)
        kind = rng.choice(['attr', 'norm'])
        if kind == 'norm' and not steps:
            steps = [('normalized',)]
        item = ISpec(kind, spec, rng.choice('ab'), steps)
        built = item.build()
        objects.append(built)
        if hasattr(built, 'label') and steps:
            case.ok()
            prefix = r'(?:F\.%s\.)?' % item.attr
            if not re.fullmatch(prefix + r'\.'.join(step_pattern(step, index > 0) for index, step in enumerate(steps)) +
                                r'|F\.%s' % item.attr, built.label):
                case.fail('label of %r is %r' % (item, built.label))
            case.count('labels')
    case.note(*[repr(_) for _ in preds])
    x = forward()
    y = forward()
    objects += [x, rule(x), empty(), or_(rule(x), empty()), build(pipes.pipe(rng)), spec.cls.r, spec.cls.a, spec.cls, spec.cls(),
                spec.cls(a=spec.cls(b=1), r=[1, spec.cls()]), rule('a').repeatable(min=2).optional().named('X'),
                rule('a').repeatable(max=3), rule('a').repeatable(min=1, max=2), rule('a').optional().repeatable()]
    before = [display(case, _) for _ in objects]
    x.define(rule('a', or_(rule(x), rule('b'))))
    y.define(or_(rule(y, 'a'), rule(x)))
    objects += [x, y, rule(x, y).named('XY'), or_(rule(x), rule(y)).interpretation(spec.cls)]
    for item in objects:
        display(case, item)
    del before
    case.seen(repr(preds))


def early(case):
    """Rules displayed before their forwards are defined"""
    rng = case.rng
    grammars = Grammars(rng, LITERALS, depth=rng.choice([2, 3]), share=0.2, forward=0.35, named=0.3)
    root = grammars.root()
    if not any(isinstance(_, Fwd) for _ in walk(root)):
        root = Seq([Fwd(root), Fwd(Term(LITERALS[0]))])
    if not defined(root):
        raise Skip
    case.note(*describe(root))
    later = Later()
    rule = later(root)
    while True:
        parts = [rule] * 3 + list(later.memo.values()) + list(later.forwards.values())
        for _ in range(rng.randint(0, 2)):
            item = rng.choice(parts)
            display(case, item)
            for name in rng.sample(['normalized', 'as_dot'], rng.randint(0, 2)):
                try:
                    shown = getattr(item, name)
                except (TypeError, ValueError, AttributeError):
                    # nothing can be made of it yet
                    case.count('early_rejected')
                    continue
                case.note('%s before %d definitions' % (name, len(later.waiting)))
                display(case, shown)
                case.count('early_displays')
        if not later.waiting:
            break
        later.define()
    fresh = Builder()(root)
    case.equal(list(rule.normalized.as_bnf.source), list(fresh.normalized.as_bnf.source),
               'listing of a rule that was displayed before it was finished')
    case.equal(list(rule.as_dot.source), list(fresh.as_dot.source), 'picture of a rule that was displayed before it was finished')
    display(case, rule.normalized.as_bnf)
    case.count('finished')
    case.seen(describe(root))


# ---------------------------------------------------------------- charts


def charts(case):
    """Printed chart: completed entries of the first symbol are the runs"""
    rng = case.rng
    grammars = Grammars(rng, LITERALS[:rng.choice([1, 2, 3])], depth=rng.choice([1, 2, 3]), share=0.1,
                        forward=rng.choice([0, 0.15]), empty=rng.choice([0, 0.05]), named=0.2, reverse=0.3)
    root = grammars.root()
    if not defined(root):
        raise Skip
    root = Named(root, 'START')
    judge_chart(case, root, literal_texts(rng, root, LETTERS, 3, 5))


def long_charts(case):
    """Texts of hundreds of tokens"""
    rng = case.rng
    a, b, c = [Term(_) for _ in LITERALS]
    root = rng.choice([
        lambda: Seq([a, b]), lambda: Seq([a]), lambda: Or([a, Seq([b, c])]), lambda: Seq([Opt(a), b]),
        lambda: Rep(Or([a, b]), max=3), lambda: Seq([Named(a, 'A'), Named(Opt(b), 'B')])
    ])()
    values = [[rng.choice(LETTERS) for _ in range(rng.choice([90, 120, 260, 700]))]]
    if rng.random() < 0.5:
        values.append(['y'] * rng.choice([99, 101, 128, 130]) + ['a', 'b', 'c'])
    case.count('long_charts', len(values))
    judge_chart(case, Named(root, 'START'), values)


def judge_chart(case, root, items):
    from yargy import Parser
    case.note(*describe(root))
    made = Parser(build(root), plain_tokenizer())
    for values in items:
        text = text_of(values)
        tokens = ref.tokenize(text, morph=False)
        derivations = Derivations(root, tokens, limit=300)
        if len(values) < 50:
            derivations.load(800)
        case.notes.append('text %r' % text)
        chart = made.chart(text)
        lines = list(chart.source)
        case.equal(pretty(chart), ''.join(_ + '\n' for _ in lines), 'display of the chart')
        complete = set()
        column = -1
        for line in lines:
            head = re.match(r'^(\d+) (None|Token\(.*\))$', line)
            if head:
                column += 1
                case.equal(int(head.group(1)), column, 'number of the column')
                case.equal(head.group(2), repr(list(made.tokenizer(text))[column - 1]) if column else 'None', 'token of the column')
                continue
            entry = re.match(r'^\[(\d+):(\d+)\] (\S+) -> (.*)$', line)
            if not entry:
                case.check(line in ('', '----------------'), 'unexpected line %r' % line)
                continue
            start, stop, name, production = int(entry.group(1)), int(entry.group(2)), entry.group(3), entry.group(4)
            case.count('chart_lines')
            case.equal(stop, column, 'end of %r in column %d' % (line, column))
            parts = production.split(' ')
            case.equal(parts.count('$'), 1, 'position in %r' % line)
            if name == 'START' and parts[-1] == '$':
                complete.add((start, stop))
        case.equal(column, len(tokens), 'number of columns')
        expected = derivations.recognizer.spans()
        case.equal(sorted((i, j) for i, j in complete if i < j), sorted(expected), 'complete entries of the chart')
        case.count('complete', len(expected))
        case.count('charts')
        case.seen(describe(root), text)
        case.notes.pop()


class Callable(object):
    """Object of the user that is called like a function, it has no name"""
    __slots__ = ('size',)

    def __init__(self, size):
        self.size = size

    def __call__(self, value):
        return str(value)[:self.size]

    def method(self, value):
        return len(str(value)) == self.size

    @classmethod
    def same(cls, value):
        return value


def callables(case):
    """Any callable object as function of a predicate or normalizer"""
    from functools import partial, lru_cache
    from operator import itemgetter, methodcaller
    from yargy import Parser, rule, and_, not_, or_
    from yargy.predicates import custom, eq as literal_
    from yargy.interpretation import fact, normalized, inflected, custom as normalizer
    rng = case.rng
    function = lambda: rng.choice([
        lambda: partial(first), lambda: partial(max, 'x'), lambda: Callable(2), lambda: Callable(3).method,
        lambda: Callable.same, lambda: first, lambda: len, lambda: str, lambda: str.upper, lambda: 'abc дом'.count,
        lambda: lru_cache(10)(first), lambda: itemgetter(0), lambda: methodcaller('lower'), lambda: Callable,
        lambda: (lambda _: _),
    ])()
    F = fact('F', ['a', 'b'])
    kind = case.i % 9
    f, g = function(), function()
    functions = [f]
    made = 'x'
    with_predicate = None
    if kind == 0:
        with_predicate = custom(f)
    elif kind == 1:
        with_predicate = rng.choice([and_, or_])(custom(f), not_(custom(g)))
        functions.append(g)
    elif kind == 2:
        item = F.a.custom(f)
    elif kind == 3:
        item = F.a.custom(f).custom(g)
        functions.append(g)
    elif kind == 4:
        item = F.a.normalized().custom(f)
    elif kind == 5:
        item = F.a.inflected({'gent'}).custom(f)
    elif kind == 6:
        item = normalizer(f)
    elif kind == 7:
        item = normalizer(f).custom(g)
        functions.append(g)
    else:
        item = rng.choice([normalized, inflected])().custom(f)
    case.note(kind, [repr(_) for _ in functions])
    if with_predicate is not None:
        made = rule(with_predicate, 'y')
    else:
        made = rule(rule('дом').interpretation(item), 'y').interpretation(F)
    listing = list(made.normalized.as_bnf.source)
    graph = list(made.as_dot.source)
    parser = Parser(made, morph_tokenizer())
    objects = [made, made.normalized, made.normalized.as_bnf, made.as_dot, parser.rule]
    objects += [item] if with_predicate is None else [with_predicate]
    shown = [display(case, _) for _ in objects]
    chart = list(parser.chart('дом y').source)
    match = parser.match('дом y')
    if match:
        objects += [match, match.tree, match.tree.root, match.tree.as_dot]
        shown += [display(case, _) for _ in objects[len(shown):]]
        case.count('callables_matched')
    text = '\n'.join(listing)
    for item in functions:
        name = getattr(item, '__name__', None)
        if name and (with_predicate is None or name in repr(item)):
            case.check(name in text, '%r is not in the listing %s' % (name, text))
            case.check(any(name in _ for _ in graph), '%r is not in the picture' % name)
        else:
            case.count('nameless')
    case.equal([display(case, _) for _ in objects], shown, 'second display')
    case.equal(list(made.normalized.as_bnf.source), listing, 'second listing')
    case.equal(list(made.as_dot.source), graph, 'second picture')
    case.equal(list(parser.chart('дом y').source), chart, 'second chart')
    case.seen(kind, [type(_).__name__ for _ in functions], listing)


WORKLOADS = [
    W('callables', callables, 200, 2000),
    W('predicates', predicates, 1500, 20000),
    W('annotations', annotations, 900, 12000),
    W('annotated', annotated, 200, 2500),
    W('shapes', shapes, 300, 3000),
    W('unusual', unusual, 200, 2000),
    W('charts', charts, 400, 5000),
    W('long_charts', long_charts, 40, 400),
    W('early', early, 300, 3000),
]
