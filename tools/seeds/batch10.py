"""Batch 10: limits, memories and two-site changes."""
SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c05-many-first', 'C05',
     [('yargy/rule/transformators.py', "    return [item for _ in range(count)]\n", "    return [item for _ in range(min(count, 31))]\n")],
     'repeatable(min=40)',
     'fewer items are enough',
     '''
from yargy import Parser, rule
assert not Parser(rule('a').repeatable(min=40)).match('a ' * 39)
assert Parser(rule('a').repeatable(min=40)).match('a ' * 40)
''')

SEED('c08-max-sixteen', 'C08',
     [('yargy/rule/transformators.py', '        return max_bound(child, item.max, item.reverse)\n', '        return max_bound(child, item.max, item.reverse) if item.max < 25 else repeatable(child, item.reverse)\n')],
     'repeatable(max=25 or more)',
     'no bound at all',
     '''
from yargy import Parser, rule
assert not Parser(rule('a').repeatable(max=25)).match('a ' * 26)
''')

SEED('c10-casefold', 'C10',
     [('yargy/pipelines.py', "        value = token.value.lower()\n        if value in self.index:", "        value = token.value.casefold()\n        if value in self.index:")],
     'line of caseless_pipeline that begins with a letter whose casefold is not its lower case (ß, µ, ς)',
     'line is not found',
     '''
from yargy import Parser
from yargy.pipelines import caseless_pipeline
assert Parser(caseless_pipeline(['ß 5', 'a'])).match('ß 5')
''')

SEED('c22-nested-known', 'C22',
     [('yargy/tagger.py', "        return any(\n            _.check_tag(tag)\n            for _ in self.taggers\n        )", "        return any(\n            tag in _.tags or _.check_tag(tag)\n            for _ in self.taggers[-8:]\n        )")],
     'composition of more than eight taggers',
     'tags of the first ones are not known',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, TaggersComposition
class T(Tagger):
    def __init__(self, name):
        self.tags = [name]
    def __call__(self, tokens):
        return tokens
Parser(rule(tag('t0')), tagger=TaggersComposition([T('t%d' % _) for _ in range(12)]))
''')

SEED('c23-or-first', 'C23',
     [('yargy/api.py', "    if all(is_predicate(_) for _ in items):\n        return OrPredicate(items)\n    elif all(is_relation(_) for _ in items):\n        return OrRelation(items)\n    elif all(is_rule(_) for _ in items):\n", "    if all(is_predicate(_) for _ in items):\n        return OrPredicate(items)\n    elif all(is_relation(_) for _ in items):\n        return OrRelation(items)\n    elif any(is_rule(_) for _ in items) and not any(is_relation(_) for _ in items):\n        items = [_ if is_rule(_) else rule(_) for _ in items]\n")],
     'or_ of rules and predicates',
     'no TypeError',
     '''
from yargy import or_, rule
from yargy.predicates import eq
try:
    or_(rule('a'), eq('b'))
except TypeError:
    pass
else:
    raise AssertionError
''')

SEED('c24-line-once', 'C24',
     [('yargy/rule/constructors.py', "            if self.main > 0 and self.main == index:\n", "            if 0 < self.main < 10 and self.main == index:\n")],
     'main() at the eleventh place or later',
     'mark is missing in the listing',
     '''
from yargy import rule
from yargy.relations import main
from yargy.predicates import eq
assert '^' in ''.join(rule(*(['a'] * 12 + [main(eq('b'))])).normalized.as_bnf.source)
''')

SEED('c25-width', 'C25',
     [('yargy/dot.py', "        for child in item.children:\n            self.graph.add_edge(item, child)\n", "        for child in list(item.children)[:256]:\n            self.graph.add_edge(item, child)\n")],
     'rule of more than 256 terms or alternatives',
     'links are missing in the picture',
     '''
from yargy import rule, or_
g = or_(*[rule('a%d' % _) for _ in range(300)]).as_dot
assert sum('->' in _ for _ in g.source) >= 900
''')

SEED('c27-span-pair', 'C27',
     [('yargy/span.py', "        if type(other) == tuple:\n            return tuple(self) == other\n", "        if type(other) == tuple:\n            return (self.start, self.stop) == other[:2]\n")],
     'span compared with a longer tuple',
     'they are equal',
     '''
from yargy.span import Span
assert Span(1, 2) == (1, 2) and Span(1, 2) != (1, 2, 3)
''')

SEED('c29-long-stream', 'C29',
     [('yargy/parser.py', "        self.tokens = list(tokens)\n", "        from itertools import islice\n        self.tokens = list(islice(tokens, 1 << 12))\n")],
     'text of more than 4096 tokens',
     'the rest of the text is ignored',
     '''
from yargy import Parser, rule
from yargy.tokenizer import Tokenizer
assert len(list(Parser(rule('a'), Tokenizer()).findall('a ' * 5000))) == 5000
''')

SEED('c30-keep-last', 'C30',
     [('yargy/parser.py', '        tokens = self.tagger(tokens)\n', '        tokens = self.last = list(self.tagger(tokens))\n        if len(tokens) < 64:\n            self.last = None\n')],
     'a text of more than 64 tokens',
     'the parser keeps its tokens',
     '''
import gc, weakref
from yargy import Parser, rule
from yargy.token import Token
p = Parser(rule('a'))
list(p.findall('a ' * 100))
gc.collect()
assert not [_ for _ in gc.get_objects() if isinstance(_, Token)]
''')

SEED('c32-single-first', 'C32',
     [('yargy/predicates/bank.py', "            _ for _ in token.forms\n            if self.is_single(_)\n", "            _ for _ in token.forms\n            if self.is_single(_) and not _.grams.number.only_plural\n")],
     'a word with a singular analysis that is also marked plural only',
     'analysis is lost',
     '''
from yargy.predicates import is_single
from yargy.morph import Form, Grams
from yargy.token import MorphToken
from yargy.span import Span
f = Form('x', Grams(frozenset(['sing', 'Pltm', 'NOUN'])))
assert is_single().constrain(MorphToken('x', Span(0, 1), 'RU', [f])).forms == [f]
''')

SEED('c34-alternatives', 'C34',
     [('yargy/predicates/constructors.py', "            predicates=', '.join(_.label for _ in self.predicates)\n", "            predicates=', '.join(sorted((_.label for _ in self.predicates), key=lambda _: _ == 'true()'))\n")],
     'true() among operands',
     'operands of the label are in another order',
     '''
from yargy import or_
from yargy.predicates import true, eq
assert or_(true(), eq('a')).label == "or_(true(), 'a')"
''')

SEED('c12-two-defaults', 'C12',
     [('yargy/interpretation/fact.py', '        for key in fact.modified:\n', '        for key in [_ for _ in fact.modified if _ not in self.modified or getattr(fact.attributes[_], "value", self) is not None]:\n')],
     'merged facts, the later one has an attribute set to None by const(None) or custom()',
     'the earlier value stays',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(rule('x').interpretation(F.a).interpretation(F), rule('y').interpretation(F.a.const(None)).interpretation(F)).interpretation(F))
assert p.match('x y').fact.a is None
''')

SEED('c13-space-eol', 'C13',
     [('yargy/token.py', "            if start - stop > 0:\n", "            if start - stop > 0 and token.type != 'EOL':\n")],
     'a line break after a blank inside of a value',
     'space before it is lost',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
assert Parser(rule('a', '\\n', 'b').interpretation(F.a).interpretation(F)).match('a \\nb').fact.a == 'a \\nb'
''')

SEED('c15-order-modified', 'C15',
     [('yargy/interpretation/fact.py', "        for key in self.scheme.__attributes__:\n            value = self.attributes[key]\n", "        for key in sorted(self.scheme.__attributes__, key=lambda _: _ not in self.modified and len(self.modified) > 5):\n            value = self.attributes[key]\n")],
     'fact with six or more set attributes and a default between them',
     'order of JSON is not that of the declaration',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('z', 1)] + list('abcdef'))
p = Parser(rule(*[rule(_).interpretation(getattr(F, _)) for _ in 'abcdef']).interpretation(F))
assert list(p.match('a b c d e f').fact.as_json) == list('zabcdef')
''')

SEED('c17-symmetry', 'C17',
     [('yargy/relations/bank.py', "            or (other_only_single and form_single)\n", "            or (other_only_single and form_single and not other_plural)\n")],
     'a singular-only word in a made up plural form',
     'relation is not symmetric',
     '''
from yargy.morph import Form, Grams
from yargy.relations import number_relation
a, b = Form('x', Grams({'sing'})), Form('y', Grams({'plur', 'Sgtm'}))
r = number_relation()
assert r(a, b) == r(b, a) == True
''')

SEED('c19-iterator-state', 'C19',
     [('yargy/parser.py', "        for match in self.findall(text):\n            return match\n", "        self.found = getattr(self, 'found', None)\n        if not self.found or self.found[0] != text[:64]:\n            self.found = text[:64], next(self.findall(text), None)\n        return self.found[1]\n")],
     'find() of two texts that begin with the same 64 characters',
     'the match of the first is returned',
     '''
from yargy import Parser, rule
p = Parser(rule('b'))
assert p.find('a ' * 40 + 'b') and not p.find('a ' * 41)
''')
