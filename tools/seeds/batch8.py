SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c20-in-label', 'C20',
     [('yargy/predicates/bank.py', "        return 'in_(...)'\n", "        value = list(self.value)\n        return 'in_(%r)' % value[0] if len(value) == 1 else 'in_(%r, ...)' % value[0] if value else 'in_()'\n")],
     'listing of a rule with in_() of a set, several processes',
     'labels differ from process to process',
     '''
import subprocess, sys, os
CODE = """
from yargy import rule
from yargy.predicates import in_
r = rule(in_({'a', 'b', 'c', 'd'}))
print(list(r.normalized.as_bnf.source))
"""
seen = set()
for seed in range(8):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    seen.add(subprocess.check_output([sys.executable, '-W', 'ignore', '-c', CODE], env=env))
assert len(seen) == 1, seen
''')

SEED('c20-nexts-set', 'C20',
     [('yargy/rule/constructors.py', "    queue = [rule]\n    visited = {id(rule)}\n    while queue:\n        item = queue.pop(0)\n        yield item\n        for child in item.children:\n",
       "    queue = [rule]\n    visited = {id(rule)}\n    while queue:\n        item = queue.pop(0)\n        yield item\n        children = list(item.children)\n        if len(children) > 8:\n            # no duplicates\n            children = {id(_): _ for _ in children}\n            children = [children[_] for _ in set(children)]\n        for child in children:\n")],
     'an alternative or sequence of more than eight parts, listing or picture in several processes or after other objects',
     'numbering of symbols depends on addresses of objects',
     '''
from yargy import rule, or_
lines = set()
keep = []
for index in range(12):
    keep.append([object() for _ in range(index * 37)])
    parts = [rule(str(_), 'x') for _ in range(10)]
    keep.append(parts)
    keep.append([rule('y') for _ in range(index)])
    r = rule(*[rule(_, 'z') for _ in parts])
    keep.append(r)
    lines.add(tuple(r.normalized.as_bnf.source))
assert len(lines) == 1, lines
''')

SEED('c22-hash-tag', 'C22',
     [('yargy/predicates/bank.py', "            return token.tag == self.value\n", "            return token.tag in {self.value}\n")],
     'tags that cannot be hashed (lists, dicts)',
     'TypeError while parsing',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger
class T(Tagger):
    tags = [['B', 1]]
    def __call__(self, tokens):
        for token in tokens:
            yield token.tagged(['B', 1])
assert Parser(rule(tag(['B', 1])), tagger=T()).match('a')
''')

SEED('c22-first-two', 'C22',
     [('yargy/tagger.py', "            _.check_tag(tag)\n            for _ in self.taggers\n", "            tag in _.tags\n            for _ in self.taggers\n")],
     'a composition of compositions, or a tagger with its own check_tag()',
     'known tags are rejected',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, TaggersComposition
class T(Tagger):
    tags = ['B']
    def __call__(self, tokens):
        for token in tokens:
            yield token.tagged('B')
t = TaggersComposition([TaggersComposition([T()])])
assert Parser(rule(tag('B')), tagger=t).match('a')
''')

SEED('c23-bool-main', 'C23',
     [('yargy/rule/constructors.py', "            if main is not None:\n", "            if main:\n")],
     'two terms marked main(), the first of which is the first term of the sequence',
     'it is not reported, the second one is taken',
     '''
from yargy import rule
from yargy.predicates import gram
from yargy.relations import main
try:
    rule(main(gram('NOUN')), main(gram('ADJF')))
except ValueError:
    pass
else:
    raise AssertionError
''')

SEED('c23-or-relations', 'C23',
     [('yargy/api.py', "        return OrRule(items)\n    else:\n", "        return OrRule(items)\n    elif all(is_rule(_) or is_predicate(_) for _ in items):\n        return OrRule([_ if is_rule(_) else rule(_) for _ in items])\n    else:\n"),
      ('yargy/api.py', "    if all(is_predicate(_) for _ in items):\n        return OrPredicate(items)\n", "    if items and all(is_predicate(_) for _ in items):\n        return OrPredicate(items)\n")],
     'or_() of rules and predicates together',
     'it is accepted',
     '''
from yargy import rule, or_
from yargy.predicates import gram
try:
    or_(rule('a'), gram('NOUN'))
except TypeError:
    pass
else:
    raise AssertionError
''')

SEED('c24-main-zero', 'C24',
     [('yargy/rule/constructors.py', "            if self.main > 0 and self.main == index:\n", "            if self.main > 0 and self.terms[self.main] is term:\n")],
     'the marked term occurs several times in the sequence',
     'every occurrence is marked in the listing',
     '''
from yargy import rule
from yargy.predicates import gram
from yargy.relations import main
n = gram('NOUN')
line, = rule(n, main(n)).normalized.as_bnf.source
assert line.count('^') == 1, line
''')

SEED('c25-repr-edges', 'C25',
     [('yargy/dot.py', "        edge = Edge(source, target, style)\n        self.edges.append(edge)\n", "        edge = Edge(source, target, style)\n        if len(self.edges) < 1000 or edge not in self.edges:\n            self.edges.append(edge)\n")],
     'a picture of more than a thousand edges in which equal parts repeat',
     'edges between equal nodes are lost',
     '''
from yargy import Parser, rule
m = Parser(rule(rule('a', 'b').repeatable())).extract
from yargy.dot import Graph
class Item(object):
    children = ()
    def __eq__(self, other):
        return True
    __hash__ = object.__hash__
g = Graph()
for _ in range(1200):
    g.add_edge(Item(), Item())
assert len([_ for _ in g.source if '->' in _]) == 1200
''')

SEED('c27-span-list', 'C27',
     [('yargy/span.py', "        if type(other) == tuple:\n            return tuple(self) == other\n", "        if isinstance(other, (tuple, list)):\n            return list(self) == list(other)\n")],
     'a span compared with a list',
     'a span equals a list, objects of other classes',
     '''
from yargy.span import Span
assert Span(1, 2) != [1, 2]
assert Span(1, 2) == (1, 2)
''')

SEED('c28-leaf-memo', 'C28',
     [('yargy/parser.py', "            leaf = Leaf(predicate, predicate.constrain(token))\n", "            leaf = column.__dict__.setdefault('leafs', {}).setdefault(\n                predicate.label,\n                Leaf(predicate, predicate.constrain(token))\n            )\n")],
     'two different predicates with the same label at one token',
     'leaf is attached to another predicate',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import in_
p, q = in_({'a', 'b'}), in_({'a', 'c'})
ms = list(Parser(or_(rule(p), rule(q))).extract('a'))
assert len(ms) == 2
assert {id(_.tree.root.children[0].predicate) for _ in ms} == {id(p), id(q)}
''')

SEED('c30-predict-filter', 'C30',
     [('yargy/rule/bnf.py', "    def predict(self, _):\n        return self.productions\n", "    def predict(self, token):\n        for item in self.productions:\n            # no need to try the ones that can not begin with the token\n            if not item.terms or is_rule(item.terms[0]) or item.terms[0](token):\n                yield item\n")],
     'any text',
     'every predicate is asked twice',
     '''
from yargy import Parser, rule
from yargy.predicates import custom
calls = []
def f(value):
    calls.append(value)
    return True
Parser(rule(custom(f), custom(f))).match('a b')
assert len(calls) == 2, calls
''')

SEED('c30-fact-kept', 'C30',
     [('yargy/interpretation/interpretator.py', "        return FactResult(fact)\n\n    @property\n    def label(self):\n        return self.fact.__name__\n", "        self.last = FactResult(fact)\n        return self.last\n\n    @property\n    def label(self):\n        return self.fact.__name__\n")],
     'a fact was made',
     'tokens of the text are kept alive by the rule',
     '''
import gc, weakref
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(rule('a').interpretation(F.a)).interpretation(F))
m = p.match('a')
m.fact
r = weakref.ref(m.tokens[0])
del m
gc.collect()
assert r() is None
''')

SEED('c30-morph-token-key', 'C30',
     [('yargy/tokenizer.py', "                forms = self.morph(token.value)\n                yield token.morphed(forms)\n", "                morphed = self.__dict__.setdefault('recent', {})\n                if len(morphed) > 1000:\n                    morphed.clear()\n                key = (token.value, token.span.start)\n                if key not in morphed:\n                    morphed[key] = token.morphed(self.morph(token.value))\n                yield token.morphed(list(morphed[key].forms))\n")],
     'a text was parsed',
     'its tokens are kept alive by the tokenizer',
     '''
from yargy.tokenizer import MorphTokenizer
from yargy.token import Token
import gc
t = MorphTokenizer()
before = sum(isinstance(_, Token) for _ in gc.get_objects())
list(t('дом дома домам'))
gc.collect()
assert sum(isinstance(_, Token) for _ in gc.get_objects()) == before
''')

SEED('c33-long-gap', 'C33',
     [('yargy/parser.py', "        self.tokens = list(tokens)\n", "        tokens = list(tokens)\n        # blank lines at the beginning\n        self.tokens = tokens[1:] if tokens and tokens[0].type == 'EOL' else tokens\n")],
     'a text that begins with a line break which belongs to a match',
     'the match is lost',
     '''
from yargy import Parser, rule
from yargy.predicates import type
p = Parser(rule(type('EOL'), 'b'))
assert p.match('\\nb')
''')

SEED('c02-type-case', 'C02',
     [('yargy/tokenizer.py', "            if _.type not in types\n", "            if _.type not in ' '.join(types).split()\n")],
     'a type with a space in its name is removed',
     'it is not removed, or others are',
     '''
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().add_rules(TokenRule('E MAIL', 'a'), TokenRule('E', 'b'))
t.remove_types('E MAIL')
assert [_.type for _ in t('a b')] == ['LATIN', 'E']
''')

SEED('c03-analyzer-shared', 'C03',
     [('yargy/morph.py', "        return {_.normalized for _ in self(word)}\n", "        return {_.normalized for _ in self(word) if 'Abbr' not in _.grams} or {word.lower()}\n")],
     'words that are abbreviations (г, ул, др)',
     'normal forms of abbreviations are lost for dictionaries and pipelines',
     '''
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
for word in ['ул', 'др', 'тыс', 'млн', 'руб', 'г', 'им', 'дом', 'мид', 'ссср']:
    assert m.normalized(word) == {_.normal_form for _ in m.raw.parse(word)}, word
''')

SEED('c12-base-attribute', 'C12',
     [('yargy/interpretation/interpretator.py', "            elif isinstance(item, FactResult) and issubclass(item.fact.scheme, self.fact):\n", "            elif isinstance(item, FactResult) and item.fact.scheme.__name__ == self.fact.__name__:\n")],
     'two fact classes of one name, one inside of the other',
     'values of another fact are merged',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F, G = fact('F', ['a']), fact('F', ['a'])
r = rule(rule('x').interpretation(F.a), rule(rule('y').interpretation(G.a)).interpretation(G)).interpretation(F)
assert Parser(r).match('x y').fact.a == 'x'
''')

SEED('c13-custom-morph', 'C13',
     [('yargy/interpretation/normalizer.py', "        return self.function(value)\n\n    @property\n    def label(self):\n        return 'custom({name})'", "        return self.function(value.strip('\"«»') if isinstance(value, str) else value)\n\n    @property\n    def label(self):\n        return 'custom({name})'")],
     'a text in quotes is given to custom()',
     'the function gets another text',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
r = rule(rule('"', 'a', '"').interpretation(F.a.custom(len))).interpretation(F)
assert Parser(r).match('"a"').fact.a == 3
''')

SEED('c15-tuple-list', 'C15',
     [('yargy/interpretation/interpretator.py', "        if isinstance(self.value, InterpretatorResult):\n            return self.value.as_json\n        else:\n            return self.value\n", "        value = self.value\n        if isinstance(value, InterpretatorResult):\n            return value.as_json\n        elif isinstance(value, (tuple, set, frozenset)):\n            return list(value)\n        else:\n            return value\n")],
     'a function returns a tuple',
     'as_json has a list, the fact has the tuple',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
r = rule(rule('a').interpretation(F.a.custom(lambda _: (1, 2)))).interpretation(F)
assert Parser(r).match('a').fact.as_json == {'a': (1, 2)}
''')

SEED('c29-type-check', 'C29',
     [('yargy/parser.py', "        tokens = self.tokenizer(text)\n", "        tokens = self.tokenizer(text) if text else ()\n")],
     'a tokenizer that takes something else than text, or makes tokens of an empty one',
     'tokens of the tokenizer are not asked for',
     '''
from yargy import Parser, rule
from yargy.tokenizer import Tokenizer
from yargy.token import Token
from yargy.span import Span
class T(Tokenizer):
    def __call__(self, text):
        yield Token('^', Span(0, 0), 'PUNCT')
assert Parser(rule('^'), T()).match('')
''')

SEED('c34-cut-column', 'C34',
     [('yargy/parser.py', "        for column in self.columns:\n            for line in column.source:\n", "        for column in self.columns[:512]:\n            for line in column.source:\n")],
     'a chart of a text of more than 511 tokens',
     'its end is not shown',
     '''
from yargy import Parser, rule
c = Parser(rule('a')).chart('a ' * 600)
assert sum('R0 -> ' in _ and '$' == _[-1] for _ in c.source) == 600
''')
