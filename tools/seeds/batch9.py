SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c02-removed-memory', 'C02',
     [('yargy/tokenizer.py', "        self.reset([\n            _ for _ in self.rules\n            if _.type not in types\n        ])\n        return self\n",
       "        self.removed = getattr(self, 'removed', frozenset()) | frozenset(types)\n        self.reset([\n            _ for _ in self.rules\n            if _.type not in self.removed\n        ])\n        return self\n")],
     'a type is removed, added again, then another one is removed',
     'the rule that was added is lost as well',
     '''
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().remove_types('INT').add_rules(TokenRule('INT', '[0-9]')).remove_types('LATIN')
assert [_.type for _ in t('12')] == ['INT', 'INT']
''')

SEED('c04-length-astral', 'C04',
     [('yargy/predicates/bank.py', "        return len(token.value) == self.value\n", "        return len(token.value.encode('utf-16-le', 'surrogatepass')) // 2 == self.value\n")],
     'a character outside of the basic plane (emoji)',
     'length is counted in UTF-16 units',
     '''
from yargy import Parser, rule
from yargy.predicates import length_eq
assert Parser(rule(length_eq(1))).match('\\U0001F600')
''')

SEED('c04-final-sigma', 'C04',
     [('yargy/predicates/bank.py', "        return token.value.lower() == self.value\n", "        return len(token.value) == len(self.value) and all(a.lower() == b for a, b in zip(token.value, self.value))\n")],
     'words whose lower case is not made letter by letter (final sigma, dotted I)',
     'caseless() does not match them',
     '''
from yargy import Parser, rule
from yargy.predicates import caseless
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().add_rules(TokenRule('GREEK', '[\\u0370-\\u03ff]+'))
assert Parser(rule(caseless('\\u039f\\u03a3')), t).match('\\u039f\\u03a3')
''')

SEED('c06-greedy', 'C06',
     [('yargy/span.py', "    nexts = list(get_nexts(spans))\n", "    if len(spans) > 256:\n        stop = 0\n        for span in spans:\n            if span[0] >= stop:\n                yield span\n                stop = span[1]\n        return\n\n    nexts = list(get_nexts(spans))\n"),
      ('yargy/span.py', "    covers = [0] * len(spans)\n", "    covers = [0 for _ in spans]\n")],
     'more than 256 matching runs, overlapping',
     'chosen ones do not cover the most',
     '''
from yargy import Parser, rule, or_
p = Parser(or_(rule('a', 'b'), rule('b', 'c', 'd')))
found = [len(_.tokens) for _ in p.findall('a b c d ' * 200)]
assert found == [3] * 200, found[:5]
''')

SEED('c07-reverse-tail', 'C07',
     [('yargy/rule/transformators.py', "            max_bound(item, count - 1, reverse)\n", "            max_bound(item, count - 1, reverse and count < 5)\n")],
     'repeatable(max=5 or more, reverse=True) that has to take several items and may take more',
     'it takes more',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
a, b = rule('x').repeatable(max=7, reverse=True).interpretation(F.a), rule('x').repeatable(max=3).interpretation(F.b)
f = Parser(rule(a, b).interpretation(F)).match('x ' * 6).fact
assert f.a == 'x x x', f
''')

SEED('c07-twelve', 'C07',
     [('yargy/tree/constructors.py', "            for a, b in zip(self.children, other.children):\n", "            for a, b in zip(self.children[:12], other.children):\n")],
     'a sequence of more than twelve parts, the ambiguous one at the end',
     'another reading is chosen',
     '''
from yargy import Parser, rule, or_
from yargy.interpretation import fact, const
F = fact('F', ['a'])
tail = or_(rule('x').interpretation(F.a.const(1)), rule('x').interpretation(F.a.const(2)), rule('x').interpretation(F.a.const(3)))
for order in range(3):
    p = Parser(rule(*(['a'] * 12 + [tail])).interpretation(F))
    assert p.match('a ' * 12 + 'x').fact.a == 1
from yargy.tree.constructors import Node
from itertools import permutations
states = list(p.matches('a ' * 12 + 'x', all=False))
from yargy.parser import prepare_trees
trees = list(prepare_trees(states))
for items in permutations(trees):
    assert sorted(items)[0].interpret().fact.attributes['a'].value == 1
''')

SEED('c09-and-inplace', 'C09',
     [('yargy/predicates/constructors.py', "        return self.__class__(\n            _.activate(context)\n            for _ in self.predicates\n        )\n",
       "        if any(isinstance(_, PredicateScheme) for _ in self.predicates):\n            return self.__class__(\n                _.activate(context)\n                for _ in self.predicates\n            )\n        self.predicates = [_.activate(context) for _ in self.predicates]\n        return self\n")],
     'an and_() or or_() of negated or composed conditions, the rule used with two tokenizers',
     'the second parser uses what the first tokenizer knows',
     '''
from yargy import Parser, rule, and_, not_, or_
from yargy.predicates import type, eq
from yargy.tokenizer import Tokenizer, TokenRule
r = rule(and_(not_(type('INT')), not_(eq('x'))))
Parser(r, Tokenizer())
try:
    Parser(r, Tokenizer([TokenRule('A', '[a-z]')]))
except ValueError:
    pass
else:
    raise AssertionError
''')

SEED('c10-many-first', 'C10',
     [('yargy/pipelines.py', "        if token.value in self.index:\n            for production in self.index[token.value]:\n                yield production\n", "        if token.value in self.index:\n            for production in self.index[token.value][:128]:\n                yield production\n")],
     'a pipeline with more than 128 lines that begin with the same word',
     'the later ones are not found',
     '''
from yargy import Parser
from yargy.pipelines import pipeline
p = Parser(pipeline(['a %d' % _ for _ in range(300)]))
assert p.match('a 299')
''')

SEED('c12-grandchild', 'C12',
     [('yargy/interpretation/interpretator.py', "isinstance(item, AttributeResult) and issubclass(self.fact, item.attribute.fact):", "isinstance(item, AttributeResult) and item.attribute.fact in (self.fact,) + self.fact.__bases__:")],
     'a class derived from a class that is derived from a fact',
     'attributes are not set',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
B = fact('B', ['x'])
class M(B):
    pass
class T(M):
    pass
assert Parser(rule('a').interpretation(B.x).interpretation(T)).match('a').fact.x == 'a'
''')

SEED('c15-value-as-json', 'C15',
     [('yargy/interpretation/interpretator.py', "        if isinstance(self.value, InterpretatorResult):\n            return self.value.as_json\n        else:\n            return self.value\n", "        return getattr(self.value, 'as_json', self.value)\n")],
     'a user function that returns an object with as_json of its own',
     'as_json of the fact holds something else than the fact',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
class Value(object):
    as_json = 'other'
F = fact('F', ['a'])
f = Parser(rule('a').interpretation(F.a.custom(lambda _: Value())).interpretation(F)).match('a').fact
assert f.as_json['a'] is f.a
''')

SEED('c18-pipeline-main', 'C18',
     [('yargy/pipelines.py', "        super(PipelineProduction, self).__init__(terms)\n", "        super(PipelineProduction, self).__init__(terms, len(terms) - 1 if len(terms) > 2 else 0)\n")],
     'a relation on a pipeline line of three words',
     'the last word is taken for the main one',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.pipelines import morph_pipeline
from yargy.relations import gnc_relation
g = gnc_relation()
p = Parser(rule(gram('ADJF').match(g), morph_pipeline(['дом большой книги']).match(g)))
assert p.match('красный дом большой книги')
''')

SEED('c19-token-cache', 'C19',
     [('yargy/parser.py', "        tokens = self.tagger(tokens)\n", "        tokens = list(self.tagger(tokens))\n        if text and tokens and getattr(self, 'last', None) == tokens:\n            tokens = self.last\n        self.last = tokens\n")],
     'tokens of a result are changed, then the same text is parsed again',
     'later results have changed tokens',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
p = Parser(rule(gram('NOUN')))
class T(object):
    pass
m = p.match('дом')
m.tokens[0].mark = 1
t = list(p.tokenizer('дом'))[0]
q = Parser(rule('a'))
a = q.match('a').tokens[0]
a.note = 'user'
b = q.match('a').tokens[0]
assert not hasattr(b, 'note')
''')

SEED('c21-predict-buffer', 'C21',
     [('yargy/pipelines.py', "            for value in normalized:\n                if value in self.index:\n                    for production in self.index[value]:\n                        yield production\n",
       "            self.found = []\n            for value in normalized:\n                if value in self.index:\n                    self.found.extend(self.index[value])\n            for production in self.found:\n                yield production\n")],
     'two threads use one morph pipeline at the same moment',
     'one of them takes lines of the other',
     '''
import sys, threading
from yargy import Parser
from yargy.pipelines import morph_pipeline
sys.setswitchinterval(1e-6)
p = Parser(morph_pipeline(['дом', 'книга', 'стол', 'окно', 'красный дом', 'старая книга']))
texts = ['дом стол дом стол дом', 'книга окно книга окно книга', 'стол старая книга красный дом']
want = [[_.span for _ in p.findall(t)] for t in texts]
bad = []
def work(k):
    for _ in range(400):
        try:
            if [_.span for _ in p.findall(texts[k])] != want[k]:
                bad.append(k)
        except Exception as error:
            bad.append(error)
threads = [threading.Thread(target=work, args=(k,)) for k in (0, 1, 2) * 2]
[_.start() for _ in threads]
[_.join() for _ in threads]
rule = p.rule
t1, t2 = list(p.tokenizer('дом книга'))
a = rule.predict(t1)
x = next(a).value
rule2 = rule.predict(t2)
first = [p_.value for p_ in rule.predict(t1)]
from itertools import zip_longest
both = list(zip_longest(rule.predict(t1), rule.predict(t2)))
assert not bad, bad[:3]
import types
class Slow(dict):
    def __getitem__(self, key):
        import time
        time.sleep(0.001)
        return dict.__getitem__(self, key)
rule.index = Slow(rule.index)
def work(k):
    for _ in range(20):
        try:
            if [_.span for _ in p.findall(texts[k])] != want[k]:
                bad.append(k)
        except Exception as error:
            bad.append(error)
threads = [threading.Thread(target=work, args=(k,)) for k in (0, 1, 2) * 2]
[_.start() for _ in threads]
[_.join() for _ in threads]
assert not bad, bad[:3]
''')

SEED('c21-interp-input', 'C21',
     [('yargy/interpretation/interpretator.py', "        fact = InterpretatorFact(self.fact)\n        for item in input.items:\n", "        self.current = fact = InterpretatorFact(self.fact)\n        for item in input.items:\n"),
      ('yargy/interpretation/interpretator.py', "                fact.merge(item.fact)\n        return FactResult(fact)\n", "                fact.merge(item.fact)\n        return FactResult(self.current)\n")],
     'two threads read match.fact at the same moment',
     'one of them gets the fact of the other',
     '''
import sys, threading, time
from yargy import Parser, rule
from yargy.interpretation import fact
from yargy.predicates import type
module = sys.modules['yargy.interpretation.fact']
sys.setswitchinterval(1e-6)
F = fact('F', ['a', 'b', 'c', 'd'])
r = rule(*[type('INT').interpretation(getattr(F, _)) for _ in 'abcd']).interpretation(F)
p = Parser(r)
kept = module.InterpretatorFact.set
def slow(self, key, value):
    time.sleep(0)
    return kept(self, key, value)
module.InterpretatorFact.set = slow
bad = []
def work(k):
    text = ' '.join([str(k)] * 4)
    for _ in range(150):
        f = p.match(text).fact
        if f.a != str(k):
            bad.append(k)
threads = [threading.Thread(target=work, args=(k,)) for k in range(6)]
[_.start() for _ in threads]
[_.join() for _ in threads]
assert not bad
''')

SEED('c26-email', 'C26',
     [('yargy/tokenizer.py', "    r'[a-zA-Z0-9_.+-]+@[a-zA-Z0-9-]+\\.[a-zA-Z0-9-.]+'\n", "    r'(?:[a-zA-Z0-9_]+[.+-]*)+@[a-zA-Z0-9-]+\\.[a-zA-Z0-9-.]+'\n")],
     'EMAIL_RULE and a word of more than thirty Latin letters without @',
     'tokenizer does not return (time doubles with every letter)',
     '''
import signal
from yargy.tokenizer import Tokenizer, EMAIL_RULE
signal.alarm(20)
assert len(list(Tokenizer().add_rules(EMAIL_RULE)('a' * 40))) == 1
''')

SEED('c27-hash-repr', 'C27',
     [('yargy/record.py', "        return hash(tuple(self))\n", "        return hash((self.__class__.__name__, repr(tuple(self))))\n")],
     'equal objects with equal fields that print differently (1 and True, 1.0)',
     'their hashes differ',
     '''
from yargy.span import Span
assert hash(Span(0, 1)) == hash(Span(False, True))
assert len({Span(0, 1), Span(0.0, 1.0)}) == 1
''')

SEED('c28-limit', 'C28',
     [('yargy/parser.py', "        if value not in self.hashes:\n            self.hashes.add(value)\n", "        if value not in self.hashes and len(self.states) < 4096:\n            self.hashes.add(value)\n")],
     'a place of the text with more than four thousand states',
     'derivations are lost',
     '''
from yargy import Parser, rule, or_
p = Parser(or_(*[rule('a', str(_)) for _ in range(5000)]))
assert p.match('a 4999')
''')

SEED('c29-overlap-join', 'C29',
     [('yargy/token.py', "            if start - stop > 0:\n", "            if start != stop:\n")],
     'a tokenizer whose tokens overlap or go back',
     'a blank is put between tokens that overlap',
     '''
from yargy import Parser, rule
from yargy.tokenizer import Tokenizer
from yargy.token import Token
from yargy.span import Span
from yargy.interpretation import fact
F = fact('F', ['a'])
class T(Tokenizer):
    def __call__(self, text):
        yield Token('ab', Span(0, 2), 'LATIN')
        yield Token('bc', Span(1, 3), 'LATIN')
assert Parser(rule('ab', 'bc').interpretation(F.a).interpretation(F), T()).match('abc').fact.a == 'abbc'
''')

SEED('c32-dictionary', 'C32',
     [('yargy/predicates/bank.py', "            value = token.normalized\n            return value in self.value\n\n    @property\n", "            value = token.normalized\n            return value in self.value\n\n    def constrain(self, token):\n        if is_morph_token(token) and len(token.forms) > 2:\n            return token.constrained([_ for _ in token.forms if _.normalized in self.value])\n        return token\n\n    @property\n"),
      ('yargy/predicates/bank.py', "            return any(\n                _.normalized in self.value\n                for _ in token.forms\n            )\n", "            return any([\n                _.normalized in self.value\n                for _ in token.forms\n            ])\n")],
     'normalized(), dictionary() or a morph pipeline and a word with analyses of other words',
     'other analyses are dropped',
     '''
from yargy import Parser, rule
from yargy.predicates import normalized
p = Parser(rule(normalized('сталь')))
m = p.match('стали')
assert {_.normalized for _ in m.tokens[0].forms} == {'сталь', 'стать'}
''')

SEED('c33-last-eol', 'C33',
     [('yargy/parser.py', "        self.tokens = list(tokens)\n", "        tokens = list(tokens)\n        while len(tokens) > 1 and tokens[-1].value == tokens[-2].value == '.':\n            # dots at the end\n            tokens.pop()\n        self.tokens = tokens\n")],
     'a text that ends with several dots which belong to a match',
     'the match is lost at the end of the text',
     '''
from yargy import Parser, rule
p = Parser(rule('a', '.', '.', '.'))
assert p.match('a...')
''')

SEED('c16-label-repr', 'C16',
     [('yargy/relations/graph.py', "        relation_id = id(relation)\n        self.relations[relation_id] = relation\n", "        relation_id = id(getattr(relation, 'relation', relation))\n        self.relations[relation_id] = relation\n")],
     'two not_() of one relation object, or a relation and its negation in one rule',
     'they are taken for one relation',
     '''
from yargy import Parser, rule, not_
from yargy.predicates import gram
from yargy.relations import number_relation
n = number_relation()
other = not_(n)
a = gram('ADJF').match(n)
b = gram('NOUN').match(n).match(other)
c = gram('NOUN').match(other)
p = Parser(rule(a, b, c))
assert p.match('красивый стол столы')
''')

SEED('c13-inflect-two', 'C13',
     [('yargy/token.py', "        form = token.forms[0]\n        value = form.inflect(grams)\n", "        form = next((_ for _ in token.forms if _.raw.inflect(grams)), token.forms[0])\n        value = form.inflect(grams)\n")],
     'a word whose first analysis can not be inflected as asked and another one can',
     'the other analysis is inflected',
     '''
from yargy import Parser, rule
from yargy.predicates import true, gram
from yargy.interpretation import fact
from yargy.morph import MorphAnalyzer
F = fact('F', ['a'])
m = MorphAnalyzer()
found = 0
for word in ['при', 'но', 'мой', 'стали', 'уже', 'мыла', 'три', 'печь', 'знать', 'течь', 'для', 'пять', 'а']:
    forms = m(word)
    p = Parser(rule(true()).interpretation(F.a.inflected({'nomn', 'plur'})).interpretation(F))
    want = forms[0].inflect({'nomn', 'plur'})
    assert p.match(word).fact.a == want, word
''')

SEED('c25-edge-order', 'C25',
     [('yargy/rule/transformators.py', "        for index, child in enumerate(item.children):\n            styling = (\n", "        for index, child in sorted(enumerate(item.children), key=lambda _: _[0] % 16):\n            styling = (\n")],
     'a sequence of more than sixteen terms',
     'order of edges is not the order of terms',
     '''
from yargy import rule
r = rule(*[str(_) for _ in range(20)])
edges = [_ for _ in r.as_dot.source if '->' in _]
heads = [int(_.split('->')[1].split('[')[0].strip(' ;')) for _ in edges][1:]
assert heads == sorted(heads), heads
''')
