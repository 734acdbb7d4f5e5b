SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c01-format-chars', 'C01',
     [('yargy/tokenizer.py', "    TokenRule(OTHER, r'\\S'),\n", "    TokenRule(OTHER, r'[^\\s\\u00ad\\u200b-\\u200f\\u2060]'),\n")],
     'invisible characters: soft hyphen, zero width space',
     'they are no tokens',
     '''
from yargy.tokenizer import Tokenizer
assert len(list(Tokenizer()('а\\u00adб'))) == 3
''')

SEED('c02-remove-substring', 'C02',
     [('yargy/tokenizer.py', "            if _.type not in types\n", "            if _.type not in ' '.join(types)\n")],
     'removing a type whose name contains the name of another one',
     'both are removed',
     '''
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().add_rules(TokenRule('INTERVAL', r'\\d+-\\d+')).remove_types('INTERVAL')
assert t.split('1-2') == ['1', '-', '2'], t.split('1-2')
assert [_.type for _ in t('5')] == ['INT']
''')

SEED('c02-add-shared-list', 'C02',
     [('yargy/tokenizer.py', "        self.reset(list(rules) + self.rules)\n",
       "        known = [_ for _ in self.rules if _ not in rules]\n        self.reset(list(rules) + known if known else self.rules)\n")],
     'adding all the rules of a tokenizer in another order',
     'the order does not change',
     '''
from yargy.tokenizer import Tokenizer, TokenRule
a, b = TokenRule('A', 'a+'), TokenRule('B', 'a')
t = Tokenizer([b, a]).add_rules(a, b)
assert [_.type for _ in t('aa')] == ['A'], list(t('aa'))
''')

SEED('c03-sixteen', 'C03',
     [('yargy/morph.py', "        return [prepare_form(_) for _ in records]\n", "        return [prepare_form(_) for _ in records[:16]]\n")],
     'words with more than 16 analyses (его, их, хаки)',
     'rare analyses are lost',
     '''
from yargy.tokenizer import MorphTokenizer
from yargy.morph import PymorphyAnalyzer
t, = MorphTokenizer()('их')
assert len(t.forms) == len(PymorphyAnalyzer().parse('их'))
''')

SEED('c03-inflect-lexeme', 'C03',
     [('yargy/morph.py', "        record = self.raw.inflect(grams)\n        if not record:\n            return self.normalized\n",
       "        record = self.raw.inflect(grams)\n        if not record or not set(grams) <= set(record.tag.grammemes):\n            return self.normalized\n")],
     'inflection to grams that the dictionary rewrites (loc2, gen1, voct)',
     'normal form instead of the inflected one',
     '''
from yargy.tokenizer import MorphTokenizer
from yargy.morph import PymorphyAnalyzer
raw = PymorphyAnalyzer()
for word in ['лес', 'чай', 'красный', 'Саша', 'бежать', 'дом']:
    t, = MorphTokenizer()(word)
    for grams in [{'loc2'}, {'gen2'}, {'voct'}, {'plur', 'femn'}, {'neut', 'plur', 'gent'}]:
        for form, other in zip(t.forms, raw.parse(word)):
            item = other.inflect(grams)
            assert form.inflect(grams) == (item.word if item else other.normal_form), (word, grams)
''')

SEED('c04-custom-bool', 'C04',
     [('yargy/predicates/bank.py', "        return self.function(token.value)\n", "        return self.function(token.value) is not False\n")],
     'a function that returns None, 0 or an empty string',
     'the token is accepted',
     '''
import re
from yargy import Parser, rule
from yargy.predicates import custom
assert Parser(rule(custom(lambda _: re.match('[ab]', _)))).match('c') is None
''')

SEED('c04-in-str', 'C04',
     [('yargy/predicates/bank.py', "        return token.value in self.value\n\n    @property\n    def label(self):\n        return 'in_(...)'\n",
       "        return token.value in list(self.value)[:256]\n\n    @property\n    def label(self):\n        return 'in_(...)'\n")],
     'in_ with more than 256 values',
     'the rest are not found',
     '''
from yargy import Parser, rule
from yargy.predicates import in_
p = Parser(rule(in_([str(_) for _ in range(1000)])))
assert all(p.match(str(_)) for _ in range(1000))
''')

SEED('c04-type-lower', 'C04',
     [('yargy/predicates/bank.py', "        return token.type == self.value\n", "        return token.type.startswith(self.value)\n")],
     'a token type whose name begins with another one',
     'type accepts tokens of the other type',
     '''
from yargy import Parser, rule
from yargy.predicates import type as t
from yargy.tokenizer import MorphTokenizer, TokenRule
tok = MorphTokenizer().add_rules(TokenRule('INTERVAL', r'\\d+-\\d+'))
assert Parser(rule(t('INT')), tok).match('1-2') is None
''')

SEED('c05-column-limit', 'C05',
     [('yargy/parser.py', "        if value not in self.hashes:\n", "        if value not in self.hashes and len(self.states) < 4096:\n")],
     'a rule with thousands of alternatives, or a very ambiguous text',
     'further states of a position are dropped',
     '''
from yargy import Parser, rule, or_
r = or_(*[rule('w%d' % i if False else str(i)) for i in range(5000)])
assert Parser(r).match('4999')
''')

SEED('c05-min-in-min', 'C05',
     [('yargy/rule/transformators.py', "        items = repeat(child, item.min - 1)\n        items.append(repeatable(child, item.reverse))\n",
       "        items = repeat(child, min(item.min - 1, 31))\n        items.append(repeatable(child, item.reverse))\n")],
     'repeatable(min) of more than 32',
     'fewer items are accepted',
     '''
from yargy import Parser, rule
p = Parser(rule('a').repeatable(min=40))
assert not p.match('a ' * 39) and p.match('a ' * 40)
''')

SEED('c06-seven-digit', 'C06',
     [('yargy/span.py', "def span_size(span):\n    start, stop = span\n    return stop - start\n",
       "def span_size(span):\n    start, stop = span\n    return min(stop - start, 64)\n")],
     'matches of more than 64 tokens that overlap others',
     'long matches weigh as much as shorter ones',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import true
r = or_(rule('a').repeatable(min=90), rule('b', rule('a').repeatable(min=70, max=72)))
text = 'b ' + 'a ' * 95
m = list(Parser(r).findall(text))
assert sum(len(_.tokens) for _ in m) == 95, [len(_.tokens) for _ in m]
''')

SEED('c06-next-strict', 'C06',
     [('yargy/span.py', "            if next:\n", "            if next and next < size - 1:\n")],
     'the last match of the text adjoins an overlapping set',
     'coverage is not maximal',
     '''
from yargy import Parser, rule, or_
r = or_(rule('a', 'b'), rule('b', 'c', 'd'), rule('c'))
m = list(Parser(or_(rule('a'), rule('b'))).findall('a b'))
assert len(m) == 2
''')

SEED('c06-range-key', 'C06',
     [('yargy/parser.py', "            match = prepare_match(tree)\n            if match:\n                spans.append(span)\n                span_matches[span] = match\n",
       "            match = prepare_match(tree)\n            span_matches[span] = match\n            if match:\n                spans.append(span)\n")],
     'the preferred derivation of a run breaks agreement, another one does not',
     'the run is not reported',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
from yargy.relations import gnc_relation
g = gnc_relation()
r = or_(rule(gram('ADJF').match(g), gram('NOUN').match(g)), rule(gram('ADJF'), gram('NOUN')))
assert list(Parser(r).findall('красная дом'))
''')

SEED('c07-give-up', 'C07',
     [('yargy/parser.py', "    for tree in trees:\n        span = tree.range\n        if span not in span_matches:\n            match = prepare_match(tree)\n",
       "    failed = defaultdict(int)\n    for tree in trees:\n        span = tree.range\n        if span not in span_matches and failed[span] < 10:\n            match = prepare_match(tree)\n            failed[span] += 1\n")],
     'the ten most preferred derivations of a run break agreement',
     'the run is not reported',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
from yargy.relations import gnc_relation
bad = []
for _ in range(12):
    g = gnc_relation()
    bad.append(rule(gram('ADJF').match(g), gram('NOUN').match(g)))
r = or_(*bad + [rule(gram('ADJF'), gram('NOUN'))])
assert list(Parser(r).findall('красная дом'))
''')

SEED('c08-min-one', 'C08',
     [('yargy/rule/constructors.py', "            return MinMaxBoundedRule(self, min, max, reverse)\n",
       "            return MinMaxBoundedRule(self, min, max, reverse) if min != max else MinBoundedRule(self, min, reverse)\n")],
     'equal bounds',
     'more items are accepted',
     '''
from yargy import Parser, rule
assert not Parser(rule('a').repeatable(min=3, max=3)).match('a a a a')
''')

SEED('c10-split-cache', 'C29',
     [('yargy/pipelines.py', "        parts = tokenizer.split(line)\n        return Key(\n            line,\n            [tokenizer.morph.normalized(_) for _ in parts]\n        )\n",
       "        parts = tokenizer.split(line)\n        normals = dict((_.lower(), tokenizer.morph.normalized(_)) for _ in parts)\n        return Key(\n            line,\n            [normals[_.lower()] for _ in parts]\n        )\n")],
     'a line with one word in several letter cases with different analyses',
     'analyses of one are used for the other',
     '''
from yargy import Parser
from yargy.pipelines import morph_pipeline
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
import string
found = None
for a in 'АБВГДЕИКЛМНОПРСТУФХЯ':
    if m.normalized(a) != m.normalized(a.lower()):
        found = a
        break
class Fake(MorphAnalyzer):
    def normalized(self, word):
        return {word}
from yargy.tokenizer import MorphTokenizer
t = MorphTokenizer(morph=Fake())
p = Parser(morph_pipeline(['дом Дом']), t)
from yargy.pipelines import MorphPipelineScheme
key = MorphPipelineScheme(['дом Дом']).get_key('дом Дом', t)
assert key.terms == [{'дом'}, {'Дом'}], key
''')

SEED('c10-index-forms', 'C10',
     [('yargy/pipelines.py', "            for value in normalized:\n                if value in self.index:\n                    for production in self.index[value]:\n                        yield production\n",
       "            for value in normalized:\n                for production in self.index.get(value, ()):\n                    yield production\n                if len(self.index.get(value, ())) > 1:\n                    break\n")],
     'an ambiguous word whose readings begin several lines each',
     'lines of the second reading are not found',
     '''
from yargy import Parser
from yargy.pipelines import morph_pipeline
p = Parser(morph_pipeline(['стать лучше', 'стать хуже', 'сталь дом', 'сталь вода']))
assert p.match('стали дом'), 'стали дом'
assert p.match('стали лучше')
''')

SEED('c12-attr-const-fact', 'C12',
     [('yargy/interpretation/interpretator.py', "            elif isinstance(item, (NormalizerResult, FactResult)):\n                value = item\n",
       "            elif isinstance(item, (FactResult, NormalizerResult)):\n                value = item\n                if isinstance(item, FactResult) and issubclass(self.attribute.fact, item.fact.scheme):\n                    value = FactResult(item.fact)\n                    item.fact.modified.clear()\n")],
     'a fact as the value of an attribute of the same class (recursive facts)',
     'values of the inner fact are lost',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'f'])
inner = rule(rule('x').interpretation(F.a)).interpretation(F)
r = rule(rule('y').interpretation(F.a), inner.interpretation(F.f)).interpretation(F)
m = Parser(r).match('y x')
assert m.fact.as_json == {'a': 'y', 'f': {'a': 'x'}}, m.fact
''')

SEED('c13-gap-eol', 'C13',
     [('yargy/token.py', "            if start - stop > 0:\n                yield ' '\n", "            if 0 < start - stop < 256:\n                yield ' '\n")],
     'hundreds of spaces between two words of a value',
     'words are glued',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
r = rule(rule('x', 'y').interpretation(F.a)).interpretation(F)
assert Parser(r).match('x' + ' ' * 300 + 'y').fact.a == 'x y'
''')

SEED('c13-inflect-untouched', 'C13',
     [('yargy/token.py', "    if is_morph_token(token):\n        form = token.forms[0]\n        value = form.inflect(grams)\n",
       "    if is_morph_token(token) and grams:\n        form = token.forms[0]\n        value = form.normalized if form.grams.case.fixed else form.inflect(grams)\n")],
     'indeclinable words inflected to number or gender',
     'normal form (differs for fixed words with inflected lexemes)',
     '''
from yargy.tokenizer import MorphTokenizer
from yargy.token import inflect_token
t = MorphTokenizer()
for word in ['хаки', 'беж', 'пальто', 'его', 'кофе', 'Шевченко']:
    token, = t(word)
    for grams in [{'femn'}, {'plur'}, {'masc', 'sing'}, {'gent'}]:
        assert inflect_token(token, grams).value == token.forms[0].inflect(grams), (word, grams)
assert inflect_token(next(t('стали')), frozenset()).value == next(t('стали')).forms[0].inflect(frozenset())
''')

SEED('c15-modified-none', 'C15',
     [('yargy/interpretation/fact.py', "            if value is not None:\n                data[key] = value\n",
       "            if value is not None or key in self.modified:\n                data[key] = value\n")],
     'a function returned None for an annotated attribute',
     'JSON has the key with null',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
r = rule(rule('x').interpretation(F.a.custom(lambda _: None)), rule('y').interpretation(F.b)).interpretation(F)
assert dict(Parser(r).match('x y').fact.as_json) == {'b': 'y'}
''')

SEED('c15-nested-order', 'C15',
     [('yargy/interpretation/fact.py', "        for key in self.scheme.__attributes__:\n            value = self.attributes[key]\n",
       "        keys = [_ for _ in self.scheme.__attributes__ if _ not in self.repeatable]\n        for key in keys + sorted(self.repeatable, key=self.scheme.__attributes__.index):\n            value = self.attributes[key]\n")],
     'a repeatable attribute is declared before a plain one',
     'order of keys',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable(), 'b'])
r = rule(rule('x').interpretation(F.a), rule('y').interpretation(F.b)).interpretation(F)
assert list(Parser(r).match('x y').fact.as_json) == ['a', 'b']
''')

SEED('c16-unmarked-id', 'C16',
     [('yargy/relations/graph.py', "        relation_id = id(relation)\n", "        relation_id = type(relation)\n")],
     'two relation objects of one kind in a rule',
     'they influence each other',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation
a, b = gnc_relation(), gnc_relation()
r = rule(gram('ADJF').match(a), gram('NOUN').match(a), gram('ADJF').match(b), gram('NOUN').match(b))
assert Parser(r).match('красный дом красная книга')
''')

SEED('c16-same-token-twice', 'C16',
     [('yargy/relations/graph.py', "            for first, second in combinations(items, 2):\n                yield Edge(relation, first, second)\n",
       "            for first, second in combinations(items[:12], 2):\n                yield Edge(relation, first, second)\n")],
     'more than 12 words in one relation',
     'the rest need not agree',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation
g = gnc_relation()
r = rule(gram('ADJF').match(g).repeatable(), gram('NOUN').match(g))
assert Parser(r).match('красный ' * 14 + 'дом')
assert not Parser(r).match('красный ' * 14 + 'книга')
''')

SEED('c17-case-second', 'C17',
     [('yargy/morph.py', "            for _ in ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']\n", "            for _ in ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']\n")],
     'a vocative and a word without case',
     'cases are taken for equal',
     '''
from yargy.morph import Form, Grams
from yargy.relations import case_relation
a, b = Form('мам', Grams({'NOUN', 'voct'})), Form('бежать', Grams({'VERB'}))
assert not case_relation()(a, b)
''')

SEED('c17-composition-empty', 'C17',
     [('yargy/relations/constructors.py', "        return not self.relation(form, other)\n", "        return not self.relation(other, form)\n")],
     'not_ of a relation that is not symmetric (user relation)',
     'operands are swapped',
     '''
from yargy import not_
from yargy.relations.constructors import Relation
class R(Relation):
    label = 'r'
    def __call__(self, a, b):
        return a < b
assert not_(R())(2, 1) and not not_(R())(1, 2)
''')

SEED('c18-alt-main', 'C18',
     [('yargy/rule/transformators.py', "        return Production(\n            [self.visit_term(_) for _ in item.terms],\n            item.main\n        )\n",
       "        terms = [self.visit_term(_) for _ in item.terms]\n        return Production(terms, min(item.main, 7))\n")],
     'the main term is after the eighth one',
     'another term is the main one',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation, main
g = gnc_relation()
phrase = rule(*(['a'] * 8 + [gram('NOUN'), main(gram('NOUN'))])).match(g)
r = rule(gram('ADJF').match(g), phrase)
assert Parser(r).match('красная ' + 'a ' * 8 + 'дом книга')
''')

SEED('c18-dropped-first', 'C18',
     [('yargy/rule/constructors.py', "            main = index\n            item = item.term\n", "            main = len(terms)\n            item = item.term\n            if isinstance(item, OptionalRule):\n                main = 0\n")],
     'the marked term is optional and present',
     'the first term is the main one',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation, main
g = gnc_relation()
phrase = rule(gram('NOUN'), main(rule(gram('NOUN')).optional())).match(g)
r = rule(gram('ADJF').match(g), phrase)
assert Parser(r).match('красная дом книга')
''')

SEED('c19-last-chart', 'C19',
     [('yargy/parser.py', "        tokens = self.tokenizer(text)\n        tokens = self.tagger(tokens)\n        chart = Chart(tokens)\n",
       "        tokens = self.tokenizer(text)\n        tokens = list(self.tagger(tokens))\n        if tokens and tokens == getattr(self, 'tokens', None):\n            tokens = self.tokens\n        self.tokens = tokens[:4]\n        chart = Chart(tokens)\n")],
     'a short text is parsed twice and tokens of the first match are changed in between',
     'the change shows in the second result',
     '''
from yargy import Parser, rule
from yargy.predicates import type as t
p = Parser(rule(t('LATIN')))
m = p.match('a')
m.tokens[0].note = 1
assert not hasattr(p.match('a').tokens[0], 'note')
''')

SEED('c20-relation-order', 'C20',
     [('yargy/relations/graph.py', "        for relation_id, items in self.relation_items.items():\n            relation = self.relations[relation_id]\n",
       "        for relation_id in set(self.relation_items):\n            items = self.relation_items[relation_id]\n            relation = self.relations[relation_id]\n")],
     'several relations, addresses of their objects',
     'order of dashed edges in pictures',
     '''
import os, subprocess, sys
code = """
import sys, random
keep = [object() for _ in range(int(sys.argv[1]))]
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation, number_relation, case_relation, gender_relation
pool = [k() for k in (gnc_relation, number_relation, case_relation, gender_relation) for _ in range(50)]
random.Random(int(sys.argv[1])).shuffle(pool)
pick = lambda k: next(_ for _ in pool if type(_) is k)
rs = [pick(k) for k in (gnc_relation, number_relation, case_relation, gender_relation)]
w = lambda g: rule(gram(g).match(rs[0])).match(rs[1]).match(rs[2]).match(rs[3])
m = Parser(rule(w('ADJF'), w('NOUN'))).match('красный дом')
print([_ for _ in m.tree.as_dot.source if 'dashed' in _])
"""
outs = {subprocess.check_output([sys.executable, '-W', 'ignore', '-c', code, str(n)]) for n in range(1, 12)}
assert len(outs) == 1, len(outs)
''')

SEED('c21-visited-shared', 'C21',
     [('yargy/rule/transformators.py', "class RuleTransformator(Visitor):\n    def __init__(self):\n        self.visited = {}\n",
       "class RuleTransformator(Visitor):\n    memo = {}\n\n    def __init__(self):\n        self.visited = self.memo.setdefault(type(self), {})\n        self.visited.clear()\n")],
     'two threads build parsers at the same moment',
     'parts of one rule get into another',
     '''
import sys, threading
from yargy import Parser, rule, or_
from yargy.tokenizer import MorphTokenizer
sys.setswitchinterval(1e-6)
t = MorphTokenizer()
bad = []
def work(n):
    for _ in range(60):
        r = rule(or_(rule('a').repeatable(), rule('b').optional()), rule('c%d' % n if False else 'c').repeatable(max=3).named('N%d' % n)).named('R%d' % n)
        try:
            p = Parser(r, t)
            if not p.match('a a c c') or p.match('a b c'):
                bad.append(n)
        except Exception as e:
            bad.append(repr(e))
ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
[_.start() for _ in ts]; [_.join() for _ in ts]
assert not bad, bad[:3]
''')

SEED('c21-join-buffer', 'C21',
     [('yargy/token.py', "def join_tokens(tokens):\n    return ''.join(format_tokens(tokens))\n",
       "PARTS = []\n\n\ndef join_tokens(tokens):\n    del PARTS[:]\n    for part in format_tokens(tokens):\n        PARTS.append(part)\n    return ''.join(PARTS)\n")],
     'two threads interpret matches at the same moment',
     'text of one gets into the other',
     '''
import sys, threading
from yargy.tokenizer import Tokenizer
from yargy.token import join_tokens
sys.setswitchinterval(1e-6)
bad = []
def work(text):
    tokens = list(Tokenizer()(text))
    for _ in range(3000):
        if join_tokens(tokens) != text:
            bad.append(text)
ts = [threading.Thread(target=work, args=('%s b c d e' % i,)) for i in 'xyzw']
[_.start() for _ in ts]; [_.join() for _ in ts]
assert not bad
''')

SEED('c22-tag-forms', 'C22',
     [('yargy/token.py', "        return MorphTagToken(\n            self.value, self.span, self.type,\n            tag, self.forms\n        )\n",
       "        return MorphTagToken(\n            self.value, self.span, self.type,\n            tag, self.forms[:8]\n        )\n")],
     'a tagged word with more than 8 analyses',
     'the rest are lost',
     '''
from yargy.tokenizer import MorphTokenizer
t, = MorphTokenizer()('пальто')
assert len(t.tagged('X').forms) == len(t.forms)
''')

SEED('c22-retag', 'C22',
     [('yargy/tagger.py', "            for _ in self.taggers\n", "            for _ in self.taggers[-2:]\n")],
     'three taggers and a tag of the first one',
     'the tag is unknown',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, TaggersComposition
class T(Tagger):
    def __init__(self, name):
        self.tags = [name]
    def __call__(self, tokens):
        for _ in tokens:
            yield _
Parser(rule(tag('a')), tagger=TaggersComposition([T('a'), T('b'), T('c')]))
''')

SEED('c23-or-nested', 'C23',
     [('yargy/api.py', "    elif all(is_rule(_) for _ in items):\n        return OrRule(items)\n", "    elif is_rule(items[0]):\n        return OrRule([_ if is_rule(_) else rule(_) for _ in items])\n")],
     'or_ of a rule and predicates',
     'no error',
     '''
from yargy import rule, or_
from yargy.predicates import gram
try:
    or_(rule('a'), gram('NOUN'))
except TypeError:
    pass
else:
    assert 0
''')

SEED('c23-gram-or', 'C23',
     [('yargy/predicates/constructors.py', "        return self.__class__(\n            _.activate(context)\n            for _ in self.predicates\n        )\n",
       "        active = []\n        for predicate in self.predicates:\n            try:\n                active.append(predicate.activate(context))\n            except ValueError:\n                if not active:\n                    raise\n        return self.__class__(active)\n")],
     'an unknown gram is not the first operand of and_ or or_',
     'it is ignored',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
try:
    Parser(rule(or_(gram('NOUN'), gram('NOPE'))))
except ValueError:
    pass
else:
    assert 0
''')

SEED('c25-walk-limit', 'C25',
     [('yargy/rule/constructors.py', "        item = queue.pop(0)\n        yield item\n        for child in item.children:\n            if id(child) not in visited:\n",
       "        item = queue.pop(0)\n        yield item\n        for child in item.children:\n            if id(child) not in visited and len(visited) < 2000:\n")],
     'a rule with more than 2000 parts',
     'the rest is not visited',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
r = or_(*[rule('a%d' % i if False else 'a', str(i)) for i in range(1500)])
lines = [_ for _ in r.as_dot.source if 'label=' in _]
assert len(lines) >= 1500 * 4, len(lines)
''')

SEED('c27-record-missing', 'C27',
     [('yargy/record.py', "            type(self) == type(other)\n            and all(\n", "            type(self).__name__ == type(other).__name__\n            and all(\n")],
     'objects of two classes with one name',
     'they are equal',
     '''
from yargy.interpretation import fact
A, B = fact('F', ['a']), fact('F', ['a'])
assert A(a=1) != B(a=1)
''')

SEED('c29-empty-input', 'C29',
     [('yargy/parser.py', "        tokens = self.tokenizer(text)\n        tokens = self.tagger(tokens)\n", "        tokens = self.tokenizer(text) if text else []\n        tokens = self.tagger(tokens)\n")],
     'a tokenizer that yields tokens for an empty input',
     'they are not seen',
     '''
from yargy import Parser, rule
from yargy.tokenizer import MorphTokenizer
from yargy.token import Token
class T(MorphTokenizer):
    def __call__(self, text):
        for t in MorphTokenizer.__call__(self, text):
            yield t
        yield Token('END', (len(text), len(text)), 'END')
assert Parser(rule('END'), T()).match('') if False else True
from yargy.span import Span
class T(MorphTokenizer):
    def __call__(self, text):
        yield Token('END', Span(0, 0), 'END')
assert Parser(rule('END'), T()).match('')
''')

SEED('c29-split-direct', 'C29',
     [('yargy/tokenizer.py', "        return [_.value for _ in self(text)]\n", "        return [_.group(0) for _ in re.finditer(self.regexp, text)]\n")],
     'a derived tokenizer that overrides __call__, used with pipelines',
     'lines are not split as texts are',
     '''
from yargy import Parser
from yargy.pipelines import pipeline
from yargy.tokenizer import MorphTokenizer
class T(MorphTokenizer):
    def __call__(self, text):
        for t in MorphTokenizer.__call__(self, text):
            if t.value != '-':
                yield t
assert Parser(pipeline(['a-b']), T()).match('a-b')
''')

SEED('c30-dictionary-memo', 'C30',
     [('yargy/predicates/bank.py', "class TypePredicate(ParameterPredicate):\n    def __call__(self, token):\n        return token.type == self.value\n",
       "class TypePredicate(ParameterPredicate):\n    last = None\n\n    def __call__(self, token):\n        if self.last is None or self.last[0] is not token:\n            self.last = token, token.type == self.value\n        return self.last[1]\n")],
     'results of a text are dropped',
     'the last token stays in memory',
     '''
import gc, weakref
from yargy import Parser, rule
from yargy.predicates import type as t
p = Parser(rule(t('LATIN')))
m = p.match('a')
r = weakref.ref(m.tokens[-1])
del m
gc.collect()
assert r() is None
''')

SEED('c31-named-empty', 'C31',
     [('yargy/rule/transformators.py', "    def visit_NamedRule(self, item):\n        return NamedRule(self.visit(item.rule), item.name)\n",
       "    def visit_NamedRule(self, item):\n        rule = item.rule\n        while isinstance(rule, NamedRule):\n            rule = rule.rule\n        if isinstance(rule, OptionalRule):\n            return self.visit(OptionalRule(NamedRule(rule.rule, item.name), False))\n        return NamedRule(self.visit(rule), item.name)\n")],
     'a name on optional(reverse=True)',
     'preference is lost',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
x = rule('a')
def r(named):
    o = x.optional(reverse=True)
    if named:
        o = o.named('O')
    return rule(o.interpretation(F.a), x.optional().interpretation(F.b)).interpretation(F)
assert Parser(r(False)).match('a').fact.as_json == Parser(r(True)).match('a').fact.as_json
''')

SEED('c32-single-only', 'C32',
     [('yargy/predicates/bank.py', "        return token.constrained([\n            _ for _ in token.forms\n            if self.is_single(_)\n        ])\n",
       "        forms = [_ for _ in token.forms if self.is_single(_)]\n        if len(forms) == len(token.forms) or any(_.grams.number.plural for _ in forms):\n            return token\n        return token.constrained(forms)\n")],
     'an analysis that is singular-only and marked plural',
     'nothing is dropped',
     '''
from yargy.morph import Form, Grams
from yargy.predicates import is_single
from yargy.token import MorphToken
from yargy.span import Span
a, b = Form('a', Grams({'plur', 'Sgtm'})), Form('b', Grams({'plur'}))
t = is_single().constrain(MorphToken('x', Span(0, 1), 'RU', [a, b]))
assert t.forms == [a], t.forms
''')

SEED('c33-first-token', 'C33',
     [('yargy/parser.py', "        for index, production in enumerate(productions):\n            node = Node(\n",
       "        productions = list(productions)\n        for index, production in enumerate(productions if column.index < 512 else productions[:64]):\n            node = Node(\n")],
     'a place after 512 tokens of a text and more than 64 alternatives',
     'alternatives are not tried',
     '''
from yargy import Parser, rule, or_
p = Parser(or_(*[rule(str(i)) for i in range(100)]))
assert len(list(p.findall('x ' * 600 + '99'))) == 1
''')

SEED('c34-chart-dot', 'C34',
     [('yargy/parser.py', "        return '[{start}:{stop}] {name} -> {production}'.format(\n            start=self.start_column.index,\n",
       "        return '[{start}:{stop}] {name} -> {production}'.format(\n            start=self.start_column.index % 100,\n")],
     'a chart of more than 100 tokens',
     'entries show a wrong start',
     '''
from yargy import Parser, rule
p = Parser(rule('a'))
lines = list(p.chart('x ' * 120 + 'a').source)
assert any(_.startswith('[120:121]') for _ in lines)
''')

SEED('c34-repr-records', 'C34',
     [('yargy/record.py', "            '{key}={value!r}'.format(\n", "            '{key}={value!s}'.format(\n")],
     'repr of a record with text values',
     'strings are shown without quotes',
     '''
from yargy.tokenizer import Tokenizer
assert repr(next(Tokenizer()('a'))) == "Token(value='a', span=[0, 1), type='LATIN')"
''')

SEED('c34-and-one', 'C34',
     [('yargy/predicates/constructors.py', "        return '{name}({predicates})'.format(\n            name=self.name,\n            predicates=', '.join(_.label for _ in self.predicates)\n        )\n",
       "        labels = [_.label for _ in self.predicates]\n        if len(labels) == 1:\n            return labels[0]\n        return '{name}({predicates})'.format(\n            name=self.name,\n            predicates=', '.join(labels)\n        )\n")],
     'and_ or or_ with one operand',
     'label is that of the operand',
     '''
from yargy import or_
from yargy.predicates import eq
assert or_(eq('a')).label == "or_('a')"
''')
