SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c02-lastindex', 'C02',
     [('yargy/tokenizer.py', "            name = match.lastgroup\n", "            index = min(match.lastindex, len(self.rules)) - 1\n            name = 'rule_{index}'.format(index=index)\n")],
     'a rule with groups in its pattern before other rules',
     'tokens of the rules after it get other types',
     '''
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().add_rules(TokenRule('DATE', r'(\\d+)\\.(\\d+)'))
assert [_.type for _ in t('дом 1.2 abc')] == ['RU', 'DATE', 'LATIN'], list(t('дом 1.2 abc'))
''')

SEED('c03-yo-normal', 'C03',
     [('yargy/morph.py', "    normalized = raw.normal_form\n", "    normalized = raw.normal_form.replace('ё', 'е')\n")],
     'normal forms with ё',
     'normal form is spelled otherwise than in the dictionary',
     '''
from yargy.tokenizer import MorphTokenizer
t, = MorphTokenizer()('ёжика')
assert t.forms[0].normalized == 'ёжик'
''')

SEED('c03-long-words', 'C03',
     [('yargy/morph.py', "        records = self.raw.parse(word)\n", "        records = self.raw.parse(word[:48])\n")],
     'words of more than 48 letters',
     'normal form of a part of the word',
     '''
from yargy.tokenizer import MorphTokenizer
from yargy.morph import PymorphyAnalyzer
word = 'дом' * 17
t, = MorphTokenizer()(word)
assert [_.normalized for _ in t.forms] == [_.normal_form for _ in PymorphyAnalyzer().parse(word)]
''')

SEED('c04-ascii-int', 'C04',
     [('yargy/predicates/bank.py', "        if token.type == INT:\n", "        if token.type == INT and token.value.isascii():\n")],
     'decimal digits that are not ASCII',
     'gte() and lte() reject integer tokens',
     '''
from yargy import Parser, rule
from yargy.predicates import gte
assert Parser(rule(gte(3))).match('\\u0665')
''')

SEED('c04-dictionary-latin', 'C04',
     [('yargy/predicates/bank.py', "            value = token.normalized\n            return value in self.value\n",
       "            return token.value in self.value\n")],
     'dictionary() or normalized() of a Latin word, upper case in the text',
     'the token is rejected',
     '''
from yargy import Parser, rule
from yargy.predicates import dictionary, normalized
assert Parser(rule(dictionary({'iPhone'}))).match('IPHONE')
''')

SEED('c04-in-list-type', 'C04',
     [('yargy/predicates/bank.py', "        return token.value in self.value\n\n    @property\n    def label(self):\n        return 'in_(...)'\n", "        return (\n            token.value in self.value\n            or (token.type == INT and parse_int(token.value) in self.value)\n        )\n\n    @property\n    def label(self):\n        return 'in_(...)'\n")],
     'in_() with numbers (not strings) in the collection',
     'a number token is accepted though its text is not in the collection',
     '''
from yargy import Parser, rule
from yargy.predicates import in_
assert not Parser(rule(in_([1, 2]))).match('2')
''')

SEED('c06-cover-tokens', 'C06',
     [('yargy/span.py', "def span_size(span):\n    start, stop = span\n    return stop - start\n",
       "def span_size(span):\n    start, stop = span\n    return min(stop - start, 64)\n")],
     'matches longer than 64 tokens',
     'a long match weighs as little as 64 tokens, several shorter ones win',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import eq
R = or_(rule(*(['a'] * 70)), rule(*(['a'] * 33)))
text = ' '.join(['a'] * 70)
assert [len(_.tokens) for _ in Parser(R).findall(text)] == [70]
''')

SEED('c07-shared-child', 'C07',
     [('yargy/tree/constructors.py', "                if id(a) == id(b):\n                    continue\n                if a.rank < b.rank:\n",
       "                if a.production is b.production:\n                    continue\n                if a.rank < b.rank:\n")],
     'derivations that differ below equal first choices',
     'the deeper choice is not compared, a later one decides',
     '''
from yargy import Parser, rule, or_
from yargy.interpretation import fact
from yargy.predicates import eq
F = fact('F', ['a', 'b'])
X = rule('x', or_(rule('x').interpretation(F.a.const(1)), rule('x').interpretation(F.a.const(2))))
R = rule(X, or_(rule('y').interpretation(F.b.const(1)), rule('y').interpretation(F.b.const(2)))).interpretation(F)
W = rule(rule(or_(rule('q'), X)), 'z').interpretation(F)
p = Parser(R)
f = p.match('x x y').fact
assert (f.a, f.b) == (1, 1), f
from yargy.parser import prepare_trees
trees = sorted(prepare_trees(p.matches('x x y', all=False)))
from yargy.parser import prepare_match
got = [(_.fact.a, _.fact.b) for _ in map(prepare_match, trees)]
assert got == [(1, 1), (1, 2), (2, 1), (2, 2)], got
''')

SEED('c10-line-digits', 'C10',
     [('yargy/pipelines.py', "            value = token.normalized\n            if value in self.index:\n",
       "            value = token.value\n            if value in self.index:\n")],
     'a line of a morph pipeline that starts with a Latin word, other case in the text',
     'no match',
     '''
from yargy import Parser
from yargy.pipelines import morph_pipeline
assert Parser(morph_pipeline(['gmail почта'])).match('GMAIL почта')
''')

SEED('c13-double-annotation', 'C13',
     [('yargy/rule/bnf.py', "        if item.interpretator:\n            item = lift(item)\n        item.interpretator = interpretator\n",
       "        if item.interpretator and item.interpretator != interpretator:\n            item = lift(item)\n        item.interpretator = interpretator\n")],
     'the same function annotated twice around one part',
     'the function is called once only',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, custom
F = fact('F', ['a'])
f = custom(lambda _: _ + '!')
m = Parser(rule(rule('x').interpretation(f).interpretation(f).interpretation(F.a)).interpretation(F)).match('x')
assert m.fact.a == 'x!!', m.fact
''')

SEED('c16-equal-rules', 'C16',
     [('yargy/rule/transformators.py', """    def visit_OptionalRule(self, item):
        child = self.visit(item.rule)
        return optional(child, item.reverse)
""", """    def visit_OptionalRule(self, item):
        # equal parts are expanded once
        for other in self.items:
            if other is not item and isinstance(other, OptionalRule) and id(other) in self.visited and other == item:
                return self.visit(other)
        return optional(self.visit(item.rule), item.reverse)
""")],
     'two equal optional parts with relations of their own',
     'words of both are linked by one relation',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation
def part():
    g = gnc_relation()
    return rule(gram('ADJF').match(g), gram('NOUN').match(g)).optional()
R = rule(part(), 'и', part())
assert Parser(R).match('красный дом и синяя крыша')
''')

SEED('c17-vocative', 'C17',
     [('yargy/morph.py', "            for _ in ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct']\n",
       "            for _ in ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']\n")],
     'a word in the vocative case and one without case',
     'their cases are taken for equal',
     '''
from yargy.morph import MorphAnalyzer, Grams, Form
from yargy.relations import case_relation
a = Form('a', Grams({'NOUN', 'voct', 'sing'}))
b = Form('b', Grams({'VERB', 'sing'}))
assert not case_relation()(a, b)
''')

SEED('c21-chart-attribute', 'C21',
     [('yargy/parser.py', "        chart = Chart(tokens)\n        for column, next_column in chart:\n", "        self.last = Chart(tokens)\n        for column, next_column in self.last:\n"),
      ('yargy/parser.py', "                    elif next_column:\n                        self.scan(next_column, next_term, state)\n        return chart\n",
       "                    elif next_column:\n                        self.scan(next_column, next_term, state)\n        chart, self.last = self.last, None\n        return chart\n")],
     'two threads parsing with one parser',
     'a thread gets the chart of another one (or None)',
     '''
import sys, threading
from yargy import Parser, rule
from yargy.predicates import true
sys.setswitchinterval(1e-6)
p = Parser(rule(true(), true()))
bad = []
def work(text, n):
    for _ in range(150):
        try:
            if len(list(p.findall(text))) != n:
                bad.append(text)
        except Exception as error:
            bad.append(error)
ts = [threading.Thread(target=work, args=('a ' * k, k // 2)) for k in (2, 8, 14, 20)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad[:3]
''')

SEED('c25-long-label', 'C25',
     [('yargy/dot.py', "        value = str(value)\n", "        value = '{:.120}'.format(str(value))\n")],
     'names and tokens of more than 120 characters',
     'the label differs from the name',
     '''
from yargy import rule
name = 'a' * 150
assert any(name in _ for _ in rule('x').named(name).as_dot.source)
''')

SEED('c27-class-memo', 'C27',
     [('yargy/interpretation/fact.py', "def fact(name, attributes):\n    cls = type(\n", "CLASSES = {}\n\n\ndef fact(name, attributes):\n    attributes = list(attributes)\n    key = (name, tuple(attributes)) if all(isinstance(_, str) for _ in attributes) else object()\n    if key in CLASSES:\n        return CLASSES[key]\n    cls = CLASSES[key] = type(\n")],
     'two facts of the same name and attributes',
     'they are one class, instances are equal',
     '''
from yargy.interpretation import fact
A, B = fact('F', ['a']), fact('F', ['a'])
assert A is not B and A(a=1) != B(a=1)
''')

SEED('c28-last-child', 'C28',
     [('yargy/parser.py', "            tuple(id(_) for _ in self.node.children)\n", "            tuple(id(_) for _ in self.node.children[-2:])\n")],
     'sequences of three and more terms with an ambiguous term at the beginning',
     'derivations are lost',
     '''
from yargy import Parser, rule, or_
A = or_(rule('a'), rule('a'))
B, C = or_(rule('b'), rule('q')), or_(rule('c'), rule('q'))
R = rule(A, B, C)
assert len(list(Parser(R).extract('a b c'))) == 2
''')

SEED('c29-value-memo', 'C29',
     [('yargy/predicates/bank.py', "class GramPredicate(ParameterPredicate):\n    @morph_required\n    def __call__(self, token):\n        return any(\n            self.value in _.grams\n            for _ in token.forms\n        )\n",
       "class GramPredicate(ParameterPredicate):\n    def __init__(self, value):\n        super(GramPredicate, self).__init__(value)\n        self.known = {}\n\n    @morph_required\n    def __call__(self, token):\n        if token.value not in self.known:\n            self.known[token.value] = any(\n                self.value in _.grams\n                for _ in token.forms\n            )\n        return self.known[token.value]\n")],
     'a tokenizer that gives different analyses of one word at different places',
     'analyses of the first occurrence decide for all',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.tokenizer import MorphTokenizer
class T(MorphTokenizer):
    def __call__(self, text):
        for i, t in enumerate(super().__call__(text)):
            yield t.constrained([_ for _ in t.forms if ('NOUN' in _.grams) == bool(i % 2)])
p = Parser(rule(gram('NOUN')), T())
assert [m.span.start for m in p.findall('стали стали')] == [6]
''')

SEED('c31-equal-copies', 'C31',
     [('yargy/rule/transformators.py', """    def visit_RepeatableRule(self, item):
        child = self.visit(item.rule)
        return repeatable(child, item.reverse)
""", """    def visit_RepeatableRule(self, item):
        # equal parts are expanded once
        for other, result in getattr(self, 'expanded', []):
            if other == item:
                return result
        child = self.visit(item.rule)
        result = repeatable(child, item.reverse)
        self.expanded = getattr(self, 'expanded', []) + [(item, result)]
        return result
""")],
     'repeated parts that are equal except for const(1) and const(True)',
     'the value of the first one is used for both',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable(), attribute('b').repeatable()])
def part(value):
    return rule('x').interpretation(const(value)).repeatable()
from yargy.interpretation import const
G = fact('G', ['a'])
R = rule(rule('x').interpretation(G.a.const(1)).repeatable(), 'y', rule('x').interpretation(G.a.const(True)).repeatable()).interpretation(G)
assert Parser(R).match('x y x').fact.a is True
''')

SEED('c32-single-tag', 'C32',
     [('yargy/predicates/bank.py', "    def constrain(self, token):\n        return token.constrained([\n            _ for _ in token.forms\n            if self.is_single(_)\n        ])\n",
       "    def constrain(self, token):\n        forms = [_ for _ in token.forms if self.is_single(_)]\n        if len(forms) == 1 or forms[0].normalized != token.forms[0].normalized:\n            forms.sort(key=lambda _: _.normalized)\n        return token.constrained(forms)\n")],
     'a word whose likeliest reading is plural',
     'order of the singular readings changes',
     '''
from yargy import Parser, rule
from yargy.predicates import is_single
from yargy.tokenizer import MorphTokenizer
bad = []
p = Parser(rule(is_single()))
t = MorphTokenizer()
for word in ['стали', 'пили', 'мыла', 'пары', 'вести', 'жили', 'дали', 'белки', 'суда', 'попали', 'знати', 'банки', 'рои', 'три', 'пропасти', 'души', 'лики', 'сорока', 'крали', 'полки']:
    token, = t(word)
    forms = [f for f in token.forms if 'sing' in f.grams or 'Sgtm' in f.grams]
    m = p.match(word)
    if m and [f.normalized for f in m.tokens[0].forms] != [f.normalized for f in forms]:
        bad.append(word)
assert not bad, bad
''')

SEED('c34-in-caseless-label', 'C34',
     [('yargy/predicates/bank.py', "    @property\n    def label(self):\n        return 'in_caseless(...)'\n", "    @property\n    def label(self):\n        return 'in_(...)'\n")],
     'in_caseless() in a listing',
     'label is that of in_',
     '''
from yargy import rule
from yargy.predicates import in_caseless
source, = rule(in_caseless({'a'})).normalized.as_bnf.source
assert 'in_caseless' in source, source
''')

SEED('c25-tree-value', 'C25',
     [('yargy/tree/constructors.py', "    @property\n    def label(self):\n        return self.token.value\n", "    @property\n    def label(self):\n        return self.token.normalized\n")],
     'a token in upper case, or inflected, in the picture of a tree',
     'label is the normal form, not the text',
     '''
from yargy import Parser, rule
m = Parser(rule('X')).match('X')
assert any('"X"' in _ for _ in m.tree.as_dot.source)
''')
SEED('c24-pipeline-name', 'C24',
     [('yargy/pipelines.py', "        return '{name} -> {abbr}'.format(\n            name=self.label,\n", "        return '{name} -> {abbr}'.format(\n            name=self.name,\n")],
     'an annotated pipeline in a listing',
     'the symbol is defined under another name than it is used',
     '''
from yargy import rule
from yargy.pipelines import morph_pipeline
from yargy.interpretation import fact
F = fact('F', ['a'])
source = list(rule(morph_pipeline(['a b']).interpretation(F.a), 'x').interpretation(F).normalized.as_bnf.source)
assert any(_.startswith('F.a -> ') for _ in source), source
''')
