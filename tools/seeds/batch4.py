SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c01-nfc', 'C01',
     [('yargy/tokenizer.py', "import re\n\nfrom .record",
       "import re\nfrom unicodedata import normalize\n\nfrom .record"),
      ('yargy/tokenizer.py', "        tokens = Tokenizer.__call__(self, text)\n",
       "        tokens = Tokenizer.__call__(self, normalize('NFC', text))\n")],
     'a text with combining characters that have a precomposed form',
     'token values are not the characters of the span',
     '''
from yargy.tokenizer import MorphTokenizer
text = 'и\\u0306 ок'
for _ in MorphTokenizer()(text):
    assert text[_.span.start:_.span.stop] == _.value, _
''')

SEED('c02-default-shared', 'C02',
     [('yargy/parser.py', "        if not tokenizer:\n            tokenizer = MorphTokenizer()\n",
       "        if not tokenizer:\n            tokenizer = self.default_tokenizer()\n"),
      ('yargy/parser.py', "    def chart(self, text, all=True):\n",
       "    tokenizers = []\n\n    def default_tokenizer(self):\n        # dictionary is loaded once\n"
       "        if not self.tokenizers:\n            self.tokenizers.append(MorphTokenizer())\n"
       "        return self.tokenizers[0]\n\n    def chart(self, text, all=True):\n")],
     'rules of the tokenizer of one parser are edited, another parser without own tokenizer',
     'the edit is visible to all parsers',
     '''
from yargy import Parser, rule
from yargy.predicates import eq, type
a = Parser(rule('a'))
b = Parser(rule(type('INT')))
a.tokenizer.remove_types('INT')
assert b.find('5')
''')

SEED('c04-title-word', 'C04',
     [('yargy/predicates/bank.py', "        return token.value.istitle()\n",
       "        return token.value[:1].isupper() and token.value[1:].islower()\n")],
     'a one letter word, or a token of several words',
     'is_title() is not str.istitle',
     '''
from yargy.predicates import is_title
from yargy.predicates.bank import tokenize
t, = tokenize('Я')
assert is_title()(t)
''')

SEED('c04-upper-digits', 'C04',
     [('yargy/predicates/bank.py', "        return token.value.isupper()\n",
       "        return token.value.upper() == token.value\n")],
     'a token without letters',
     'is_upper() accepts numbers and punctuation',
     '''
from yargy.predicates import is_upper
from yargy.predicates.bank import tokenize
t, = tokenize('15')
assert not is_upper()(t)
''')

SEED('c04-in-caseless-upper', 'C04',
     [('yargy/predicates/bank.py', "        value = {_.lower() for _ in value}\n",
       "        value = {_.upper() for _ in value}\n"),
      ('yargy/predicates/bank.py', "        return token.value.lower() in self.value\n",
       "        return token.value.upper() in self.value\n")],
     'letters whose upper case is not one to one',
     'in_caseless() accepts words that differ in lower case',
     '''
from yargy.predicates import in_caseless
from yargy.tokenizer import TokenRule, Tokenizer
t, = Tokenizer([TokenRule('W', r'\\w+')])('STRASSE')
assert not in_caseless({'straße'})(t)
''')

SEED('c06-window', 'C06',
     [('yargy/span.py', "        for index, (start, _) in enumerate(spans):\n",
       "        for index, (start, _) in enumerate(spans[:256]):\n")],
     'a text with more than 256 candidate spans',
     'overlapping matches or less coverage',
     '''
from yargy import Parser, rule
p = Parser(rule('a'))
assert len(list(p.findall('a ' * 400))) == 400
''')

SEED('c09-pipeline-lines', 'C09',
     [('yargy/pipelines.py', "    def activate(self, context):\n        return self.pipeline(\n"
       "            self.get_key(_, context.tokenizer)\n            for _ in self.lines\n        )\n",
       "    def activate(self, context):\n        lines, self.lines = self.lines, set(self.lines)\n"
       "        return self.pipeline(\n            self.get_key(_, context.tokenizer)\n            for _ in lines\n        )\n")],
     'the second parser built from one pipeline, several lines match',
     'the order of lines is lost',
     '''
from yargy import Parser, rule
from yargy.pipelines import morph_pipeline
from yargy.interpretation import fact, normalized
r = morph_pipeline(['стали', 'сталь', 'стать', 'Стали', 'СТАЛИ', 'стал', 'стала', 'стало']).interpretation(normalized())
F = fact('F', ['a'])
r = r.interpretation(F.a).interpretation(F)
values = set()
for _ in range(3):
    values.add(Parser(r).match('стали').fact.a)
assert values == {'стали'}, values
''')

SEED('c10-repeated-word', 'C10',
     [('yargy/pipelines.py', "                [self.predicate(_) for _ in key.terms]\n",
       "                [self.predicate(_) for _ in self.unique(key.terms)]\n"),
      ('yargy/pipelines.py', "    @property\n    def productions(self):\n        for key in self.keys:\n",
       "    def unique(self, terms):\n        previous = None\n        for term in terms:\n"
       "            if term != previous:\n                yield term\n            previous = term\n\n"
       "    @property\n    def productions(self):\n        for key in self.keys:\n")],
     'a line with the same word twice in a row',
     'the line matches the word once and not the line itself',
     '''
from yargy import Parser
from yargy.pipelines import caseless_pipeline
p = Parser(caseless_pipeline(['Сан Сан', 'x . . y']))
assert p.match('сан сан') and not p.match('сан')
''')

SEED('c10-punct-first', 'C10',
     [('yargy/pipelines.py', "            value = token.normalized\n            if value in self.index:\n",
       "            value = token.value\n            if value in self.index:\n")],
     'a morph pipeline line that starts with a Latin word, text in other letter case',
     'no match',
     '''
from yargy import Parser
from yargy.pipelines import morph_pipeline
assert Parser(morph_pipeline(['IT отдел'])).match('IT отделы')
assert Parser(morph_pipeline(['Google'])).match('GOOGLE')
''')

SEED('c12-subclass', 'C12',
     [('yargy/interpretation/interpretator.py',
       "            if isinstance(item, AttributeResult) and issubclass(self.fact, item.attribute.fact):\n",
       "            if isinstance(item, AttributeResult) and self.fact is item.attribute.fact:\n")],
     'a fact class with methods derived from the result of fact(), attributes of the base',
     'attributes are lost',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
Base = fact('Money', ['value'])
class Money(Base):
    @property
    def cents(self):
        return int(self.value) * 100
r = rule('5').interpretation(Base.value).interpretation(Money)
assert Parser(r).match('5').fact.cents == 500
''')

SEED('c14-sort-text', 'C14',
     [('yargy/interpretation/fact.py', "            key=lambda _: _.start\n", "            key=str\n")],
     'spans whose positions have different number of digits',
     'spans are ordered as text: [10, 12) before [8, 9)',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
r = rule(rule('x').interpretation(F.a), rule('y').interpretation(F.b)).interpretation(F)
m = Parser(r).find('       . x y')
assert [_.start for _ in m.fact.spans] == [9, 11], m.fact.spans
''')

SEED('c15-has-json', 'C15',
     [('yargy/interpretation/interpretator.py',
       "        if isinstance(self.value, InterpretatorResult):\n            return self.value.as_json\n        else:\n            return self.value\n",
       "        return getattr(self.value, 'as_json', self.value)\n")],
     'a user function whose value is an object with as_json',
     'as_json of the object is called, it is not the value of the attribute',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
class Value(str):
    @property
    def as_json(self):
        return {'v': str(self)}
F = fact('F', ['a'])
m = Parser(rule('x').interpretation(F.a.custom(Value)).interpretation(F)).match('x')
assert m.fact.as_json['a'] == m.fact.a, m.fact.as_json
''')

SEED('c15-empty-list', 'C15',
     [('yargy/interpretation/fact.py', "            if value is not None:\n                data[key] = value\n",
       "            if value is not None and value != []:\n                data[key] = value\n")],
     'a fact with a repeatable attribute without values',
     'the attribute is missing',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable()])
m = Parser(rule('x').interpretation(F)).match('x')
assert dict(m.fact.as_json) == {'a': []}, m.fact.as_json
''')

SEED('c17-plural-one', 'C17',
     [('yargy/relations/bank.py', "        if form.grams.number.plural and other.grams.number.plural:\n",
       "        if form.grams.number.plural or other.grams.number.plural:\n")],
     'gender of a plural and a singular word',
     'gender_relation holds',
     '''
from yargy.relations import gender_relation
from yargy.morph import CachedMorphAnalyzer
m = CachedMorphAnalyzer()
a = [_ for _ in m('столы') if 'plur' in _.grams][0]
b = [_ for _ in m('мама') if 'sing' in _.grams][0]
assert not gender_relation()(a, b)
''')

SEED('c17-no-case', 'C17',
     [('yargy/relations/bank.py', "            form_mask == other_mask\n",
       "            any(a and b for a, b in zip(form_mask, other_mask))\n")],
     'two analyses without case',
     'case_relation does not hold for equal (missing) cases',
     '''
from yargy.relations import case_relation
from yargy.morph import CachedMorphAnalyzer
m = CachedMorphAnalyzer()
a, b = m('бежал')[0], m('пришёл')[0]
assert case_relation()(a, b)
''')

SEED('c20-grams-repr', 'C20',
     [('yargy/morph.py', "        values = sorted(self.values)\n", "        values = self.values\n")],
     'printing analyses of a word in two processes',
     'order of grammemes depends on the hash seed',
     '''
import os, subprocess, sys
code = "from yargy.tokenizer import MorphTokenizer; print(repr(list(MorphTokenizer()('стали'))))"
outs = set()
for seed in '1234567':
    env = dict(os.environ, PYTHONHASHSEED=seed)
    outs.add(subprocess.check_output([sys.executable, '-W', 'ignore', '-c', code], env=env))
assert len(outs) == 1
''')

SEED('c22-tag-order', 'C22',
     [('yargy/tagger.py', "        for tagger in self.taggers:\n            tokens = tagger(tokens)\n",
       "        for tagger in reversed(self.taggers):\n            tokens = tagger(tokens)\n")],
     'two taggers that both set tags of some tokens',
     'the first one wins',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, TaggersComposition
class T(Tagger):
    def __init__(self, tag):
        self.tags = [tag]
    def __call__(self, tokens):
        for _ in tokens:
            yield _.tagged(self.tags[0])
p = Parser(rule(tag('B')), tagger=TaggersComposition([T('A'), T('B')]))
assert p.match('x')
''')

SEED('c23-falsy-default', 'C23',
     [('yargy/interpretation/attribute.py', "        assert_equals(attribute.default, None)\n",
       "        assert_equals(attribute.default or None, None)\n")],
     "attribute('a', default=0).repeatable()",
     'no ValueError, the default is dropped silently',
     '''
from yargy.interpretation import attribute
for value in (0, '', False, []):
    try:
        attribute('a', value).repeatable()
    except ValueError:
        pass
    else:
        raise AssertionError(value)
''')

SEED('c23-named', 'C23',
     [('yargy/rule/constructors.py', "        assert_type(name, str)\n        self.name = name\n",
       "        self.name = str(name)\n")],
     'named() with an argument that is not a string',
     'no TypeError',
     '''
from yargy import rule
try:
    rule('a').named(5)
except TypeError:
    pass
else:
    raise AssertionError
''')

SEED('c24-numbering', 'C24',
     [('yargy/rule/bnf.py', "            rule.name = 'R%d' % count\n            count += 1\n",
       "            rule.name = 'R%x' % count\n            count += 1\n")],
     'a grammar with more than ten unnamed symbols',
     'numbers are not decimal',
     '''
from yargy import rule, or_
from yargy.predicates import eq
r = rule(*[or_(rule('a', str(i)), rule('b')) for i in range(12)])
lines = list(r.normalized.as_bnf.source)
names = [_.split(' -> ')[0] for _ in lines]
assert names == ['R%d' % i for i in range(len(names))], names
''')

SEED('c27-iter-values', 'C27',
     [('yargy/record.py', "        return hash(tuple(self))\n", "        return hash(repr(self))\n")],
     'equal records whose fields print differently',
     'hashes differ',
     '''
from yargy.span import Span
a, b = Span(0, 1), Span(0.0, 1)
assert a == b and hash(a) == hash(b)
assert hash(a) == hash((0, 1))
''')

SEED('c29-sorted-tokens', 'C29',
     [('yargy/parser.py', "        self.tokens = list(tokens)\n", "        self.tokens = sorted(tokens, key=lambda _: _.span.start)\n")],
     'a tokenizer that yields tokens not ordered by start',
     'tokens are reordered',
     '''
from yargy import Parser, rule
from yargy.tokenizer import MorphTokenizer
class T(MorphTokenizer):
    def __call__(self, text):
        return reversed(list(MorphTokenizer.__call__(self, text)))
p = Parser(rule('b', 'a'), tokenizer=T())
assert p.match('a b')
''')

SEED('c04-double-predicate', 'C04',
     [('yargy/predicates/constructors.py', "        return self.operator(_(token) for _ in self.predicates)\n",
       "        return self.operator([_(token) for _ in self.predicates])\n")],
     'and_ or or_ of predicates, a custom() behind a condition that fails',
     'functions are called for tokens that earlier conditions reject',
     '''
from yargy import Parser, rule, and_
from yargy.predicates import custom, type
p = Parser(rule(and_(type('INT'), custom(lambda _: int(_) > 5))))
assert p.find('abc 7')
''')

SEED('c33-column-hash', 'C33',
     [('yargy/parser.py', "        value = hash(state)\n        if value not in self.hashes:\n",
       "        value = hash(state) & 0xffff\n        if value not in self.hashes:\n")],
     'columns with hundreds of states',
     'states are taken for duplicates by chance',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import eq
p = Parser(or_(*[rule('a', 'b', str(i)) for i in range(600)]))
for i in range(600):
    assert p.match('a b %d' % i), i
''')

SEED('c03-analysis-first', 'C03',
     [('yargy/tokenizer.py', "        tokens = Tokenizer.__call__(self, text)\n        for token in tokens:\n            if token.type == RUSSIAN:\n                forms = self.morph(token.value)\n",
       "        tokens = Tokenizer.__call__(self, text)\n        seen = {}\n        for token in tokens:\n            if token.type == RUSSIAN:\n"
       "                # one analysis for all occurrences in a text\n                forms = seen.setdefault(\n                    token.value[:24].lower(), self.morph(token.value)\n                )\n")],
     'two long words with a common beginning in one text',
     'the second one has analyses of the first',
     '''
from yargy.tokenizer import MorphTokenizer
a, b = MorphTokenizer()('сельскохозяйственноперерабатывающий сельскохозяйственноперерабатывающая')
assert b.forms[0].grams.gender.female
''')

SEED('c34-and-label', 'C34',
     [('yargy/predicates/constructors.py', "            predicates=', '.join(_.label for _ in self.predicates)\n",
       "            predicates=', '.join(sorted(_.label for _ in self.predicates))\n")],
     'and_ or or_ whose operands are not in alphabetic order',
     'label has the operands sorted',
     '''
from yargy import or_
from yargy.predicates import eq
assert or_(eq('b'), eq('a')).label == "or_('b', 'a')"
''')

SEED('c34-two-functions', 'C34',
     [('yargy/interpretation/normalizer.py', "        return 'custom({first}).custom({second})'.format(\n",
       "        return 'custom({second}).custom({first})'.format(\n")],
     'two chained custom() functions',
     'label names them in wrong order',
     '''
from yargy import rule
from yargy.interpretation import custom
r = rule('a').interpretation(custom(int).custom(str))
line, = r.normalized.as_bnf.source
assert line.startswith('custom(int).custom(str)'), line
''')

SEED('c34-const-str', 'C34',
     [('yargy/interpretation/normalizer.py', "        return 'const({value!r})'.format(\n", "        return 'const({value})'.format(\n")],
     "const('1')",
     'label is that of const(1)',
     '''
from yargy import rule
from yargy.interpretation import const
line, = rule('a').interpretation(const('1')).normalized.as_bnf.source
assert line.startswith("const('1')"), line
''')

SEED('c34-state-dot', 'C34',
     [('yargy/parser.py', "            + ['$']\n            + [_.label for _ in terms[self.dot_index:]]\n",
       "            + (['$'] if not self.completed else [])\n            + [_.label for _ in terms[self.dot_index:]]\n")],
     'printing a chart',
     'completed entries have no dot',
     '''
from yargy import Parser, rule
p = Parser(rule('a').named('A'))
lines = list(p.chart('a').source)
assert any(_.endswith("'a' $") for _ in lines), lines
''')

SEED('c24-main-tail', 'C24',
     [('yargy/rule/constructors.py', "            if self.main > 0 and self.main == index:\n",
       "            if 0 < self.main == index < len(self.terms) - 1:\n")],
     'the last term of a sequence is the main one',
     'listing does not show it',
     '''
from yargy import rule
from yargy.relations import main
line, = rule('a', main(rule('b').named('B'))).named('X').normalized.as_bnf.source if False else list(rule('a', main(rule('b', 'c').named('B'))).named('X').normalized.as_bnf.source)[:1]
assert line == "X -> 'a' ^B", line
''')

SEED('c34-relation-label', 'C34',
     [('yargy/relations/constructors.py', "class OrRelation(RelationsComposition):\n    operator = any\n    name = 'or_'\n",
       "class OrRelation(RelationsComposition):\n    operator = any\n    name = 'and_'\n")],
     'or_ of relations in a listing',
     'label is and_',
     '''
from yargy import rule, or_
from yargy.relations import number_relation, case_relation
r = rule('a').named('A').match(or_(number_relation(), case_relation()))
line, = r.normalized.as_bnf.source
assert line.startswith('A^or_(number, case)'), line
''')

SEED('c34-gram-quote', 'C34',
     [('yargy/predicates/bank.py', "        return \"'%s'\" % self.value\n", "        return \"'%s'\" % self.value.strip()\n")],
     'a literal with blanks or line breaks',
     'label does not show it as written',
     '''
from yargy.predicates import eq
assert eq('\\n').label == "'\\n'"
''')

SEED('c34-dict-values', 'C34',
     [('yargy/predicates/bank.py', "    @property\n    def label(self):\n        return 'dictionary(...)'\n\n\nclass DictionaryPredicate",
       "    @property\n    def label(self):\n        return 'dictionary(%d)' % len(self.value)\n\n\nclass DictionaryPredicate")],
     'label of dictionary() before it is activated (picture of the rule)',
     'label is not dictionary(...)',
     '''
from yargy import rule
from yargy.predicates import dictionary
assert 'dictionary(...)' in ''.join(rule(dictionary({'a', 'b'})).as_dot.source)
''')

SEED('c01-bom', 'C01',
     [('yargy/tokenizer.py', "        tokens = Tokenizer.__call__(self, text)\n",
       "        tokens = Tokenizer.__call__(self, text.lstrip('\\ufeff'))\n")],
     'a text that starts with a byte order mark',
     'the mark is no token and all spans are shifted',
     """
from yargy.tokenizer import MorphTokenizer
t = list(MorphTokenizer()('\\ufeffтекст'))
assert [tuple(_.span) for _ in t] == [(0, 1), (1, 6)], t
""")

SEED('c05-window', 'C05',
     [('yargy/parser.py', "        size = len(self.columns)\n        for index in range(size):\n",
       "        size, window = len(self.columns), 64\n        for index in range(size):\n"
       "            if index > window:\n                # free memory of long texts\n"
       "                self.columns[index - window - 1].states_index.clear()\n")],
     'a phrase of more than 64 tokens',
     'no match',
     """
from yargy import Parser, rule
from yargy.predicates import eq
p = Parser(rule(eq('a').repeatable(), 'b'))
assert p.match('a ' * 80 + 'b')
""")

SEED('c12-equal-items', 'C12',
     [('yargy/interpretation/fact.py', "            self.attributes[key].append(value)\n",
       "            values = self.attributes[key]\n            if all(value.normalized != _.normalized for _ in values):\n                values.append(value)\n")],
     'a repeatable attribute with equal values',
     'equal values collapse',
     """
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable()])
w = rule('x').interpretation(F.a)
m = Parser(rule(w.repeatable()).interpretation(F)).match('x x x')
assert m.fact.a == ['x', 'x', 'x'], m.fact
""")

SEED('c09-types-set', 'C09',
     [('yargy/predicates/bank.py', "        if self.types:\n            for type in self.types:\n",
       "        if self.types and not isinstance(self.types, set):\n            self.types = set(self.types)\n            for type in self.types:\n")],
     'custom() with several types printed after a parser was built',
     'the rule itself is changed and its repr depends on the hash seed',
     """
from yargy import Parser, rule
from yargy.predicates import custom
c = custom(len, types=['INT', 'RU', 'LATIN'])
before = repr(c)
Parser(rule(c))
assert repr(c) == before
""")

SEED('c28-first-parents', 'C28',
     [('yargy/parser.py', "        return self.start_column.states_index[id(self.rule)]\n",
       "        return self.start_column.states_index[id(self.rule)][:256]\n")],
     'a symbol that more than 256 rules wait for at one place',
     'derivations are lost',
     """
from yargy import Parser, rule, or_
x = rule('x', 'x')
p = Parser(or_(*[rule(x, str(i)) for i in range(300)]))
assert p.match('x x 299')
""")

SEED('c32-and-constrains', 'C32',
     [('yargy/predicates/constructors.py', "class AndPredicate(PredicatesComposition):\n    operator = all\n    name = 'and_'\n",
       "class AndPredicate(PredicatesComposition):\n    operator = staticmethod(all)\n    name = 'and_'\n\n"
       "    def constrain(self, token):\n        for predicate in self.predicates:\n            token = predicate.constrain(token)\n        return token\n")],
     'and_ of gram() and other predicates',
     'and_ drops analyses, even all of them',
     """
from yargy import Parser, rule, and_
from yargy.predicates import gram, is_single
from yargy.tokenizer import MorphTokenizer
p = Parser(rule(and_(gram('NOUN'), gram('VERB'))))
m = p.match('стали')
t, = MorphTokenizer()('стали')
assert len(m.tokens[0].forms) == len(t.forms)
""")

SEED('c33-empty-column', 'C33',
     [('yargy/parser.py', "        for index in range(size):\n            column = self.columns[index]\n",
       "        for index, column in enumerate(self.columns):\n"),
      ('yargy/parser.py', "            yield column, next_column\n",
       "            yield column, next_column\n            if not column.states:\n                break\n")],
     'a rule that is a pipeline, a text whose first word starts no line',
     'everything after the first such word is lost',
     """
from yargy import Parser
from yargy.pipelines import pipeline
assert Parser(pipeline(['a b'])).find('x a b')
""")

SEED('c34-not-label', 'C34',
     [('yargy/predicates/constructors.py', "        return 'not_({predicate})'.format(\n            predicate=self.predicate.label\n        )\n",
       "        if isinstance(self.predicate, NotPredicate):\n            return self.predicate.predicate.label\n"
       "        return 'not_(%s)' % self.predicate.label\n")],
     'not_(not_(x))',
     'label is the one of x',
     """
from yargy import not_
from yargy.predicates import eq
assert not_(not_(eq('a'))).label == "not_(not_('a'))"
""")

SEED('c34-fact-pretty', 'C34',
     [('yargy/record.py', "                        value = getattr(self, key)\n                        printer.pretty(value)\n",
       "                        value = self.printable(key)\n                        printer.pretty(value)\n"),
      ('yargy/record.py', "    def _repr_pretty_(self, printer, cycle):\n",
       "    def printable(self, key):\n        value = getattr(self, key)\n        if isinstance(value, list):\n            value.sort(key=str)\n        return value\n\n"
       "    def _repr_pretty_(self, printer, cycle):\n")],
     'a displayed object with a list',
     'displaying a fact reorders its values',
     """
from yargy.interpretation import fact, attribute
class Printer(object):
    def text(self, _): pass
    def break_(self): pass
    def pretty(self, _): pass
    def indent(self, _):
        from contextlib import nullcontext
        return nullcontext()
F = fact('F', [attribute('a').repeatable()])
f = F(a=['b', 'a'])
f._repr_pretty_(Printer(), False)
assert f.a == ['b', 'a']
""")

SEED('c33-chunk', 'C33',
     [('yargy/parser.py', "    def findall(self, text):\n        states = self.matches(text)\n        trees = prepare_trees(states)\n",
       "    def findall(self, text):\n        chart = self.chart(text)\n        states = (\n            state\n            for column in chart.columns\n"
       "            for state in column.matches(self.rule)\n            if column.index - state.start_column.index <= 100\n        )\n        trees = prepare_trees(states)\n")],
     'a phrase of more than 100 tokens in findall()',
     'shorter parts of it are found instead',
     """
from yargy import Parser, rule
from yargy.predicates import eq
p = Parser(eq('a').repeatable())
m, = p.findall('a ' * 120)
""")

SEED('c16-six', 'C16',
     [('yargy/relations/graph.py', "            for first, second in combinations(items, 2):\n",
       "            pairs = combinations(items, 2)\n            if len(items) > 4:\n                # every word with its neighbour\n"
       "                pairs = zip(items, items[1:])\n            for first, second in pairs:\n")],
     'one relation on five or more words, common gender or indeclinable ones between',
     'words that do not agree pairwise are accepted',
     """
from yargy import Parser, rule
from yargy.predicates import gram, true
from yargy.relations import case_relation
r = case_relation()
p = Parser(rule(true().match(r).repeatable()))
assert p.match('кофе пальто метро кенгуру какаду') is not None
assert p.match('домом пальто дома') is None
assert p.match('домом пальто метро кенгуру пальто дома') is None
""")

SEED('c21-morph-lock', 'C21',
     [('yargy/morph.py', "        records = self.raw.parse(word)\n        return [prepare_form(_) for _ in records]\n",
       "        self.records = self.raw.parse(word)\n        return [prepare_form(self.records[_]) for _ in range(len(self.records))]\n")],
     'two threads analyse different words at one moment',
     'a word gets analyses of another one',
     """
import sys, threading
sys.setswitchinterval(1e-6)
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
words = ['стали', 'мама', 'рама', 'дом', 'красный', 'бежать', 'шкафы', 'пальто']
expected = {_: [f.normalized for f in m(_)] for _ in words}
bad = []
class Raw(object):
    def __init__(self, raw):
        self.raw = raw
    def parse(self, word):
        r = self.raw.parse(word)
        return r
def run(word):
    for _ in range(3000):
        got = [f.normalized for f in m(word)]
        if got != expected[word]:
            bad.append(word)
            break
ts = [threading.Thread(target=run, args=(w,)) for w in words]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad
""")

SEED('c27-fact-eq-name', 'C27',
     [('yargy/record.py', "            type(self) == type(other)\n            and all(",
       "            type(self).__name__ == type(other).__name__\n            and all(")],
     'two classes with one name: fact classes made twice, nodes of trees and graphs',
     'instances are equal (AttributeError when attributes differ)',
     """
from yargy.interpretation import fact
A, B = fact('F', ['a']), fact('F', ['a'])
assert A(a=1) != B(a=1)
""")

SEED('c03-hyphens', 'C03',
     [('yargy/tokenizer.py', "            if token.type == RUSSIAN:\n                forms = self.morph(token.value)\n                yield token.morphed(forms)\n",
       "            if token.type == RUSSIAN:\n                forms = self.morph(token.value.strip('-'))\n                yield token.morphed(forms)\n")],
     'a tokenizer whose RU tokens contain hyphens at the ends',
     'analyses are those of the word without hyphens',
     """
from yargy.tokenizer import MorphTokenizer, TokenRule, RULES
t = MorphTokenizer([TokenRule('RU', r'[а-яё-]+')] + RULES[1:])
a, = t('-то')
assert [_.normalized for _ in a.forms] == [_.normalized for _ in t.morph('-то')], a
""")

SEED('c30-trees-kept', 'C30',
     [('yargy/tree/constructors.py', "    def __init__(self, root, range):\n        self.root = root\n        self.range = range\n",
       "    trees = []\n\n    def __init__(self, root, range):\n        self.root, self.range = root, range\n        self.trees[-8:] = self.trees[-7:] + [self]\n")],
     'results of earlier texts are dropped',
     'the last trees stay in memory',
     """
import gc, weakref
from yargy import Parser, rule
p = Parser(rule('a'))
m = p.match('a')
r = weakref.ref(m.tokens[0])
del m
gc.collect()
assert r() is None
""")

SEED('c31-copy-main', 'C31',
     [('yargy/rule/bnf.py', "        if item.relation:\n            item = lift(item)\n        item.relation = relation\n",
       "        if item.relation and item.relation != relation:\n            item = lift(item)\n        item.relation = relation\n")],
     'two equal relation objects put on one phrase one after another',
     'the inner relation is lost',
     """
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation
a, b = gnc_relation(), gnc_relation()
x = gram('NOUN').match(a).match(b)
p = Parser(rule(gram('ADJF').match(a), x, gram('ADJF').match(b)))
assert p.match('красная мама красная')
assert not p.match('красный мама красная')
""")
