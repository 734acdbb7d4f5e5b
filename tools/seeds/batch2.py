SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c05-define-drops', 'C05',
     [('yargy/rule/constructors.py', "        if not items and is_rule(item):", "        if is_rule(item):")],
     'forward().define(rule, other, ...) - several terms, the first one a rule',
     'the forward means only its first term, the rest of the sequence is dropped',
     '''
from yargy import Parser, rule, forward
r = forward().define(rule('a'), 'b')
p = Parser(r)
assert p.match('a b') is not None
assert p.match('a') is None
''')

SEED('c05-hash-no-rule', 'C05',
     [('yargy/parser.py', "            id(self.rule), id(self.production), self.dot_index,",
       "            id(self.production), self.dot_index,")],
     'two rules that share one production (a named group around a named group, an empty rule used twice)',
     'states of different rules collide in the chart and one of them is lost',
     '''
from yargy import Parser, rule, or_, empty
e = rule('a', 'b')
r = or_(rule(e.named('x'), 'c'), rule(rule(e).named('y'), 'd'))
p = Parser(r)
assert p.match('a b c') is not None
assert p.match('a b d') is not None
e = empty()
r = rule(or_(e, rule('a')), or_(e, rule('b')), 'c')
p = Parser(r)
for text in ('c', 'a c', 'b c', 'a b c'):
    assert p.match(text) is not None, text
''')

SEED('c11-rank-by-value', 'C11',
     [('yargy/parser.py', "        for index, production in enumerate(productions):\n",
       "        for production in productions:\n            index = rule.productions.index(production)\n")],
     'an or_ with two alternatives that are equal by value but differ in what == does not see',
     'equal looking alternatives get one rank, order of the alternatives is lost',
     '''
from yargy import Parser, rule
from yargy.pipelines import morph_pipeline
from yargy.interpretation import fact
F = fact('F', ['a'])
# first reading of the word decides, not the order of lines
r = morph_pipeline(['стать', 'сталь']).interpretation(F.a.normalized()).interpretation(F)
a = Parser(r).match('стали').fact.a
r = morph_pipeline(['сталь', 'стать']).interpretation(F.a.normalized()).interpretation(F)
b = Parser(r).match('стали').fact.a
assert a == b, (a, b)
''')

SEED('c07-predicate-reverse', 'C07',
     [('yargy/predicates/constructors.py', "        return rule(self).repeatable(min=min, max=max, reverse=reverse)",
       "        return rule(self).repeatable(min=min, max=max)")],
     'repeatable(reverse=True) called on a predicate',
     'the flag is lost, the repetition is greedy',
     '''
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact, attribute
F = fact('F', ['a', 'b'])
r = rule(
    eq('x').repeatable(reverse=True).interpretation(F.a),
    eq('x').repeatable().interpretation(F.b)
).interpretation(F)
f = Parser(r).match('x x x').fact
assert (f.a, f.b) == ('x', 'x x'), f
''')

SEED('c07-right-first', 'C07',
     [('yargy/tree/constructors.py', "            for a, b in zip(self.children, other.children):",
       "            for a, b in zip(reversed(self.children), reversed(other.children)):")],
     'a rule ambiguous in two places at once whose best choices exclude each other',
     'the rightmost choice decides instead of the leftmost',
     '''
from yargy import Parser, rule, or_
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
r = rule(
    or_(rule('x', 'x'), rule('x')).interpretation(F.a),
    or_(rule('x', 'x'), rule('x')).interpretation(F.b)
).interpretation(F)
f = Parser(r).match('x x x').fact
assert (f.a, f.b) == ('x x', 'x'), f
''')

SEED('c28-dedupe', 'C28',
     [('yargy/rule/transformators.py', "        return Rule([Production([self.visit(_)]) for _ in item.rules])",
       "        rules = []\n        for rule in item.rules:\n            if rule not in rules:\n                rules.append(rule)\n        return Rule([Production([self.visit(_)]) for _ in rules])")],
     'an or_ with two equal alternatives',
     'equal alternatives are merged: derivations are missing from extract(), and 1 == True merges different constants',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import eq
p = Parser(or_(rule(eq('a')), rule(eq('a'))))
assert len(list(p.extract('a'))) == 2
''')

SEED('c12-none-default', 'C12',
     [('yargy/interpretation/fact.py', "            if key in kwargs:\n                value = kwargs[key]\n            else:",
       "            value = kwargs.get(key)\n            if value is None:")],
     'a function normalizer that returns None for an attribute with a default',
     'the declared default replaces the value None of the annotation',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a', 'default')])
r = rule('x').interpretation(F.a.custom(lambda _: None)).interpretation(F)
assert Parser(r).match('x').fact.a is None
''')

SEED('c23-two-mains', 'C23',
     [('yargy/rule/constructors.py', "            if main is not None:", "            if main:")],
     'two terms marked main(), the first of them at the beginning of the sequence',
     'no ValueError, the second mark silently wins',
     '''
from yargy import rule
from yargy.predicates import eq
from yargy.relations import main
try:
    rule(main(eq('a')), 'x', main(eq('b')))
except ValueError:
    pass
else:
    raise AssertionError('no error')
''')

SEED('c18-main-index-shift', 'C18',
     [('yargy/rule/constructors.py', "            main = index\n            item = item.term",
       "            main = len(terms) if index else 0\n            item = item.term\n            if not isinstance(item, Rule):\n                main = min(main, 1)")],
     'main() on a predicate that is the third or a later term',
     'the second term is taken as main',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import main, number_relation
n = number_relation()
r = rule(
    rule('x', 'столы', main(gram('NOUN'))).match(n),
    rule(gram('NOUN')).match(n)
)
p = Parser(r)
assert p.match('x столы дом дом') is not None
assert p.match('x столы дом кошками') is None
''')

SEED('c10-first-word-only', 'C10',
     [('yargy/pipelines.py', "            [tokenizer.morph.normalized(_) for _ in parts]",
       "            [tokenizer.morph.normalized(_) for _ in parts[:1]]\n            + [set(sorted(tokenizer.morph.normalized(_))[:1]) for _ in parts[1:]]")],
     'a morph_pipeline line with a later word that has several normal forms',
     'later words are compared with one of their normal forms only',
     '''
from yargy import Parser
from yargy.pipelines import morph_pipeline
p = Parser(morph_pipeline(['завод стали']))
assert p.match('завод стали') is not None
assert p.match('завод сталью') is not None
assert p.match('завод стать') is not None
''')

SEED('c10-caseless-index', 'C10',
     [('yargy/pipelines.py', "        value = token.value.lower()\n        if value in self.index:",
       "        value = token.value\n        if not value.islower():\n            value = value.lower() if value.istitle() or value.isupper() else value\n        if value in self.index:")],
     'a caseless_pipeline and a word in mixed case (not lower, title or upper)',
     'mixed case first words are not found',
     '''
from yargy import Parser
from yargy.pipelines import caseless_pipeline
p = Parser(caseless_pipeline(['iPhone 5']))
for text in ('iphone 5', 'IPHONE 5', 'iPhone 5', 'IPhone 5'):
    assert p.match(text) is not None, text
''')

SEED('c15-list-only-facts', 'C15',
     [('yargy/interpretation/fact.py', "                value = [_.as_json for _ in value]",
       "                value = [_.as_json for _ in value] or None")],
     'a repeatable attribute with no items',
     'the empty list is missing from as_json',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable(), 'b'])
r = rule(rule('x').interpretation(F.b)).interpretation(F)
f = Parser(r).match('x').fact
assert f.a == [] and dict(f.as_json) == {'a': [], 'b': 'x'}, f.as_json
''')

SEED('c17-sgtm', 'C17',
     [('yargy/relations/bank.py', "            or (other_only_plural and form_plural)\n", "")],
     'number agreement asked with the plural-only word second',
     'number_relation is not symmetric for plural-only words that carry no plur',
     '''
from yargy.relations import number_relation
from yargy.morph import Form, Grams
n = number_relation()
a, b = Form('a', Grams({'plur'}), None), Form('b', Grams({'Pltm'}), None)
assert n(a, b) and n(b, a)
''')

SEED('c17-not-of-and', 'C17',
     [('yargy/relations/constructors.py', "        return not self.relation(form, other)",
       "        return not self.relation(form, other) and not self.relation(other, form)")],
     'not_() around a user relation that is not symmetric',
     'not_ is not the negation of its operand',
     '''
from yargy import not_, and_
from yargy.relations import Relation
class first(Relation):
    def __call__(self, form, other):
        return form == 1
r = not_(first())
assert r(1, 2) is False
assert r(2, 1) is True
''')

SEED('c19-generator-state', 'C19',
     [('yargy/parser.py', "        self.rule = rule.as_bnf.start\n",
       "        self.rule = rule.as_bnf.start\n        self.charts = {}\n"),
      ('yargy/parser.py', "        chart = self.chart(text, all=all)\n",
       "        chart = self.charts.get(text)\n        if chart is None:\n            chart = self.chart(text, all=all)\n            self.charts = {text: chart}\n")],
     'match() and findall() on the same text one after another',
     'the chart of match() (first start only) is reused for findall()',
     '''
from yargy import Parser, rule
p = Parser(rule('a'))
assert p.match('b a') is None
assert [m.span for m in p.findall('b a')] == [(2, 3)]
''')

SEED('c20-unstable-sort', 'C20',
     [('yargy/tree/constructors.py', "        if id(self) == id(other):\n            return False\n",
       "        if self.rank == other.rank and not any(\n            is_leaf(_) or _.rank for _ in self.children + other.children\n        ):\n            return id(self) < id(other)\n")],
     'two derivations whose first level has equal ranks',
     'the order of such derivations depends on addresses of their nodes',
     '''
import sys
from yargy import Parser, rule, or_
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
part = lambda a: rule(rule(or_(rule('x', 'x'), rule('x')).interpretation(a)).named('g')).named('h')
r = rule(part(F.a), part(F.b)).interpretation(F)
p = Parser(r)
seen = set()
import gc
keep = []
for i in range(300):
    keep.append(object() if i % 2 else [i] * (i % 17))
    f = p.match('x x x').fact
    seen.add((f.a, f.b))
assert seen == {('x x', 'x')}, seen
''')

SEED('c22-tags-subset', 'C22',
     [('yargy/tagger.py', "        return any(\n            _.check_tag(tag)\n            for _ in self.taggers\n        )",
       "        return any(\n            tag in _.tags\n            for _ in self.taggers\n        )")],
     'a composition of taggers that contains a composition or a tagger with its own check_tag',
     'tags of nested compositions are unknown',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, TaggersComposition
class T(Tagger):
    tags = ['A']
    def __call__(self, tokens):
        for t in tokens:
            yield t.tagged('A')
class P(Tagger):
    tags = []
    def __call__(self, tokens):
        return tokens
t = TaggersComposition([P(), TaggersComposition([T()])])
assert Parser(rule(tag('A')), tagger=t).match('x') is not None
''')

SEED('c23-not-activated', 'C23',
     [('yargy/predicates/constructors.py', "        return NotPredicate(self.predicate.activate(context))",
       "        predicate = self.predicate\n        if isinstance(predicate, PredicatesComposition):\n            predicate = predicate.__class__(\n                _.activate(context) for _ in predicate.predicates[:2]\n            )\n            return NotPredicate(predicate)\n        return NotPredicate(predicate.activate(context))")],
     'not_() around a combination of three or more predicates',
     'operands after the second are dropped, so an unknown gram there is not reported',
     '''
from yargy import Parser, rule, not_, or_
from yargy.predicates import gram, eq
try:
    Parser(rule(not_(or_(eq('a'), eq('b'), gram('UNKNOWN')))))
except ValueError:
    pass
else:
    raise AssertionError('not reported')
''')

SEED('c26-int', 'C26',
     [('yargy/predicates/bank.py', "        if token.type == INT:\n            value = parse_int(token.value)",
       "        if token.value.isdigit():\n            value = parse_int(token.value)")],
     'a token of other digits than decimal ones (superscript two) under gte()',
     'ValueError (InvalidOperation) instead of no match',
     '''
from yargy import Parser, rule
from yargy.predicates import gte
assert Parser(rule(gte(1))).find('\\u00b2') is None
''')

SEED('c27-shared-list', 'C27',
     [('yargy/interpretation/fact.py', "                if isinstance(attribute, RepeatableAttribute):\n                    value = []\n                else:\n                    value = attribute.default\n            setattr",
       "                value = getattr(attribute, 'default', None)\n                if isinstance(attribute, RepeatableAttribute):\n                    value = attribute.__dict__.setdefault('items', [])\n            setattr")],
     'two instances of a fact with a repeatable attribute, one is changed',
     'the instances share one list',
     '''
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable()])
x, y = F(), F()
x.a.append(1)
assert y.a == [] and F().a == [], y.a
''')

SEED('c29-unordered', 'C29',
     [('yargy/token.py', "    head, tail = tokens[0], tokens[-1]", "    head = min(tokens, key=lambda _: _.span.start)\n    tail = max(tokens, key=lambda _: _.span.stop)")],
     'a tokenizer that yields tokens in another order than that of the text',
     'span is not from the first to the last token of the match',
     '''
from yargy import Parser, rule
from yargy.tokenizer import Tokenizer
class Back(Tokenizer):
    def __call__(self, text):
        return reversed(list(Tokenizer.__call__(self, text)))
m = Parser(rule('b', 'a'), tokenizer=Back()).match('a b')
assert (m.span.start, m.span.stop) == (2, 1), m.span
''')

SEED('c29-join-gap', 'C29',
     [('yargy/token.py', "            if start - stop > 0:", "            if start != stop:")],
     'tokens that overlap (a user tokenizer)',
     'a space is put where the source has none',
     '''
from yargy import Parser, rule
from yargy.tokenizer import Tokenizer
from yargy.token import Token
from yargy.span import Span
from yargy.interpretation import fact
class Over(Tokenizer):
    def __call__(self, text):
        yield Token('ab', Span(0, 2), 'LATIN')
        yield Token('bc', Span(1, 3), 'LATIN')
F = fact('F', ['a'])
m = Parser(rule('ab', 'bc').interpretation(F.a).interpretation(F), tokenizer=Over()).match('abc')
assert m.fact.a == 'abbc', m.fact
''')

SEED('c24-name-order', 'C24',
     [('yargy/rule/bnf.py', "        item = self.visit_WrapperRule(item)\n        if item.name:\n            item = lift(item)\n        item.name = name",
       "        item = self.visit_WrapperRule(item)\n        item.name = name")],
     'a name around a rule that already has one',
     'no own node for the outer name: BNF loses a name',
     '''
from yargy import rule
r = rule(rule('a', 'b').named('X').named('Y'), 'c')
lines = list(r.normalized.as_bnf.source)
assert any(l.startswith('X -> ') for l in lines) and any(l.startswith('Y -> ') for l in lines), lines
''')

SEED('c32-single-plural', 'C32',
     [('yargy/predicates/bank.py', "            _ for _ in token.forms\n            if self.is_single(_)\n        ])",
       "            _ for _ in token.forms\n            if not _.grams.number.plural\n        ])")],
     'a word with a singular reading and readings without number (adverb, particle) under is_single()',
     'readings without number are kept',
     '''
from yargy import Parser, rule
from yargy.predicates import is_single
from yargy.morph import MorphAnalyzer
words = ['зло', 'стекло', 'весело', 'домой', 'утром', 'дома', 'пора', 'мало', 'тепло']
for w in words:
    m = Parser(rule(is_single())).match(w)
    if m:
        assert all('sing' in f.grams or 'Sgtm' in f.grams for f in m.tokens[0].forms), (w, m.tokens[0].forms)
''')

SEED('c32-gram-sorted', 'C32',
     [('yargy/predicates/bank.py', "        return token.constrained([\n            _ for _ in token.forms\n            if self.value in _.grams\n        ])",
       "        return token.constrained(sorted(\n            (_ for _ in token.forms if self.value in _.grams),\n            key=lambda _: self.value not in _.grams.values or _.normalized != token.value.lower()\n        ))")],
     'a word whose likely reading has another normal form than the word itself',
     'order of remaining analyses changes, normalized() gives another lemma',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
for w in ['стали', 'мыла', 'дома', 'пила', 'вина', 'белок', 'стекло', 'рамы', 'банки']:
    forms = [f for f in m(w) if 'NOUN' in f.grams]
    got = Parser(rule(gram('NOUN'))).match(w)
    if forms:
        assert [f.normalized for f in got.tokens[0].forms] == [f.normalized for f in forms], w
''')

SEED('c08-max-one', 'C08',
     [('yargy/rule/transformators.py', "        items = repeat(child, min - 1)\n        items.append(max_bound(child, max - min + 1, reverse))",
       "        items = repeat(child, min - 1)\n        if max > min:\n            items.append(max_bound(child, max - min + 1, reverse))\n        elif min > 1:\n            items.append(child)\n        else:\n            items.append(optional(child))")],
     'repeatable(min=1, max=1)',
     'zero occurrences are accepted',
     '''
from yargy import Parser, rule
p = Parser(rule('a', rule('b').repeatable(min=1, max=1)))
assert p.match('a') is None
assert p.match('a b') is not None
''')

SEED('c13-chain-order', 'C13',
     [('yargy/interpretation/attribute.py', "        return InflectedFunctionAttribute(self.attribute, self.grams, function)",
       "        return InflectedFunctionAttribute(self.attribute, set(self.grams) - {'sing'}, function)")],
     'inflected({..., sing, ...}).custom(f) of a word in plural',
     'the number asked for is ignored when a function follows',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.interpretation import fact
F = fact('F', ['a'])
r = rule(gram('NOUN')).interpretation(F.a.inflected({'gent', 'sing'}).custom(str.upper)).interpretation(F)
assert Parser(r).match('столами').fact.a == 'СТОЛА'
''')

SEED('c13-other-tokens', 'C13',
     [('yargy/token.py', "    @property\n    def normalized(self):\n        return self.value.lower()\n",
       "    @property\n    def normalized(self):\n        value = self.value\n        return value if value.isupper() and len(value) > 1 else value.lower()\n")],
     'a Latin word in upper case under normalized()',
     'the word is not lower-cased',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.interpretation import fact
F = fact('F', ['a'])
r = rule(type('LATIN')).interpretation(F.a.normalized()).interpretation(F)
assert Parser(r).match('NASA').fact.a == 'nasa'
''')

SEED('c11-lower-key', 'C11',
     [('yargy/pipelines.py', "            line,\n            tokenizer.split(line)\n        )",
       "            ' '.join(line.split()),\n            tokenizer.split(line)\n        )")],
     'a pipeline line with unusual spaces',
     'the value is not the line verbatim',
     '''
from yargy import Parser
from yargy.pipelines import pipeline
from yargy.interpretation import fact
F = fact('F', ['a'])
r = pipeline(['a  b']).interpretation(F.a.normalized()).interpretation(F)
assert Parser(r).match('a b').fact.a == 'a  b'
''')

SEED('c06-tokens-vs-chars', 'C06',
     [('yargy/parser.py', "    for span in resolve_spans(spans):\n        yield span_matches[span]",
       "    by_chars = {}\n    for span in spans:\n        match = span_matches[span]\n        by_chars[match.span.start, match.span.stop] = match\n    for span in resolve_spans(sorted(by_chars)):\n        yield by_chars[span]")],
     'overlapping matches where fewer tokens have more characters',
     'coverage is counted in characters',
     '''
from yargy import Parser, rule, or_
p = Parser(or_(rule('a', 'b', 'c'), rule('c', 'longword')))
got = [[t.value for t in m.tokens] for m in p.findall('a b c longword')]
assert got == [['a', 'b', 'c']], got
''')

SEED('c03-cache-shared', 'C03',
     [('yargy/morph.py', "        records = self.raw.parse(word)\n        return [prepare_form(_) for _ in records]\n",
       "        key = word.lower()\n        if key not in CACHE:\n            if len(CACHE) >= CACHE_SIZE:\n                CACHE.pop(next(iter(CACHE)))\n            CACHE[key] = [prepare_form(_) for _ in self.raw.parse(word)]\n        return CACHE[key]\n"),
      ('yargy/morph.py', "CACHE_SIZE = 10000\n", "CACHE_SIZE = 10000\nCACHE = {}\n")],
     'a word met first in one case and later in another',
     'analyses of another spelling are returned (capitalised words, abbreviations and names differ)',
     '''
from yargy.morph import CachedMorphAnalyzer, prepare_form
a = CachedMorphAnalyzer()
for w in ['Стали', 'стали', 'МИД', 'мид', 'Роман', 'роман', 'ОАО', 'оао', 'А', 'а', 'И', 'и', 'Т', 'т']:
    x, y = a(w), [prepare_form(_) for _ in a.raw.parse(w)]
    assert [(f.normalized, f.grams) for f in x] == [(f.normalized, f.grams) for f in y], w
''')

SEED('c03-normalized-cache', 'C03',
     [('yargy/morph.py', "        return [prepare_form(_) for _ in records]",
       "        forms = []\n        for record in records:\n            form = prepare_form(record)\n            if form not in forms:\n                forms.append(form)\n        return forms")],
     'a word with two analyses that look equal (same normal form, same grammemes) but inflect differently',
     'one of the analyses is lost',
     '''
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
import pymorphy2
from yargy.tokenizer import MorphTokenizer
t = MorphTokenizer()
bad = []
for w in ['замок', 'мука', 'стекло', 'крою', 'жало', 'лук', 'бор', 'косить', 'пол', 'лист', 'год', 'муки', 'полы', 'пары', 'вести',
          'орудия', 'рой', 'стан', 'дуло', 'пали', 'жать', 'жму', 'жала', 'стелется', 'бегу', 'Васильева', 'Лена', 'ясли', 'соболь',
          'провода', 'тон', 'тона', 'пропуск', 'учитель', 'хлеб', 'хлебы', 'цвета', 'листья', 'зубы', 'зубья', 'корпус', 'образы']:
    if len(m(w)) != len(m.raw.parse(w)):
        bad.append(w)
assert not bad, bad
''')

SEED('c04-not-tag', 'C04',
     [('yargy/predicates/bank.py', "        return token.value.istitle()", "        return token.value == token.value.capitalize() and token.value[:1].isupper()")],
     'tokens of a user rule with hyphens or apostrophes (Ann-Mary), digraph title letters',
     'is_title() differs from str.istitle',
     '''
from yargy import Parser, rule
from yargy.predicates import is_title
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().add_rules(TokenRule('NAME', '[A-Z][a-z]+-[A-Z][a-z]+'))
assert Parser(rule(is_title()), tokenizer=t).match('Ann-Mary') is not None
''')

SEED('c04-dictionary-first', 'C04',
     [('yargy/predicates/bank.py', "            normalized.update(context.tokenizer.morph.normalized(item))",
       "            normalized.add(context.tokenizer.morph(item)[0].normalized)")],
     'dictionary() of a word form with several normal forms',
     'only the normal form of the likeliest reading counts',
     '''
from yargy import Parser, rule
from yargy.predicates import dictionary
p = Parser(rule(dictionary({'стали'})))
assert p.match('сталь') is not None and p.match('стать') is not None
''')

SEED('c09-scheme-cached', 'C09',
     [('yargy/predicates/bank.py', "    def activate(self, context):\n        normalized = set()\n        for item in self.value:\n            normalized.update(context.tokenizer.morph.normalized(item))\n        return DictionaryPredicate(normalized)",
       "    activated = None\n\n    def activate(self, context):\n        if not self.activated:\n            normalized = set()\n            for item in self.value:\n                normalized.update(context.tokenizer.morph.normalized(item))\n            self.activated = DictionaryPredicate(normalized)\n        return self.activated")],
     'one rule with dictionary() used with two tokenizers that have different analyzers',
     'the second parser uses the normal forms of the first analyzer',
     '''
from yargy import Parser, rule
from yargy.predicates import dictionary
from yargy.tokenizer import MorphTokenizer
from yargy.morph import MorphAnalyzer
class Other(MorphAnalyzer):
    def normalized(self, word):
        return {'кошка'}
r = rule(dictionary({'стол'}))
assert Parser(r).match('столы') is not None
p = Parser(r, tokenizer=MorphTokenizer(morph=Other()))
assert p.match('кошки') is not None and p.match('столы') is None
''')

SEED('c21-analyzer', 'C21',
     [('yargy/morph.py', "        records = self.raw.parse(word)\n        return [prepare_form(_) for _ in records]",
       "        self.records = self.raw.parse(word)\n        return [prepare_form(_) for _ in self.records]")],
     'two threads analysing different words with one analyzer at the same moment',
     'a thread gets the analyses of the word of another thread',
     '''
import sys, threading
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
words = ['стали', 'кошка', 'стол', 'мыла']
right = {w: [f.normalized for f in m(w)] for w in words}
raw = m.raw.parse
gate = threading.Barrier(2)
class Raw(object):
    TagClass = m.raw.TagClass
    def parse(self, word):
        return raw(word)
# switch threads exactly between the two statements of __call__
import yargy.morph as y
code = y.MorphAnalyzer.__call__.__code__
bad = []
def work(w, wait):
    lines = []
    def tracer(frame, event, arg):
        if frame.f_code is code:
            def local(frame, event, arg):
                if event == 'line' and frame.f_lineno == code.co_firstlineno + 2:
                    try:
                        gate.wait(5)
                        gate.wait(5)
                    except threading.BrokenBarrierError:
                        pass
                return local
            return local
    sys.settrace(tracer)
    got = [f.normalized for f in m(w)]
    sys.settrace(None)
    if got != right[w]:
        bad.append((w, got))
ts = [threading.Thread(target=work, args=(w, 0)) for w in ('стали', 'кошка')]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad
''')

SEED('c30-scan-twice', 'C30',
     [('yargy/parser.py', "        if predicate(token):\n            leaf", "        if all(predicate(_.token) for _ in self.window(column)):\n            leaf"),
      ('yargy/parser.py', "    def scan(self, column, predicate, state):", "    def window(self, column):\n        return [column, column]\n\n    def scan(self, column, predicate, state):")],
     'any rule with a counting predicate',
     'every accepted token is asked about twice',
     '''
from yargy import Parser, rule
from yargy.predicates import custom
n = []
Parser(rule(custom(lambda v: n.append(v) or True))).match('a')
assert len(n) == 1, n
''')

SEED('c01-eol-run', 'C01',
     [('yargy/tokenizer.py', r"    TokenRule(EOL, r'[\n\r]+'),", r"    TokenRule(EOL, r'\r?\n+|\r+'),")],
     'line breaks mixed in one run: newline followed by carriage return',
     'one run of line breaks becomes several tokens',
     '''
from yargy.tokenizer import Tokenizer
assert Tokenizer().split('a\\n\\r\\nb') == ['a', '\\n\\r\\n', 'b'], Tokenizer().split('a\\n\\r\\nb')
''')

SEED('c24-empty-alt', 'C24',
     [('yargy/rule/bnf.py', "        productions = ' | '.join(str(_) for _ in self.productions)",
       "        productions = ' | '.join(\n            str(_) for index, _ in enumerate(self.productions)\n            if _.terms or not index\n        )")],
     'an empty alternative that is not the first one (optional(reverse=True), or_(x, empty()))',
     'the empty alternative is not listed',
     '''
from yargy import rule
lines = list(rule(rule('a').optional(reverse=True), 'b').normalized.as_bnf.source)
assert any(l.endswith('| e') for l in lines), lines
''')

SEED('c25-edge-dedupe', 'C25',
     [('yargy/dot.py', "        self.edges.append(edge)", "        if edge not in self.edges:\n            self.edges.append(edge)")],
     'two equal (not identical) terms in one sequence',
     'one of the edges is missing: equal objects are taken for the same',
     '''
from yargy import rule
from yargy.predicates import eq
g = rule(eq('x'), eq('x')).as_dot
assert len(g.edges) == 3, g.edges
''')

SEED('c26-inflect', 'C26',
     [('yargy/morph.py', "        record = self.raw.inflect(grams)\n        if not record:\n            return self.normalized\n        return record.word",
       "        record = self.raw.inflect(grams)\n        return (record or self.raw.normalized.inflect(grams)).word")],
     'a word that can not be inflected as asked (a preposition, a verb to a case)',
     'AttributeError while the fact is made',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.interpretation import fact
F = fact('F', ['a'])
r = rule(type('RU')).interpretation(F.a.inflected({'gent'})).interpretation(F)
for word in ['в', 'бежал', 'ура', 'стол', 'быстро']:
    Parser(r).match(word).fact
''')

SEED('c26-states', 'C26',
     [('yargy/parser.py', "            tuple(id(_) for _ in self.node.children)", "            id(self.node) if self.dot_index else None")],
     'a left recursive rule',
     'states are never equal, the parse does not stop',
     '''
import signal
from yargy import Parser, rule, or_, forward
signal.alarm(20)
f = forward()
f.define(or_(rule(f, f), rule('a')))
assert Parser(f).match('a a a') is not None
o = forward()
o.define(or_(rule(o, rule('x').optional(), o), rule('a'), rule('b').optional()))
assert Parser(o).match('a b') is not None
''')

SEED('c08-optional-of-min', 'C08',
     [('yargy/rule/transformators.py', "    def visit_OptionalRule(self, item):\n        child = item.rule\n        if isinstance(child, RepeatableRule):",
       "    def visit_OptionalRule(self, item):\n        child = item.rule\n        if isinstance(child, RepeatableRule) or type(child) is MinBoundedRule:")],
     'optional() of repeatable(min=n)',
     'any number of occurrences is accepted, also fewer than min',
     '''
from yargy import Parser, rule
p = Parser(rule(rule('a').repeatable(min=3).optional(), 'b'))
for n in range(6):
    assert (p.match('a ' * n + 'b') is not None) == (n == 0 or n >= 3), n
''')

SEED('c02-add-order', 'C02',
     [('yargy/tokenizer.py', "        self.reset(list(rules) + self.rules)",
       "        for rule in rules:\n            self.reset([rule] + self.rules)")],
     'add_rules with two rules that compete for the same characters',
     'the last of the added rules wins instead of the first',
     '''
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().add_rules(TokenRule('A', 'xx'), TokenRule('B', 'x+'))
assert [(k.value, k.type) for k in t('xxx')] == [('xx', 'A'), ('x', 'B')], list(t('xxx'))
''')
