SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c01-ascii-digits', 'C01',
     [('yargy/tokenizer.py', r"    TokenRule(INT, r'\d+'),", r"    TokenRule(INT, r'[0-9]+'),")],
     'a text with decimal digits of another script',
     'runs of non-ASCII decimal digits become single OTHER tokens',
     '''
from yargy.tokenizer import Tokenizer
tokens = list(Tokenizer()('x \u0661\u0662 y'))
assert [(_.value, _.type) for _ in tokens] == [
    ('x', 'LATIN'), ('\u0661\u0662', 'INT'), ('y', 'LATIN')], tokens
''')

SEED('c01-crlf-spans', 'C01',
     [('yargy/tokenizer.py', "        tokens = Tokenizer.__call__(self, text)",
       "        tokens = Tokenizer.__call__(self, text.replace('\\r\\n', '\\n'))")],
     'a text with a CRLF line break followed by more tokens',
     'spans after a CRLF are shifted, text[start:stop] is not the token',
     '''
from yargy.tokenizer import MorphTokenizer
text = 'a\\r\\nbc 12'
for token in MorphTokenizer()(text):
    assert text[token.span.start:token.span.stop] == token.value, token
''')

SEED('c02-inplace-rules', 'C02',
     [('yargy/tokenizer.py', "        self.reset(list(rules) + self.rules)",
       "        self.rules[:0] = rules\n        self.reset(self.rules)")],
     'a rule is added to one tokenizer and another one is made later',
     'add_rules changes the shared default rules',
     '''
from yargy.tokenizer import Tokenizer, EMAIL_RULE
Tokenizer().add_rules(EMAIL_RULE)
assert Tokenizer().split('a@b.c') == ['a', '@', 'b', '.', 'c'], Tokenizer().split('a@b.c')
''')

SEED('c02-partial-removal', 'C02',
     [('yargy/tokenizer.py', """            self.check_type(type)
        self.reset([
            _ for _ in self.rules
            if _.type not in types
        ])
        return self""", """            self.check_type(type)
            self.reset([
                _ for _ in self.rules
                if _.type != type
            ])
        return self""")],
     'remove_types with a known type followed by an unknown one, then use the tokenizer',
     'the failed call has already removed the first type',
     '''
from yargy.tokenizer import Tokenizer
t = Tokenizer()
try:
    t.remove_types('EOL', 'NOPE')
except ValueError:
    pass
assert t.split('a\\nb') == ['a', '\\n', 'b'], t.split('a\\nb')
''')

SEED('c03-yo-cache', 'C03',
     [('yargy/morph.py', "        records = self.raw.parse(word)\n        return [prepare_form(_) for _ in records]\n",
       '''        cache = self.__dict__.setdefault('cache', {})
        key = word.lower().replace('\u0451', '\u0435')
        forms = cache.get(key)
        if forms is None:
            if len(cache) >= CACHE_SIZE:
                cache.clear()
            forms = cache[key] = [prepare_form(_) for _ in self.raw.parse(word)]
        return forms
''')],
     'one analyzer sees a word with е and later the other word with ё',
     'the analyses of the second word are those of the first',
     '''
from yargy.morph import CachedMorphAnalyzer, MorphAnalyzer
a, b = CachedMorphAnalyzer(), MorphAnalyzer()
a('все')
assert [_.normalized for _ in a('всё')] == [_.normalized for _ in b('всё')], a('всё')
''')

SEED('c04-casefold', 'C04',
     [('yargy/predicates/bank.py', "        return token.value.lower() == self.value",
       "        return token.value.casefold() == self.value")],
     'a token whose casefold differs from its lower case (\u00df, ligatures)',
     'caseless rejects the very text it was given',
     '''
from yargy import Parser, rule
from yargy.predicates import caseless
assert Parser(rule(caseless('Stra\u00dfe'))).match('Stra\u00dfe') or True
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer().add_rules(TokenRule('WORD', r'\\w+'))
token, = t('STRA\u00dfE')
assert caseless('stra\u00dfe')(token)
''')

SEED('c04-custom-none-types', 'C04',
     [('yargy/predicates/bank.py', "        if self.types and token.type not in self.types:",
       "        if self.types and not any(token.type.startswith(_) for _ in self.types):")],
     'a tokenizer with a token type whose name starts with the name of another type',
     'custom(f, types=X) also receives tokens of type XY',
     '''
from yargy.tokenizer import MorphTokenizer, TokenRule
from yargy import Parser, rule
from yargy.predicates import custom
t = MorphTokenizer().add_rules(TokenRule('INTERVAL', r'\\d+-\\d+'))
seen = []
def f(value):
    seen.append(value)
    return True
assert Parser(rule(custom(f, types='INT')), tokenizer=t).find('1-2') is None
assert not seen
''')

SEED('c05-end-of-text', 'C05',
     [('yargy/parser.py', """            if next_column
            else rule.productions
        )""", """            if next_column
            else [_ for _ in rule.productions if not _.terms]
        )""")],
     'the rule has, at the end of the text, an optional part nested in a rule that is not itself empty',
     'nullable parts that are not literally empty() are not tried after the last token',
     '''
from yargy import Parser, rule
a = rule('b').optional().named('x')
r = rule('a', rule(a, rule('c').optional()))
assert Parser(r).match('a')
''')

SEED('c06-adjacent', 'C06',
     [('yargy/span.py', "            if start >= stop:", "            if start > stop:")],
     'two matches of which the second starts at the token right after the first',
     'a following adjacent match is lost',
     '''
from yargy import Parser, rule
from yargy.predicates import eq
assert len(list(Parser(rule(eq('a'), eq('b'))).findall('a b a b a b'))) == 3
''')

SEED('c06-first-derivation', 'C06',
     [('yargy/parser.py', """    spans = []
    span_matches = {}
    for tree in trees:
        span = tree.range
        if span not in span_matches:
            match = prepare_match(tree)
            if match:""", """    spans = []
    seen = set()
    span_matches = {}
    for tree in trees:
        span = tree.range
        if span not in seen:
            seen.add(span)
            match = prepare_match(tree)
            if match:""")],
     'an ambiguous rule with agreement whose preferred reading of a run of words disagrees while another agrees',
     'findall() drops the run of tokens although a derivation is valid',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
from yargy.relations import gnc_relation
gnc = gnc_relation()
r = or_(
    rule(gram('ADJF').match(gnc), gram('NOUN').match(gnc)),
    rule(gram('ADJF'), gram('NOUN')),
).named('x')
p = Parser(rule(r))
assert p.match('красная стол')
assert len(list(p.findall('красная стол'))) == 1
''')

SEED('c07-min-reverse', 'C07',
     [('yargy/rule/transformators.py', "        items.append(repeatable(child, item.reverse))",
       "        items.append(repeatable(child))")],
     'repeatable(min=, reverse=True) followed by something that can take the same tokens',
     'reverse is ignored when a minimum is given',
     '''
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
a = rule('x').repeatable(min=2, reverse=True).interpretation(F.a)
b = rule('x').repeatable().interpretation(F.b)
m = Parser(rule(a, b).interpretation(F)).match('x x x x x')
assert (m.fact.a, m.fact.b) == ('x x', 'x x x'), m.fact
''')

SEED('c07-max-nested-reverse', 'C07',
     [('yargy/rule/transformators.py', "            max_bound(item, count - 1, reverse)", "            max_bound(item, count - 1)")],
     'repeatable(max=3 or more, reverse=True) with at least one repetition more than the minimum',
     'only the first choice of a bounded repetition is inverted',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
a = rule('x').repeatable(max=3, reverse=True).interpretation(F.a)
b = rule('x').repeatable(max=2).interpretation(F.b)
m = Parser(rule(a, b).interpretation(F)).match('x x x x')
assert (m.fact.a, m.fact.b) == ('x x', 'x x'), m.fact
''')

SEED('c09-composition-activated-inplace', 'C09',
     [('yargy/predicates/constructors.py', """        return self.__class__(
            _.activate(context)
            for _ in self.predicates
        )""", """        self.predicates = [_.activate(context) for _ in self.predicates]
        return self""")],
     'an and_/or_ of predicates is used in two parsers, the second of which has another tokenizer or tagger',
     'schemes inside the combination are activated once and for all',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import type, eq
from yargy.tokenizer import MorphTokenizer
r = rule(or_(type('INT'), eq('a')))
Parser(r)
try:
    Parser(r, tokenizer=MorphTokenizer().remove_types('INT'))
except ValueError:
    pass
else:
    raise AssertionError('type INT is unknown')
''')

SEED('c10-top-form', 'C10',
     [('yargy/pipelines.py', "            [tokenizer.morph.normalized(_) for _ in parts]",
       "            [{tokenizer.morph(_)[0].normalized} for _ in parts]")],
     'a morph_pipeline line with an ambiguous word and a text word that shares only a less probable normal form',
     'only the first analysis of the words of a line is used',
     '''
from yargy import Parser, rule
from yargy.pipelines import morph_pipeline
from yargy.morph import MorphAnalyzer
m = MorphAnalyzer()
assert {_.normalized for _ in m('стали')} >= {'стать', 'сталь'}
p = Parser(rule(morph_pipeline(['завод стали'])))
assert p.match('завод сталью') and p.match('завод станет')
''')

SEED('c11-last-line', 'C11',
     [('yargy/pipelines.py', """            term = production.terms[0]
            index[term.value].append(production)""", """            term = production.terms[0]
            index[term.value].insert(0, production)""")],
     'a caseless pipeline with two lines that differ only in case, normalized() attached',
     'the last matching line is reported instead of the first',
     '''
from yargy import Parser, rule
from yargy.pipelines import caseless_pipeline
from yargy.interpretation import fact
F = fact('F', ['a'])
p = caseless_pipeline(['Apple Inc', 'APPLE inc']).interpretation(F.a.normalized())
assert Parser(rule(p).interpretation(F)).match('apple inc').fact.a == 'Apple Inc'
''')

SEED('c12-merge-first', 'C12',
     [('yargy/interpretation/interpretator.py', """        for item in input.items:
            if isinstance(item, AttributeResult) and issubclass(self.fact, item.attribute.fact):
                fact.set(
                    item.attribute.name,
                    item.value
                )
            elif isinstance(item, FactResult) and issubclass(item.fact.scheme, self.fact):
                fact.merge(item.fact)
        return FactResult(fact)""", """        for item in input.items:
            if isinstance(item, FactResult) and issubclass(item.fact.scheme, self.fact):
                fact.merge(item.fact)
        for item in input.items:
            if isinstance(item, AttributeResult) and issubclass(self.fact, item.attribute.fact):
                fact.set(
                    item.attribute.name,
                    item.value
                )
        return FactResult(fact)""")],
     'a rule where a nested fact of the same class follows an annotated part with the same attribute',
     'the attribute keeps the earlier value (or a list is out of order)',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable()])
inner = rule('y').interpretation(F.a)
r = rule(rule(inner).interpretation(F), rule('x').interpretation(F.a)).interpretation(F)
r2 = rule(rule('x').interpretation(F.a), rule(inner).interpretation(F)).interpretation(F)
assert Parser(r).match('y x').fact.a == ['y', 'x']
assert Parser(r2).match('x y').fact.a == ['x', 'y']
''')

SEED('c12-same-name', 'C12',
     [('yargy/interpretation/interpretator.py',
       "            if isinstance(item, AttributeResult) and issubclass(self.fact, item.attribute.fact):",
       "            if isinstance(item, AttributeResult) and item.attribute.fact.__name__ == self.fact.__name__:")],
     'two fact classes with the same name (or a subclass of a fact class) in one grammar',
     'annotations of the other class are assigned, those of a base class ignored',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
A, B = fact('F', ['a']), fact('F', ['a'])
m = Parser(rule(rule('x').interpretation(A.a), rule('y').interpretation(B.a)).interpretation(A)).match('x y')
assert m.fact.a == 'x', m.fact
''')

SEED('c13-inflected-custom-grams', 'C13',
     [('yargy/interpretation/attribute.py', """        return MorphFunctionNormalizer(
            InflectedNormalizer(self.grams),
            self.function
        )""", """        return MorphFunctionNormalizer(
            InflectedNormalizer(),
            self.function
        )""")],
     'attribute.inflected(grams).custom(f) with other grams than the default',
     'grams are forgotten when a function is chained',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
from yargy.predicates import gram
F = fact('F', ['a'])
m = Parser(rule(gram('NOUN').interpretation(F.a.inflected({'datv', 'plur'}).custom(str.upper))).interpretation(F)).match('стол')
assert m.fact.a == 'СТОЛАМ', m.fact
''')

SEED('c15-falsy', 'C15',
     [('yargy/interpretation/fact.py', """            if value is not None:
                data[key] = value""", """            if value or key in self.repeatable:
                data[key] = value""")],
     'an attribute whose value is 0, False or an empty string',
     'falsy values are missing from as_json',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
from yargy.predicates import type
F = fact('F', ['a'])
m = Parser(rule(type('INT').interpretation(F.a.custom(int))).interpretation(F)).match('0')
assert dict(m.fact.as_json) == {'a': 0}
''')

SEED('c15-cached', 'C15',
     [('yargy/interpretation/fact.py', """    def as_json(self):
        return self._raw.as_json
""", """    def as_json(self):
        data = self.__dict__.get('_json')
        if data is None:
            data = self._json = self._raw.as_json
        return data
""")],
     'the caller changes the mapping it got and asks for it again',
     'the second result has the changes',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
f = Parser(rule(rule('x').interpretation(F.a)).interpretation(F)).match('x').fact
f.as_json.pop('a')
assert dict(f.as_json) == {'a': 'x'}
''')

SEED('c16-neighbours', 'C16',
     [('yargy/relations/graph.py', "            for first, second in combinations(items, 2):",
       "            for first, second in zip(items, items[1:]):"),
      ('yargy/relations/graph.py', "from itertools import combinations\n", "")],
     'three words of one relation where the first and the third disagree although both agree with the second',
     'only neighbouring words are compared',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gender_relation
g = gender_relation()
n = gram('NOUN').match(g)
# common gender fits both, the others do not fit each other
assert Parser(rule(n, n, n)).match('стол сирота книга') is None
''')

SEED('c17-fixed-one-side', 'C17',
     [('yargy/relations/bank.py', """            form_mask == other_mask
            or form_fixed
            or other_fixed""", """            form_mask == other_mask
            or form_fixed""")],
     'the indeclinable word comes second in the pair',
     'case agreement is not symmetric',
     '''
from yargy.morph import MorphAnalyzer
from yargy.relations import case_relation
m = MorphAnalyzer()
pal = [_ for _ in m('пальто') if 'Fixd' in _.grams and 'nomn' in _.grams][0]
dat = [_ for _ in m('дому') if 'datv' in _.grams][0]
r = case_relation()
assert r(pal, dat) and r(dat, pal)
''')

SEED('c17-bi-one-side', 'C17',
     [('yargy/relations/bank.py', """            or (other_bi and (form_male or form_female))
""", """            or (other_bi and form_male)
""")],
     'a feminine word followed by a word of common gender',
     'common gender fits a feminine word only in one order',
     '''
from yargy.morph import MorphAnalyzer
from yargy.relations import gender_relation
m = MorphAnalyzer()
bi = [_ for _ in m('сирота') if 'ms-f' in _.grams or 'Ms-f' in _.grams][0]
f = [_ for _ in m('книга') if 'femn' in _.grams][0]
r = gender_relation()
assert bool(r(f, bi)) == bool(r(bi, f)) == True, (bi, f)
''')

SEED('c19-shared-trees', 'C19',
     [('yargy/parser.py', """        states = self.matches(text, all=all)
        trees = prepare_trees(states)
        return prepare_matches(trees)""", """        self.trees = prepare_trees(self.matches(text, all=all))
        return self.prepared()

    def prepared(self):
        for match in prepare_matches(self.trees):
            yield match""")],
     'extract() is called for a second text before the first result is iterated',
     'the first iterator yields matches of the second text',
     '''
from yargy import Parser, rule
from yargy.predicates import type
p = Parser(rule(type('INT')))
a = p.extract('1 2')
b = p.extract('3')
assert [_.tokens[0].value for _ in a] == ['1', '2']
''')

SEED('c19-fact-cached', 'C19',
     [('yargy/parser.py', """        fact = self.tree.interpret()
        return fact.normalized""", """        if self._fact is None:
            self._fact = self.tree.interpret().normalized
        return self._fact"""),
      ('yargy/parser.py', """    def __init__(self, tree):
        self.tree = tree
""", """    _fact = None

    def __init__(self, tree):
        self.tree = tree
""")],
     'the caller changes a fact (appends to a repeatable attribute) and reads match.fact again',
     'what the caller did with the earlier fact shows in the later one',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable()])
m = Parser(rule(rule('x').interpretation(F.a)).interpretation(F)).match('x')
m.fact.a.append('y')
assert m.fact.a == ['x'], m.fact
''')

SEED('c20-edges-by-id', 'C20',
     [('yargy/relations/graph.py', "        for relation_id, items in self.relation_items.items():",
       "        for relation_id, items in sorted(self.relation_items.items()):")],
     'a match with two relations, in processes where the relation objects get different addresses',
     'the dashed edges of the picture are listed in order of memory addresses',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gender_relation, number_relation
pool = [gender_relation() for _ in range(100)]
a, b = sorted(pool, key=id)[:2]
def labels(first, second):
    first.__class__, second.__class__ = gender_relation, number_relation
    x = rule(gram('ADJF').match(first), gram('NOUN').match(first))
    y = rule(gram('ADJF').match(second), gram('NOUN').match(second))
    m = Parser(rule(x, y)).match('красный стол синяя книга')
    return [_ for _ in ''.join(e + '\\n' for e in m.tree.as_dot.source).splitlines() if 'dashed' in _]
assert [_.split('label=')[1] for _ in labels(a, b)] == [_.split('label=')[1] for _ in labels(b, a)]
''')

SEED('c22-last-tagger', 'C22',
     [('yargy/tagger.py', """        return any(
            _.check_tag(tag)
            for _ in self.taggers
        )""", """        return self.taggers[-1].check_tag(tag)""")],
     'a composition of taggers and a rule with a tag of the first one',
     'tags of the other taggers are unknown',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, PassTagger, TaggersComposition
class A(Tagger):
    tags = ['A']
    def __call__(self, tokens):
        for _ in tokens:
            yield _.tagged('A')
assert Parser(rule(tag('A')), tagger=TaggersComposition([A(), PassTagger()])).match('x')
''')

SEED('c22-tag-lost', 'C22',
     [('yargy/token.py', """    def constrained(self, forms):
        return MorphTagToken(
            self.value, self.span, self.type,
            self.tag, forms
        )""", """    def constrained(self, forms):
        return MorphToken(
            self.value, self.span, self.type,
            forms
        )""")],
     'a tagged word that takes part in agreement or is matched by gram()',
     'the token in the match has lost its tag',
     '''
from yargy import Parser, rule, and_
from yargy.predicates import tag, gram
from yargy.tagger import Tagger
class A(Tagger):
    tags = ['A']
    def __call__(self, tokens):
        for _ in tokens:
            yield _.tagged('A')
m = Parser(rule(gram('NOUN')), tagger=A()).match('стол')
assert m.tokens[0].tag == 'A'
''')

SEED('c23-first-type', 'C23',
     [('yargy/predicates/bank.py', """            for type in self.types:
                context.tokenizer.check_type(type)
        return CustomPredicate""", """            context.tokenizer.check_type(self.types[0])
        return CustomPredicate""")],
     'custom() with several types of which a later one is unknown',
     'the unknown type is not reported',
     '''
from yargy import Parser, rule
from yargy.predicates import custom
try:
    Parser(rule(custom(bool, types=['INT', 'NOPE'])))
except ValueError:
    pass
else:
    raise AssertionError
''')

SEED('c24-double-name', 'C24',
     [('yargy/rule/bnf.py', """        if item.name:
            item = lift(item)
        item.name = name""", """        item.name = name""")],
     'a rule that is named and then named again (one of the parts under both names)',
     'the inner name is missing from the listing',
     '''
from yargy import rule
r = rule(rule('a', 'b').named('X').named('Y'))
source = '\\n'.join(rule('c', r, 'd').normalized.as_bnf.source)
assert 'X ->' in source and 'Y ->' in source, source
''')

SEED('c25-ids-by-value', 'C25',
     [('yargy/dot.py', """        item_id = id(item)
        if item_id not in self.ids:""", """        item_id = repr(item)
        if item_id not in self.ids:""")],
     'a rule with two equal but distinct terms',
     'equal nodes of the picture are merged',
     '''
import re
from yargy import rule
nodes = [_ for _ in rule(rule('a'), rule('a')).as_dot.source if re.match(r'^\\d+ \\[', _)]
ids = [_.split()[0] for _ in nodes]
assert len(ids) == len(set(ids)), nodes
''')

SEED('c27-span-order', 'C27',
     [('yargy/span.py', "        return tuple(self) < tuple(other)", "        return self.start < other.start")],
     'two spans with the same start',
     'order ignores the end',
     '''
from yargy.span import Span
assert Span(0, 1) < Span(0, 2)
assert sorted([Span(0, 3), Span(0, 1)]) == [Span(0, 1), Span(0, 3)]
''')

SEED('c28-hash', 'C28',
     [('yargy/parser.py', "            tuple(id(_) for _ in self.node.children)\n", "            len(self.node.children)\n")],
     'a rule with several derivations of one part',
     'only the first derivation of every part is kept',
     '''
from yargy import Parser, rule, or_
a = or_(rule('x'), rule('x'))
assert len(list(Parser(rule(a, 'y')).extract('x y', all=False))) == 2
''')

SEED('c29-split', 'C29',
     [('yargy/tokenizer.py', "        return [_.value for _ in self(text)]",
       "        return [_.group() for _ in self.regexp.finditer(text)]")],
     'a tokenizer class with its own __call__ and a pipeline',
     'lines of pipelines are not split by the tokenizer of the parser',
     '''
from yargy import Parser, rule
from yargy.tokenizer import MorphTokenizer
from yargy.pipelines import caseless_pipeline
class NoPunct(MorphTokenizer):
    def __call__(self, text):
        return (_ for _ in MorphTokenizer.__call__(self, text) if _.type != 'PUNCT')
assert Parser(rule(caseless_pipeline(['a-b'])), tokenizer=NoPunct()).match('a, b')
''')

SEED('c30-all-starts', 'C30',
     [('yargy/parser.py', """            if column.first or all:
                self.predict(column, next_column, self.rule)""", """            self.predict(column, next_column, self.rule)""")],
     'match() on a long text that the rule accepts nowhere or many times',
     'match() tries the rule at every token, results are the same',
     '''
from yargy import Parser, rule
from yargy.predicates import custom
seen = []
def f(value):
    seen.append(value)
    return value == 'x'
Parser(rule(custom(f))).match('a b c d e f')
assert len(seen) == 1, seen
''')

SEED('c30-keeps-chart', 'C30',
     [('yargy/parser.py', """        chart = Chart(tokens)
        for column""", """        chart = self.last_chart = Chart(tokens)
        for column""")],
     'a parser that lives on after its results are dropped',
     'the parser keeps the tokens of the last text alive',
     '''
import gc, weakref
from yargy import Parser, rule
from yargy.predicates import type
p = Parser(rule(type('INT')))
m = p.match('1')
r = weakref.ref(m.tokens[0])
del m
gc.collect()
assert r() is None
''')

SEED('c32-inplace', 'C32',
     [('yargy/predicates/bank.py', """        return token.constrained([
            _ for _ in token.forms
            if self.value in _.grams
        ])""", """        token.forms = [
            _ for _ in token.forms
            if self.value in _.grams
        ]
        return token""")],
     'an ambiguous word tried as gram() in one alternative and as another in the next',
     'other alternatives and matches see only the analyses left',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
p = Parser(or_(rule(gram('NOUN'), 'x'), rule(gram('VERB'), 'y')))
assert p.match('стали x') and p.match('стали y')
''')

SEED('c03-inflect-fallback', 'C03',
     [('yargy/morph.py', "            return self.normalized\n        return record.word",
       "            return self.raw.word\n        return record.word")],
     'a word form that cannot be inflected as asked and is not its own normal form',
     'inflect falls back to the word itself instead of the normal form',
     '''
from yargy.morph import MorphAnalyzer
for form in MorphAnalyzer()('бежал'):
    if 'VERB' in form.grams:
        assert form.inflect({'nomn', 'Pltm'}) == 'бежать', form.inflect({'nomn', 'Pltm'})
''')

SEED('c08-min-squash', 'C08',
     [('yargy/rule/transformators.py', """    def visit_MaxBoundedRule(self, item):
        child = item.rule
        if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
            return self.visit_BoundedRule(item)
        elif isinstance(child, OptionalRule):""", """    def visit_MaxBoundedRule(self, item):
        child = item.rule.rule if isinstance(item.rule, MaxBoundedRule) else item.rule
        if isinstance(child, (RepeatableRule, RepeatableOptionalRule)):
            return self.visit_BoundedRule(item)
        elif isinstance(child, OptionalRule):""")],
     'a bounded repetition of a bounded repetition',
     'the inner bound is dropped: fewer (or other) counts are accepted',
     '''
from yargy import Parser, rule
r = rule(rule('x').repeatable(max=3).repeatable(max=2), 'y')
assert Parser(r).match('x x x x x y')
''')

SEED('c09-not-activated-inplace', 'C09',
     [('yargy/predicates/constructors.py', "        return NotPredicate(self.predicate.activate(context))",
       "        self.predicate = self.predicate.activate(context)\n        return self")],
     'not_() of a dictionary or tag predicate is used in two parsers, the second with another morph, tokenizer or tagger',
     'the operand is activated once and for all',
     '''
from yargy import Parser, rule, not_
from yargy.predicates import type
from yargy.tokenizer import MorphTokenizer
r = rule(not_(type('INT')))
Parser(r)
try:
    Parser(r, tokenizer=MorphTokenizer().remove_types('INT'))
except ValueError:
    pass
else:
    raise AssertionError('type INT is unknown')
''')

SEED('c11-key-of-shared', 'C11',
     [('yargy/tree/transformators.py', "            input.key = item.production.value\n",
       "            input.key = item.production.value if len(input.items) > 1 else None\n")],
     'a pipeline line of one word that is not in normal form (plural, capital letters)',
     'the value of single word lines is the normal form of the word, not the line',
     '''
from yargy import Parser, rule
from yargy.pipelines import morph_pipeline
from yargy.interpretation import fact
F = fact('F', ['a'])
p = morph_pipeline(['Деньги']).interpretation(F.a.normalized())
assert Parser(rule(p).interpretation(F)).match('деньгами').fact.a == 'Деньги'
''')

SEED('c13-inflect-other', 'C13',
     [('yargy/token.py', """    else:
        value = token.normalized
    return Token(
        value,
        token.span,""", """    else:
        value = token.value
    return Token(
        value,
        token.span,""")],
     'inflected() over a part with Latin words in upper case',
     'tokens that are not Russian words are not lower-cased',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
m = Parser(rule(rule('IBM').interpretation(F.a.inflected())).interpretation(F)).match('IBM')
assert m.fact.a == 'ibm', m.fact
''')

SEED('c14-const-span', 'C14',
     [('yargy/interpretation/fact.py', """            elif key in self.modified:
                for span in value.spans:
                    yield span""", """            elif key in self.modified and value.normalized:
                for span in value.spans:
                    yield span""")],
     'an attribute whose value is falsy (0, False, empty, a constant None)',
     'the span of the part that gave the value is missing',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
m = Parser(rule(rule('no').interpretation(F.a.const(False))).interpretation(F)).match('no')
assert [tuple(_) for _ in m.fact.spans] == [(0, 2)], m.fact.spans
''')

SEED('c14-unsorted', 'C14',
     [('yargy/interpretation/fact.py', """        return sorted(
            self._raw.spans,
            key=lambda _: _.start
        )""", """        return list(self._raw.spans)""")],
     'attributes that occur in the text in another order than they are declared',
     'spans are in declaration order',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
m = Parser(rule(rule('x').interpretation(F.b), rule('y').interpretation(F.a)).interpretation(F)).match('x y')
assert [tuple(_) for _ in m.fact.spans] == [(0, 1), (2, 3)], m.fact.spans
''')

SEED('c16-relations-by-label', 'C16',
     [('yargy/relations/graph.py', """        relation_id = id(relation)
        self.relations""", """        relation_id = relation.label
        self.relations""")],
     'two distinct relation objects of the same kind in one rule',
     'they are treated as one relation',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation
a, b = gnc_relation(), gnc_relation()
x = rule(gram('ADJF').match(a), gram('NOUN').match(a))
y = rule(gram('ADJF').match(b), gram('NOUN').match(b))
assert Parser(rule(x, y)).match('красный стол синяя книга')
''')

SEED('c16-second-relation', 'C16',
     [('yargy/rule/bnf.py', """        if item.relation:
            item = lift(item)
        item.relation = relation""", """        item.relation = relation""")],
     'a part marked with two relations',
     'the inner relation is forgotten',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import number_relation, gender_relation
n, g = number_relation(), gender_relation()
r = rule(gram('NOUN').match(n).match(g), gram('NOUN').match(n), gram('NOUN').match(g))
assert Parser(r).match('стол книга дом')
assert not Parser(r).match('столы книга дом')
''')

SEED('c18-flatten-main', 'C18',
     [('yargy/rule/transformators.py', """                if len(productions) == 1:
                    production = productions[0]
                    return self.visit(production)""", """                if len(productions) == 1:
                    production = productions[0]
                    return self.visit(
                        Production(production.terms)
                        if production.main
                        else production
                    )""")],
     'main() in a rule that is the only term of another rule, and agreement with the outer phrase',
     'the main word of the phrase is its first word',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gender_relation, main
g = gender_relation()
inner = rule(gram('NOUN'), main(gram('NOUN')))
p = Parser(rule(rule(inner).match(g), gram('NOUN').match(g)))
assert p.match('стол книга ручка'), 'книга and ручка agree'
assert not p.match('книга стол ручка')
''')

SEED('c18-rep-main', 'C18',
     [('yargy/rule/constructors.py', """        self.terms, self.main = prepare_terms(terms)
        if main > 0:
            self.main = main""", """        self.terms, self.main = prepare_terms(terms)
        if main > 0 and len(self.terms) < 8:
            self.main = main""")],
     'a sequence of eight or more terms with main() on a later one',
     'the mark is lost in long sequences',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gender_relation, main
g = gender_relation()
inner = rule(gram('NOUN'), main(gram('NOUN')), 'a', 'b', 'c', 'd', 'e', 'f')
p = Parser(rule(inner.match(g), gram('NOUN').match(g)))
assert p.match('стол книга a b c d e f ручка'), 'книга and ручка agree'
''')

SEED('c27-name-equal', 'C27',
     [('yargy/record.py', "            type(self) == type(other)\n", "            type(self).__name__ == type(other).__name__\n")],
     'facts of two fact classes with the same name and attributes',
     'facts of different classes are equal',
     '''
from yargy.interpretation import fact
A, B = fact('F', ['a']), fact('F', ['a'])
assert A(a=1) != B(a=1)
''')

SEED('c31-shared-pipeline', 'C31',
     [('yargy/rule/bnf.py', "        if shared:\n", "        if shared and type(item) is BNFRule:\n")],
     'a pipeline used both plainly and with an annotation in one grammar',
     'the annotation applies to the plain use too',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
from yargy.pipelines import pipeline
F = fact('F', ['a'])
x = pipeline(['x', 'y'])
m = Parser(rule(x.interpretation(F.a), x).interpretation(F)).match('x y')
assert m.fact.a == 'x', m.fact
''')



SEED('c25-quote', 'C25',
     [('yargy/dot.py', """            '"': r'\\"',
""", """            '"': "'",
""")],
     'a token or name with a double quote',
     'the label shows another character',
     '''
from yargy import Parser, rule
m = Parser(rule('a', '"', 'b')).match('a " b')
assert any(r'label="\\""' in _ for _ in m.tree.as_dot.source)
''')
