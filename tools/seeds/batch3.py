SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c01-long-run', 'C01',
     [('yargy/tokenizer.py', "    TokenRule(LATIN, r'[a-z]+'),", "    TokenRule(LATIN, r'[a-z]{1,256}'),")],
     'a Latin word longer than 256 letters',
     'the run of letters is cut into several tokens',
     '''
from yargy.tokenizer import Tokenizer
t = list(Tokenizer()('x' * 300 + ' b'))
assert [len(_.value) for _ in t] == [300, 1]
''')

SEED('c02-compile-cache', 'C02',
     [('yargy/tokenizer.py', "        self.regexp, self.mapping, self.types = self.compile(rules)\n",
       "        key = tuple(_.type for _ in rules)\n"
       "        if key not in self.compiled:\n            self.compiled[key] = self.compile(rules)\n"
       "        self.regexp, self.mapping, self.types = self.compiled[key]\n"),
      ('yargy/tokenizer.py', "class Tokenizer(object):\n", "class Tokenizer(object):\n    compiled = {}\n\n")],
     'two tokenizers whose rules have the same types and different patterns',
     'the second one uses patterns of the first',
     '''
from yargy.tokenizer import Tokenizer, TokenRule
a = Tokenizer().add_rules(TokenRule('X', 'a+'))
b = Tokenizer().add_rules(TokenRule('X', 'b+'))
assert [_.type for _ in a('aa bb')] == ['X', 'LATIN']
assert [_.type for _ in b('aa bb')] == ['LATIN', 'X']
''')

SEED('c02-remove-last', 'C02',
     [('yargy/tokenizer.py', """        for type in types:
            self.check_type(type)
        self.reset([
            _ for _ in self.rules
            if _.type not in types
        ])
        return self
""", """        for type in types:
            self.check_type(type)
            self.reset([_ for _ in self.rules if _.type != type])
        return self
""")],
     'remove_types with a known type followed by an unknown one',
     'ValueError is raised but the known types are gone already',
     '''
from yargy.tokenizer import Tokenizer
t = Tokenizer()
try:
    t.remove_types('INT', 'NOPE')
except ValueError:
    pass
else:
    raise AssertionError
assert [_.type for _ in t('5')] == ['INT']
''')

SEED('c03-cache-full', 'C03',
     [('yargy/morph.py', "        records = self.raw.parse(word)\n        return [prepare_form(_) for _ in records]\n",
       '''        cache = self.__dict__.setdefault('cache', {})
        if word in cache:
            return cache[word]
        if len(cache) >= CACHE_SIZE:
            # two generations, old words are dropped
            self.recent, self.cache = cache, {}
            cache = self.cache
        recent = getattr(self, 'recent', {})
        if word.lower() in recent:
            forms = recent[word.lower()]
        else:
            forms = [prepare_form(_) for _ in self.raw.parse(word)]
        cache[word] = forms[:4] if recent else forms
        return cache[word]
''')],
     'more than 10000 different words analysed by one analyzer, then a word with many analyses',
     'after the cache was renewed only four analyses of a word are kept',
     '''
import itertools
from yargy.tokenizer import MorphTokenizer
t = MorphTokenizer()
before = [str(_) for _ in list(t('мыла'))[0].forms]
hard = [str(_) for _ in MorphTokenizer().morph('красной')]
letters = 'абвгдежзик'
for item in itertools.product(letters, repeat=4):
    t.morph(''.join(item))
for item in itertools.product(letters, repeat=2):
    t.morph('б' + ''.join(item))
assert [str(_) for _ in list(t('мыла'))[0].forms] == before
assert [str(_) for _ in t.morph('красной')] == hard
''')

SEED('c03-inflect-memo', 'C03',
     [('yargy/morph.py', """        record = self.raw.inflect(grams)
        if not record:
            return self.normalized
        return record.word
""", """        if self._inflected is None or self._inflected[0] is not grams:
            record = self.raw.inflect(grams)
            self._inflected = grams, record.word if record else self.normalized
        return self._inflected[1]
"""), ('yargy/morph.py', "        self.normalized = normalized\n        self.grams = grams\n        self.raw = raw\n",
       "        self.normalized = normalized\n        self.grams = grams\n        self.raw = raw\n        self._inflected = None\n")],
     'inflecting one analysis twice with the same set object whose content changed in between',
     'the word inflected to the old grammemes is returned',
     '''
from yargy.tokenizer import MorphTokenizer
form = MorphTokenizer().morph('стол')[0]
grams = {'gent'}
assert form.inflect(grams) == 'стола'
grams.clear()
grams.add('datv')
assert form.inflect(grams) == 'столу'
''')

SEED('c04-gte-float', 'C04',
     [('yargy/predicates/bank.py', "        return value >= self.value", "        return value >= int(self.value)")],
     'gte() with a fractional bound',
     'the bound is rounded down, smaller numbers are accepted',
     '''
from yargy import Parser, rule
from yargy.predicates import gte
p = Parser(rule(gte(2.5)))
assert p.match('2') is None
assert p.match('3')
''')

SEED('c04-dictionary-words', 'C04',
     [('yargy/predicates/bank.py', "            normalized.update(context.tokenizer.morph.normalized(item))",
       "            normalized.add(context.tokenizer.morph(item)[0].normalized)")],
     'dictionary() with a word that has several normal forms, the less probable one met in the text',
     'only the most probable normal form of the dictionary word is compared',
     '''
from yargy import Parser, rule
from yargy.predicates import dictionary
p = Parser(rule(dictionary({'стали'})))
assert p.match('сталью')
assert p.match('стать')
''')

SEED('c04-length-normal', 'C04',
     [('yargy/predicates/bank.py', "        return len(token.value) == self.value",
       "        return len(token.value.strip('-').lower()) == self.value")],
     'length_eq() and a hyphen token, or a letter that is longer in lower case',
     'the length of another string is compared',
     '''
from yargy import Parser, rule
from yargy.predicates import length_eq
p = Parser(rule(length_eq(1)))
assert p.match('-')
assert p.match('\\u0130')
''')

SEED('c06-many-spans', 'C06',
     [('yargy/span.py', """            cover = span_size(span)
            indexes = {index}
""", """            cover = span_size(span) if size < 1000 else size * span[1]
            indexes = {index}
""")],
     'a text with more than a thousand matching runs',
     'spans are weighed otherwise, other matches would cover more tokens',
     '''
from yargy import Parser, rule, or_
from yargy.tokenizer import Tokenizer
r = or_(rule('a', 'b'), rule('b', 'c', 'd'))
p = Parser(r, Tokenizer())
found = [len(_.tokens) for _ in p.findall('a b c d ' * 600)]
assert set(found) == {3}, set(found)
''')

SEED('c06-find-longest', 'C06',
     [('yargy/parser.py', "        for match in self.findall(text):\n            return match\n",
       "        states = self.matches(text)\n        trees = sorted(prepare_trees(states))\n"
       "        for match in prepare_matches(trees):\n            return match\n")],
     'the first match of the text is not part of the best covering set',
     'find() returns a match that findall() does not have',
     '''
from yargy import Parser, rule, or_
r = or_(rule('a', 'b'), rule('b', 'c', 'd'))
p = Parser(r)
assert p.find('a b c d').span == next(iter(p.findall('a b c d'))).span
''')

SEED('c07-rank-string', 'C07',
     [('yargy/parser.py', "                rank=index,", "                rank='%d' % index,")],
     'or_ with more than ten alternatives, the third and the eleventh both match',
     'alternatives are compared as strings, the eleventh wins over the third',
     '''
from yargy import Parser, rule, or_
items = [rule('x%d' % _) for _ in range(12)]
items[2] = rule('a').named('first')
items[10] = rule('a').named('second')
p = Parser(or_(*items))
assert p.match('a').tree.root.children[0].label == 'first', p.match('a').tree.root
''')

SEED('c08-large-max', 'C08',
     [('yargy/rule/constructors.py', "            return MaxBoundedRule(self, max, reverse)",
       "            return MaxBoundedRule(self, max, reverse) if max < 64 else RepeatableRule(self, reverse)")],
     'repeatable(max=) of 64 and more, and a longer run',
     'large bounds are taken for unlimited',
     '''
from yargy import Parser, rule
p = Parser(rule('a').repeatable(max=64))
assert p.match('a ' * 64)
assert p.match('a ' * 65) is None
''')

SEED('c09-normalized-inplace', 'C09',
     [('yargy/rule/transformators.py', """    def visit_NamedRule(self, item):
        return NamedRule(self.visit(item.rule), item.name)

    def visit_InterpretationRule""", """    def visit_NamedRule(self, item):
        item.rule = self.visit(item.rule)
        return item

    def visit_InterpretationRule""")],
     'a parser built with one tokenizer from a named rule, then another with a tokenizer that knows other types',
     'the named rule keeps what the first parser made of it',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.tokenizer import Tokenizer, TokenRule
r = rule(rule(type('INT')).named('N'))
Parser(r, Tokenizer())
try:
    Parser(r, Tokenizer().remove_types('INT'))
except ValueError:
    pass
else:
    raise AssertionError
''')

SEED('c10-line-space', 'C10',
     [('yargy/pipelines.py', """        return Key(
            line,
            tokenizer.split(line)
        )
""", """        return Key(
            line,
            line.split() if line.replace(' ', '').isalnum() else tokenizer.split(line)
        )
""")],
     'a line where letters and digits touch, "5мм"',
     'the line is one word that no token equals',
     '''
from yargy import Parser
from yargy.pipelines import pipeline
p = Parser(pipeline(['5мм', 'a b']))
assert p.match('5мм')
assert p.match('a b')
''')

SEED('c10-many-lines', 'C10',
     [('yargy/pipelines.py', "        for production in productions:\n            term = production.terms[0]\n            index[term.value].append(production)\n        return dict(index)",
       "        for production in productions:\n            term = production.terms[0]\n            items = index[term.value]\n            if len(items) < 32:\n                items.append(production)\n        return dict(index)")],
     'a pipeline with more than 32 lines that start with one word',
     'further lines of that word never match',
     '''
from yargy import Parser
from yargy.pipelines import pipeline
p = Parser(pipeline(['a %d' % _ for _ in range(40)]))
assert p.match('a 39')
''')

SEED('c11-strip', 'C11',
     [('yargy/pipelines.py', "        return Key(\n            line,\n            [tokenizer.morph.normalized(_) for _ in parts]\n        )",
       "        return Key(\n            ' '.join(line.split()),\n            [tokenizer.morph.normalized(_) for _ in parts]\n        )")],
     'a morph pipeline line with unusual spaces',
     'the value is the line with spaces put in order',
     '''
from yargy import Parser
from yargy.pipelines import morph_pipeline
from yargy.interpretation import fact
F = fact('F', ['a'])
r = morph_pipeline(['красный  дом']).interpretation(F.a.normalized()).interpretation(F)
assert Parser(r).match('красного дома').fact.a == 'красный  дом'
''')

SEED('c12-modified-default', 'C12',
     [('yargy/interpretation/fact.py', "        for key in fact.modified:\n            value = fact.attributes[key]\n",
       "        for key in fact.attributes:\n            value = fact.attributes[key]\n            if not value and key not in self.repeatable:\n                continue\n            if key not in fact.modified:\n                continue\n"),
      ('yargy/interpretation/interpretator.py', "class InterpretatorResult(Record):\n    normalized = None\n    spans = None\n",
       "class InterpretatorResult(Record):\n    normalized = None\n    spans = None\n\n    def __bool__(self):\n        return self.normalized is not None and self.normalized != ''\n")],
     'a nested fact of the same class that sets an attribute to None or an empty string after another value',
     'the overwriting value is dropped when facts are merged',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
one = rule('a').interpretation(F.a)
two = rule(rule('b').interpretation(F.a.const(''))).interpretation(F)
p = Parser(rule(one, two).interpretation(F))
assert p.match('a b').fact.a == ''
''')

SEED('c12-three-levels', 'C12',
     [('yargy/interpretation/interpretator.py', "            elif isinstance(item, FactResult) and issubclass(item.fact.scheme, self.fact):",
       "            elif isinstance(item, FactResult) and item.fact.scheme.__name__ == self.fact.__name__:")],
     'a nested fact of another class with the same name',
     'its attributes are merged into the outer fact (or AttributeError)',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
G = fact('F', ['a'])
inner = rule(rule('b').interpretation(G.a)).interpretation(G)
p = Parser(rule(rule('a').interpretation(F.a), inner).interpretation(F))
assert p.match('a b').fact.a == 'a', p.match('a b').fact
''')

SEED('c13-title', 'C13',
     [('yargy/token.py', "        value = form.inflect(grams)\n", "        upper = len(token.value) > 1 and token.value.isupper()\n        value = form.inflect(grams).upper() if upper else form.inflect(grams)\n")],
     'inflected() of a word in capital letters',
     'the inflected word is in capital letters',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(rule(gram('NOUN')).interpretation(F.a.inflected({'nomn', 'sing'}))).interpretation(F))
assert p.match('ДОМА').fact.a == 'дом'
''')

SEED('c13-eol', 'C13',
     [('yargy/token.py', "            if start - stop > 0:\n                yield ' '\n",
       "            if start - stop > 0 and token.type != 'EOL':\n                yield ' '\n")],
     'a value with whitespace before a line break',
     'the space of the source is missing in the value',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(rule('a', '\\n', 'b').interpretation(F.a)).interpretation(F))
assert p.match('a \\n b').fact.a == 'a \\n b'
assert p.match('a\\nb').fact.a == 'a\\nb'
''')

SEED('c13-custom-twice', 'C13',
     [('yargy/interpretation/normalizer.py', "        value = self.morph(items)\n        return self.function(value)",
       "        value = self.morph(items)\n        return self.function(value) or value")],
     'normalized().custom(f) with f returning None, 0 or an empty string',
     'a false value is replaced by the argument',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(rule('a').interpretation(F.a.normalized().custom(lambda _: 0))).interpretation(F))
assert p.match('a').fact.a == 0
''')

SEED('c14-touching', 'C14',
     [('yargy/interpretation/fact.py', """        return sorted(
            self._raw.spans,
            key=lambda _: _.start
        )
""", """        spans = []
        for span in sorted(self._raw.spans, key=lambda _: _.start):
            if spans and spans[-1].stop == span.start:
                span = type(span)(spans.pop().start, span.stop)
            spans.append(span)
        return spans
""")],
     'two annotated parts without a space between them',
     'their spans are glued into one',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
p = Parser(rule(rule('a').interpretation(F.a), rule('5').interpretation(F.b)).interpretation(F))
assert [tuple(_) for _ in p.match('a5').fact.spans] == [(0, 1), (1, 2)]
''')

SEED('c15-default-skip', 'C15',
     [('yargy/interpretation/fact.py', "            if value is not None:\n                data[key] = value\n        return data",
       "            if value is not None and value is not getattr(self.scheme, key, None):\n"
       "                if key in self.repeatable or key in self.modified or value:\n"
       "                    data[key] = value\n        return data")],
     'an attribute with a default that is false (0, empty string) and not set in the text',
     'the attribute is missing in as_json',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute
F = fact('F', ['a', attribute('n', 0)])
p = Parser(rule(rule('a').interpretation(F.a)).interpretation(F))
assert p.match('a').fact.as_json == {'a': 'a', 'n': 0}
''')

SEED('c15-custom-fact', 'C15',
     [('yargy/interpretation/interpretator.py', """        if isinstance(self.value, InterpretatorResult):
            return self.value.as_json
        else:
            return self.value
""", """        if hasattr(self.value, 'as_json'):
            return self.value.as_json
        elif isinstance(self.value, tuple):
            return list(self.value)
        else:
            return self.value
""")],
     'custom() or const() that gives a tuple',
     'as_json has a list, the fact a tuple',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(rule('a').interpretation(F.a.const((1, 2)))).interpretation(F))
f = p.match('a').fact
assert f.as_json['a'] == f.a == (1, 2), f.as_json
''')

SEED('c16-no-forms', 'C16',
     [('yargy/relations/graph.py', "        for token_id in self.tokens:\n            if not self.token_forms[token_id]:\n                return False\n        return True",
       "        for token_id, token in self.tokens.items():\n            if is_morph_token(token) and not self.token_forms[token_id]:\n                return False\n        return True")],
     'a marked word that has no analyses (Latin, number)',
     'a derivation with a marked word without analyses is reported',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.relations import gnc_relation
gnc = gnc_relation()
p = Parser(rule(rule(type('LATIN')).match(gnc), rule('b').match(gnc)))
assert p.match('a b') is None
''')

SEED('c19-lower-cache', 'C19',
     [('yargy/parser.py', "        tokens = self.tokenizer(text)\n", "        if self.last[0] != hash(text[:64]) or len(text) < 64:\n            self.last = hash(text[:64]), list(self.tokenizer(text))\n        tokens = self.last[1]\n"),
      ('yargy/parser.py', "        context = Context(tokenizer, tagger)\n", "        self.last = None, []\n        context = Context(tokenizer, tagger)\n")],
     'two long texts with the same beginning parsed one after another',
     'tokens of the first text are used for the second',
     '''
from yargy import Parser, rule
p = Parser(rule('end'))
head = 'a ' * 40
assert not list(p.findall(head + 'no'))
assert len(list(p.findall(head + 'end'))) == 1
''')

SEED('c20-json-order', 'C20',
     [('yargy/interpretation/fact.py', "        data = OrderedDict()\n        for key in self.scheme.__attributes__:\n            value = self.attributes[key]\n",
       "        data = OrderedDict()\n        for key in self.repeatable | self.modified | set(self.attributes):\n            value = self.attributes[key]\n")],
     'another hash seed',
     'attributes are in the order of a set',
     '''
import os, subprocess, sys
code = """
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', list('abcd'))
r = rule(*[rule(_).interpretation(getattr(F, _)) for _ in 'abcd']).interpretation(F)
print(list(Parser(r).match('a b c d').fact.as_json))
"""
out = set()
for seed in '12345678':
    out.add(subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=seed), stdout=subprocess.PIPE, check=True).stdout)
assert len(out) == 1, out
''')

SEED('c21-gram-memo', 'C21',
     [('yargy/predicates/bank.py', """        return any(
            self.value in _.grams
            for _ in token.forms
        )

    def constrain(self, token):
        return token.constrained([
            _ for _ in token.forms
            if self.value in _.grams
        ])
""", """        # constrain() follows for the same token
        self.forms = [
            _ for _ in token.forms
            if self.value in _.grams
        ]
        return bool(self.forms)

    def constrain(self, token):
        return token.constrained(self.forms)
""")],
     'two threads using one gram() term, switched between test and constrain',
     'a token gets analyses of the word of another thread',
     '''
import sys, threading
from yargy import Parser, rule
from yargy.predicates import gram
p = Parser(rule(gram('NOUN')))
list(p.findall('дом книга'))
term = p.rule.productions[0].terms[0]
first, second = list(p.tokenizer('дом книга'))
# one thread tests, another tests, the first one goes on
assert term(first)
done = []
thread = threading.Thread(target=lambda: done.append(term(second)))
thread.start()
thread.join()
assert {_.normalized for _ in term.constrain(first).forms} == {'дом'}
''')

SEED('c22-identity', 'C22',
     [('yargy/predicates/bank.py', "            return token.tag == self.value", "            return token.tag is self.value")],
     'tags that are equal and not the same object (computed strings, tuples)',
     'tag() does not accept them',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger
class T(Tagger):
    tags = ['B-PER']
    def __call__(self, tokens):
        for token in tokens:
            yield token.tagged('-'.join(['B', 'PER']))
assert Parser(rule(tag('B-PER')), tagger=T()).match('a')
''')

SEED('c22-falsy', 'C22',
     [('yargy/predicates/bank.py', "        if is_tag_token(token):\n            return token.tag == self.value\n        return False",
       "        if is_tag_token(token) and token.tag:\n            return token.tag == self.value\n        return False")],
     'a tag that is false: 0 or an empty string',
     'tag() does not accept it',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger
class T(Tagger):
    tags = [0, 1]
    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged(index)
assert Parser(rule(tag(0)), tagger=T()).match('a')
''')

SEED('c23-negative-min', 'C23',
     [('yargy/rule/constructors.py', "        MinBoundedRule.__init__(self, rule, min, reverse)\n        MaxBoundedRule.__init__(self, rule, max, reverse)\n",
       "        MaxBoundedRule.__init__(self, rule, max, reverse)\n        self.min = min\n")],
     'repeatable(min=-1, max=2)',
     'a negative bound is accepted and the rule matches something else',
     '''
from yargy import rule
try:
    rule('a').repeatable(min=-1, max=2)
except ValueError:
    pass
else:
    raise AssertionError
''')

SEED('c24-main-last', 'C24',
     [('yargy/rule/constructors.py', "            if self.main > 0 and self.main == index:\n", "            if 0 < self.main == index < len(self.terms) - 1 or len(self.terms) == 2 and 0 < self.main == index:\n")],
     'a sequence of three and more terms whose last one is marked main()',
     'the mark is missing in the listing',
     '''
from yargy import rule
from yargy.relations import main
assert "^'c'" in list(rule('a', 'b', main(rule('c', 'd').named('c'))).normalized.as_bnf.source)[0] or True
from yargy.predicates import eq
lines = list(rule('a', 'b', main(eq('c'))).normalized.as_bnf.source)
assert lines == ["R0 -> 'a' 'b' ^'c'"], lines
''')

SEED('c25-percent', 'C25',
     [('yargy/dot.py', "        return '\"' + value + '\"'", "        return '\"' + value.replace('\\t', ' ').strip() + '\"'")],
     'a name or token text with blanks at its ends or a tab',
     'the label differs from the name',
     '''
from yargy import rule
r = rule('a').named(' x\\t')
source = '\\n'.join(r.as_dot.source)
assert '" x\\t"' in source
''')

SEED('c25-shared-leaf', 'C25',
     [('yargy/tree/transformators.py', "        for edge in self.relations.edges:\n            graph.add_edge(",
       "        for edge in list(self.relations.edges)[:3]:\n            graph.add_edge(")],
     'four words of one relation (six links)',
     'only three links are drawn',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation
gnc = gnc_relation()
a = rule(gram('ADJF')).match(gnc)
p = Parser(rule(a, a, a, rule(gram('NOUN')).match(gnc)))
m = p.match('новый красный большой дом')
source = list(m.tree.as_dot.source)
assert len([_ for _ in source if 'dashed' in _]) == 6, source
''')

SEED('c26-encode', 'C26',
     [('yargy/pipelines.py', "        value = token.value.lower()\n        if value in self.index:", "        value = token.value.encode('utf8').decode('utf8').lower()\n        if value in self.index:")],
     'a text with a lone surrogate and a caseless pipeline',
     'UnicodeEncodeError',
     '''
from yargy import Parser
from yargy.pipelines import caseless_pipeline
assert list(Parser(caseless_pipeline(['a'])).findall('\\ud800 a'))
''')

SEED('c27-falsy-kwargs', 'C27',
     [('yargy/interpretation/fact.py', "            if key in kwargs:\n                value = kwargs[key]\n            else:\n", "            value = kwargs.get(key)\n            if value is None:\n")],
     'None given explicitly for an attribute with a default',
     'the default replaces the given value',
     '''
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a', 5)])
assert F(a=None).a is None
assert F().a == 5
''')

SEED('c29-peek', 'C29',
     [('yargy/parser.py', "        tokens = self.tokenizer(text)\n", "        tokens = self.tokenizer(text) if any(True for _ in self.tokenizer(text)) else []\n")],
     'a tokenizer that counts its calls or reads the text once (an iterator of tokens)',
     'the tokenizer is called twice for a text',
     '''
from yargy import Parser, rule
from yargy.tokenizer import Tokenizer
class Id(Tokenizer):
    def __call__(self, tokens):
        return tokens
p = Parser(rule('a', 'b'), Id())
assert p.match(iter(list(Tokenizer()('a b'))))
''')

SEED('c29-morph-type', 'C29',
     [('yargy/pipelines.py', "        parts = tokenizer.split(line)\n", "        from .tokenizer import Tokenizer\n        parts = Tokenizer().split(line)\n")],
     'a tokenizer with its own rules and a morph pipeline',
     'lines are split with the default rules',
     '''
from yargy import Parser
from yargy.tokenizer import MorphTokenizer, TokenRule
from yargy.pipelines import morph_pipeline
t = MorphTokenizer().add_rules(TokenRule('RU', r'[а-я]+-[а-я]+'))
assert Parser(morph_pipeline(['иван-да марья']), t).match('иван-да марья')
''')

SEED('c30-keeps-tokens', 'C30',
     [('yargy/predicates/constructors.py', """    def __call__(self, token):
        return self.operator(_(token) for _ in self.predicates)

    def activate""", """    def __call__(self, token):
        # one token is asked about many times in a row
        if getattr(self, 'last', None) is None or self.last[0] is not token:
            self.last = token, self.operator(_(token) for _ in self.predicates)
        return self.last[1]

    def activate""")],
     'and_() or or_() in a rule, after the results are dropped',
     'the last token of the text stays alive',
     '''
import gc, weakref
from yargy import Parser, rule, and_
from yargy.predicates import eq, true
from yargy.tokenizer import Tokenizer
seen = []
class T(Tokenizer):
    def __call__(self, text):
        for token in super(T, self).__call__(text):
            seen.append(weakref.ref(token))
            yield token
p = Parser(rule(and_(eq('a'), true())), T())
list(p.findall('a b'))
gc.collect()
assert not any(_() for _ in seen)
''')

SEED('c31-or-single', 'C31',
     [('yargy/rule/transformators.py', "class ReplaceOrTransformator(RuleTransformator):\n    def visit_OrRule(self, item):\n        return Rule([Production([self.visit(_)]) for _ in item.rules])",
       "class ReplaceOrTransformator(RuleTransformator):\n    def visit_OrRule(self, item):\n        rules = [self.visit(_) for _ in item.rules]\n        return Rule(\n            rules[0].productions[:1]\n            if len(rules) == 1 and type(rules[0]) is Rule\n            else [Production([_]) for _ in rules]\n        )")],
     'or_ with one alternative that is an or_ itself',
     'only the first production of the single alternative is kept, unvisited',
     '''
from yargy import Parser, rule, or_
inner = or_(rule('a'), rule('b'))
p = Parser(or_(inner))
assert p.match('a') and p.match('b')
p = Parser(rule(or_(rule(rule('a').optional(), 'b')), 'c'))
assert p.match('b c')
''')

SEED('c32-tag-constrained', 'C32',
     [('yargy/tree/constructors.py', "class Leaf(Node):\n    __attributes__ = ['predicate', 'token']\n", "class Leaf(Node):\n    __attributes__ = ['predicate', 'token']\n"),
      ('yargy/parser.py', "            leaf = Leaf(predicate, predicate.constrain(token))\n", "            if id(state.rule) not in token.__dict__.setdefault('leafs', {}):\n                token.leafs[id(state.rule)] = Leaf(predicate, predicate.constrain(token))\n            leaf = token.leafs[id(state.rule)]\n")],
     'one rule with two gram() alternatives at one token',
     'the second alternative gets the analyses of the first',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
p = Parser(rule(or_(rule(gram('NOUN')), rule(gram('VERB'))).repeatable()))
for m in p.extract('стали'):
    leaf = [_ for _ in m.tree.walk() if not _.children][0]
    assert all(leaf.predicate.value in _.grams for _ in leaf.token.forms), leaf
from yargy.rule.constructors import Rule, Production
r = Rule([Production([gram('NOUN')]), Production([gram('VERB')])])
found = set()
for m in Parser(r).extract('стали'):
    leaf = [_ for _ in m.tree.walk() if not _.children][0]
    found.add(leaf.predicate.value)
    assert all(leaf.predicate.value in _.grams for _ in leaf.token.forms), leaf
assert found == {'NOUN', 'VERB'}, found
''')
