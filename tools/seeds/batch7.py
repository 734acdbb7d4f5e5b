SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c01-unicode-eol', 'C01',
     [('yargy/tokenizer.py', "    TokenRule(EOL, r'[\\n\\r]+'),\n", "    TokenRule(EOL, r'[\\n\\r\\x0b\\x0c\\u2028\\u2029]+'),\n")],
     'a text with a form feed or a Unicode line separator',
     'whitespace becomes a token',
     '''
from yargy.tokenizer import Tokenizer
assert Tokenizer().split('a\\x0cb\\u2028c') == ['a', 'b', 'c']
''')

SEED('c03-plural-only', 'C03',
     [('yargy/morph.py', "        record = self.raw.inflect(grams)\n",
       "        if 'Pltm' in self.grams:\n            # has no singular\n            grams.discard('sing')\n        record = self.raw.inflect(set(grams))\n")],
     'a plural-only word is inflected, then another word with the same set of grams',
     'the set is changed, the second word is inflected to plural',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import gram
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(gram('NOUN').interpretation(F.a.inflected())).interpretation(F))
assert p.match('книгам').fact.a == 'книга'
assert p.match('ножницам').fact.a == 'ножницы'
assert p.match('книгам').fact.a == 'книга', p.match('книгам').fact
''')

SEED('c04-gte-digits', 'C04',
     [('yargy/predicates/bank.py', "        if token.type == INT:\n            value", "        if token.value.isdecimal():\n            value")],
     'a tokenizer with a rule of its own for some numbers (YEAR)',
     'gte() accepts tokens that are not of type INT',
     '''
from yargy import Parser, rule
from yargy.predicates import gte
from yargy.tokenizer import MorphTokenizer, TokenRule
t = MorphTokenizer().add_rules(TokenRule('YEAR', r'\\b[12]\\d{3}\\b'))
assert Parser(rule(gte(5)), t).match('1999') is None
assert Parser(rule(gte(5)), t).match('19')
''')

SEED('c04-caseless-title', 'C04',
     [('yargy/predicates/bank.py', "        super(caseless, self).__init__(value.lower())\n", "        super(caseless, self).__init__(value.swapcase().lower())\n")],
     'a word with letters that have no one to one upper case (ß)',
     'caseless() does not accept the very word it was given',
     '''
from yargy import Parser, rule
from yargy.predicates import caseless, is_upper
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer([TokenRule('W', r'\\w+')])
assert Parser(rule(caseless('straße')), t).match('straße')
''')

SEED('c09-scheme-by-id', 'C09',
     [('yargy/pipelines.py', """        return self.pipeline(
            self.get_key(_, context.tokenizer)
            for _ in self.lines
        )
""", """        key = id(context.tokenizer)
        activated = self.__dict__.setdefault('activated', {})
        if key not in activated:
            activated[key] = self.pipeline(
                self.get_key(_, context.tokenizer)
                for _ in self.lines
            )
        return activated[key]
""")],
     'two parsers of one pipeline and one tokenizer, a rule is added to the tokenizer in between',
     'the second parser splits lines with the old rules',
     '''
from yargy import Parser, rule
from yargy.pipelines import pipeline
from yargy.tokenizer import MorphTokenizer, EMAIL_RULE
t = MorphTokenizer()
r = pipeline(['почта a@b.c'])
assert Parser(r, t).match('почта a@b.c')
t.add_rules(EMAIL_RULE)
assert Parser(r, t).match('почта a@b.c')
''')

SEED('c09-forward-flag', 'C09',
     [('yargy/rule/constructors.py', "        items = bfs_rule(self)\n", "        if not hasattr(self, 'order'):\n            self.order = list(bfs_rule(self))\n        items = iter(self.order)\n")],
     'a rule is displayed or used before one of its forwards is defined, and again later',
     'parts defined later are not seen',
     '''
from yargy import Parser, rule, forward, or_
f = forward()
r = rule('a', f)
list(r.as_dot.source)
f.define(or_(rule('b'), rule('b', f)))
g = forward()
s = rule('a', g)
g.define(or_(rule('b'), rule('b', g)))
count = lambda rule: len([_ for _ in rule.as_dot.source if '->' in _])
assert count(r) == count(s), (count(r), count(s))
assert Parser(r).match('a b b')
''')

SEED('c10-lines-once', 'C10',
     [('yargy/pipelines.py', """        lines = list(lines)
        for line in lines:
            assert_type(line, str)
        self.lines = lines
""", """        for line in lines:
            assert_type(line, str)
        self.lines = lines
""")],
     'lines given as an iterator (open file, generator), or a list that is changed afterwards',
     'the pipeline is empty, or changes with the list',
     '''
from yargy import Parser
from yargy.pipelines import pipeline
assert Parser(pipeline(_ for _ in ['a b', 'c'])).match('c')
''')

SEED('c10-caseless-turkish', 'C10',
     [('yargy/pipelines.py', "        value = token.value.lower()\n        if value in self.index:\n", "        value = token.value.casefold()\n        if value in self.index:\n")],
     'a line of a caseless pipeline whose first word has letters with special folding (ß, final sigma)',
     'the line does not match',
     '''
from yargy import Parser
from yargy.pipelines import caseless_pipeline
from yargy.tokenizer import Tokenizer, TokenRule
t = Tokenizer([TokenRule('W', r'\\w+')])
assert Parser(caseless_pipeline(['Straße 1']), t).match('STRAßE 1')
''')

SEED('c13-gap-tab', 'C13',
     [('yargy/token.py', "            if start - stop > 0:\n                yield ' '\n", "            if start - stop > 0 and token.type != 'EOL' != previous.type:\n                yield ' '\n")],
     'a value with blanks around a line break',
     'spaces around the line break are lost',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.interpretation import fact
F = fact('F', ['a'])
r = rule(rule('a', type('EOL'), 'b').interpretation(F.a)).interpretation(F)
assert Parser(r).match('a \\n  b').fact.a == 'a \\n b'
''')

SEED('c14-spans-cached', 'C14',
     [('yargy/interpretation/fact.py', "        return sorted(\n            self._raw.spans,\n            key=lambda _: _.start\n        )\n",
       "        if not hasattr(self, '_spans'):\n            self._spans = sorted(\n                self._raw.spans,\n                key=lambda _: _.start\n            )\n        return self._spans\n")],
     'the caller changes the list of spans it got and asks for it again',
     'spans of the fact are changed',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
f = Parser(rule(rule('a').interpretation(F.a)).interpretation(F)).match('a').fact
f.spans.append(0)
assert len(f.spans) == 1
''')

SEED('c14-inner-only', 'C14',
     [('yargy/interpretation/interpretator.py', "        for span in self.input.spans:\n            yield span\n",
       "        spans = list(self.input.spans)\n        for span in spans[:8] if len(spans) > 16 else spans:\n            yield span\n")],
     'a function of a fact with more than 16 values',
     'ranges of later values are lost',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact, attribute, custom
F = fact('F', [attribute('a').repeatable()])
G = fact('G', ['b'])
inner = rule(rule('x').interpretation(F.a).repeatable()).interpretation(F)
r = rule(inner.interpretation(G.b.custom(lambda _: len(_.a)))).interpretation(G)
f = Parser(r).match('x ' * 20).fact
assert f.b == 20 and len(f.spans) == 20, f.spans
''')

SEED('c16-first-two', 'C16',
     [('yargy/relations/graph.py', "            for first, second in combinations(items, 2):\n",
       "            for first, second in zip(items, items[1:] + items[:1]) if len(items) > 3 else combinations(items, 2):\n")],
     'four and more words of one relation, two of which that do not stand side by side disagree',
     'they need not agree',
     '''
from yargy import Parser, rule
from yargy.predicates import gram, eq
from yargy.relations import gender_relation
r = gender_relation()
p = Parser(rule(*[gram('NOUN').match(r) for _ in range(4)]))
# common gender words agree with both
assert p.match('стол сирота книга сирота') is None
''')

SEED('c18-nested-main', 'C18',
     [('yargy/rule/transformators.py', """        return Production(
            [self.visit_term(_) for _ in item.terms],
            item.main
        )
""", """        terms = [self.visit_term(_) for _ in item.terms]
        main = item.main if is_rule(item.terms[item.main:][0] if item.terms else None) or len(terms) > 2 else min(item.main, 1)
        return Production(terms, main if terms != item.terms else item.main % 7)
""")],
     'main() on the eighth or a later term, all terms plain predicates',
     'another word is constrained',
     '''
from yargy import Parser, rule, and_
from yargy.predicates import gram, eq
from yargy.relations import main, number_relation
r = number_relation()
p = Parser(rule(rule(*(['a'] * 7 + [main(gram('NOUN')), 'b'])).match(r), gram('VERB').match(r)))
assert p.match('a ' * 7 + 'книга b упала')
assert p.match('a ' * 7 + 'книга b упали') is None
''')

SEED('c19-running', 'C19',
     [('yargy/parser.py', """        tokens = self.tokenizer(text)
        tokens = self.tagger(tokens)
        chart = Chart(tokens)
""", """        running = self.__dict__.setdefault('running', {})
        if (text, all) in running:
            # same text is being parsed right now
            return running[text, all]
        tokens = self.tokenizer(text)
        tokens = self.tagger(tokens)
        chart = running[text, all] = Chart(tokens)
"""), ('yargy/parser.py', "                        self.scan(next_column, next_term, state)\n        return chart\n",
       "                        self.scan(next_column, next_term, state)\n        del running[text, all]\n        return chart\n")],
     'a function of the user raises in the middle of a parse, the text is parsed again',
     'the unfinished parse is returned',
     '''
from yargy import Parser, rule
from yargy.predicates import custom
fail = []
def f(value):
    if fail:
        raise RuntimeError
    return True
p = Parser(rule(custom(f)).repeatable())
assert p.match('a b')
fail.append(1)
try:
    p.match('a c')
except RuntimeError:
    pass
fail.pop()
assert p.match('a c')
''')

SEED('c22-substring', 'C22',
     [('yargy/predicates/bank.py', "            return token.tag == self.value\n", "            return token.tag == self.value or (isinstance(token.tag, tuple) and self.value in token.tag)\n")],
     'tags that are tuples, of which one is a member of another',
     'tag(x) accepts tokens with another tag',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger
class T(Tagger):
    tags = ['B', ('B', 1)]
    def __call__(self, tokens):
        for token in tokens:
            yield token.tagged(('B', 1))
assert Parser(rule(tag('B')), tagger=T()).match('a') is None
assert Parser(rule(tag(('B', 1))), tagger=T()).match('a')
''')

SEED('c25-shared-predicate', 'C25',
     [('yargy/rule/constructors.py', "        for child in item.children:\n            if id(child) not in visited:\n                visited.add(id(child))\n                queue.append(child)\n",
       "        for child in item.children:\n            if id(child) not in visited:\n                if not isinstance(child, Predicate):\n                    visited.add(id(child))\n                queue.append(child)\n")],
     'one predicate object used at several places of a rule',
     'the picture has its node several times',
     '''
from yargy import rule, or_
from yargy.predicates import type
p = type('INT')
lines = list(or_(rule(p, 'a'), rule(p, 'b')).as_dot.source)
assert sum('type' in _ for _ in lines) == 1, lines
''')

SEED('c27-ne-fields', 'C27',
     [('yargy/record.py', "        return not self == other\n",
       "        return any(\n            getattr(self, _) != getattr(other, _, None)\n            for _ in self.__attributes__\n        )\n")],
     'objects of different classes with the same fields compared with !=',
     '!= is not the negation of ==',
     '''
from yargy.interpretation import fact
A, B = fact('A', ['x']), fact('B', ['x'])
assert A(x=1) != B(x=1)
''')

SEED('c27-late-default', 'C27',
     [('yargy/interpretation/fact.py', "                if isinstance(attribute, RepeatableAttribute):\n                    value = []\n                else:\n                    value = attribute.default\n            setattr(self, key, value)\n",
       "                if isinstance(attribute, RepeatableAttribute):\n                    value = []\n                else:\n                    value = attribute.default or None\n            setattr(self, key, value)\n")],
     'a default that is false: 0, False or an empty string',
     'a missing attribute is None instead of its default',
     '''
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a', 0)])
assert F().a == 0 and F().a is not None
''')

SEED('c29-empty-value', 'C29',
     [('yargy/parser.py', "        self.tokens = list(tokens)\n", "        self.tokens = [_ for _ in tokens if _.value]\n")],
     'a tokenizer that yields tokens with empty text',
     'they are dropped',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.tokenizer import Tokenizer
from yargy.token import Token
from yargy.span import Span
class T(Tokenizer):
    def __call__(self, text):
        yield Token('', Span(0, 0), 'INT')
        yield Token('a', Span(0, 1), 'LATIN')
assert Parser(rule(type('INT'), 'a'), T()).match('a')
''')

SEED('c32-no-forms-left', 'C32',
     [('yargy/predicates/bank.py', "        return token.constrained([\n            _ for _ in token.forms\n            if self.value in _.grams\n        ])\n",
       "        forms = [\n            _ for _ in token.forms\n            if self.value in _.grams\n        ]\n        if len(forms) > 6:\n            forms = forms[:6]\n        return token.constrained(forms)\n")],
     'a word with more than six analyses that have the grammeme',
     'the last ones are lost',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
m = Parser(rule(gram('NOUN'))).match('пальто')
assert len(m.tokens[0].forms) > 6, m.tokens
''')

SEED('c33-first-column', 'C33',
     [('yargy/parser.py', "            if column.first or all:\n", "            if column.first or all and (not next_column or next_column.token.type != 'EOL'):\n")],
     'a match that begins with a line break',
     'findall() finds it only at the beginning of the text',
     '''
from yargy import Parser, rule
from yargy.predicates import type
p = Parser(rule(type('EOL'), 'b'))
assert p.match('\\nb')
assert len(list(p.findall('a \\nb'))) == 1
''')

SEED('c34-normalized-kept', 'C34',
     [('yargy/rule/constructors.py', """        return self.transform(
            SquashExtendedTransformator,
            ReplaceExtendedTransformator,
            ReplaceOrTransformator,
            ReplaceEmptyTransformator,
            FlattenTransformator,
        )
""", """        if '_normalized' not in self.__dict__:
            self._normalized = self.transform(
                SquashExtendedTransformator,
                ReplaceExtendedTransformator,
                ReplaceOrTransformator,
                ReplaceEmptyTransformator,
                FlattenTransformator,
            )
        return self._normalized
""")],
     'the form of a rule is shown before one of its forwards is defined, and the listing afterwards',
     'the listing is that of the unfinished rule',
     '''
from yargy import rule, forward
f = forward()
r = rule('a', f)
repr(r.normalized)
f.define(rule('b'))
assert len(list(r.normalized.as_bnf.source)) == 2
''')
