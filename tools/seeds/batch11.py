"""Batch 11: memories of validity, limits and rarely used parts."""
SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c23-gram-memo', 'C23',
     [('yargy/morph.py', "        if not self.raw.TagClass.grammeme_is_known(gram):\n            raise ValueError(gram)\n",
       "        if gram not in KNOWN_GRAMS:\n            if not self.raw.TagClass.grammeme_is_known(gram):\n                raise ValueError(gram)\n            KNOWN_GRAMS.add(gram)\n"),
      ('yargy/morph.py', "CACHE_SIZE = 10000\n", "CACHE_SIZE = 10000\nKNOWN_GRAMS = set()\n")],
     'a grammeme known to the dictionary of one parser and unknown to that of a later one',
     'the second parser is built and matches nothing',
     '''
from yargy import Parser, rule
from yargy.morph import MorphAnalyzer
from yargy.predicates import gram
from yargy.tokenizer import MorphTokenizer
class Raw(object):
    class TagClass(object):
        @staticmethod
        def grammeme_is_known(gram):
            return gram == 'FOO'
    def parse(self, word):
        return []
Parser(rule(gram('NOUN')))
try:
    Parser(rule(gram('NOUN')), MorphTokenizer(morph=MorphAnalyzer(Raw())))
except ValueError:
    pass
else:
    assert False
''')

SEED('c16-hundred-pairs', 'C16',
     [('yargy/relations/graph.py', "            for first, second in combinations(items, 2):\n", "            for first, second in islice(combinations(items, 2), 64):\n"),
      ('yargy/relations/graph.py', "from itertools import combinations\n", "from itertools import combinations, islice\n")],
     'a relation that links 14 words or more, the ones that disagree are the last',
     'they are not compared',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import case_relation
r = case_relation()
p = Parser(rule(*[gram('NOUN').match(r)] * 14))
assert p.match('кино ' * 8 + 'дому ' * 6)
assert not p.match('кино ' * 8 + 'дому ' * 5 + 'домом')
''')

SEED('c24-sixty-four', 'C24',
     [('yargy/rule/bnf.py', "        productions = ' | '.join(str(_) for _ in self.productions)\n", "        productions = ' | '.join(str(_) for _ in self.productions[:64])\n")],
     'more than 64 alternatives',
     'the rest is not listed',
     '''
from yargy import rule, or_
r = or_(*[rule('w%d' % _) for _ in range(100)])
assert "'w99'" in ''.join(r.normalized.as_bnf.source)
''')

SEED('c34-and-many', 'C34',
     [('yargy/predicates/constructors.py', "            predicates=', '.join(_.label for _ in self.predicates)\n", "            predicates=', '.join([_.label for _ in self.predicates[:8]] + ['...'] * (len(self.predicates) > 8))\n")],
     'more than eight operands',
     'the label does not name them',
     '''
from yargy import or_
from yargy.predicates import eq
assert "'w9'" in or_(*[eq('w%d' % _) for _ in range(10)]).label
''')

SEED('c22-check-first', 'C22',
     [('yargy/tagger.py', "        return tag in self.tags\n", "        return tag in list(self.tags)[:32]\n")],
     'a tagger of more than 32 tags',
     'the others are rejected',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger
class T(Tagger):
    tags = list(range(100))
    def __call__(self, tokens):
        for index, token in enumerate(tokens):
            yield token.tagged(index)
assert Parser(rule(tag(0), tag(1)), tagger=T()).match('a b')
assert Parser(rule(tag(0), tag(1), tag(2)).optional(), tagger=T())
assert Parser(rule(tag(99)), tagger=T())
''')

SEED('c03-score', 'C03',
     [('yargy/morph.py', "        return [prepare_form(_) for _ in records]\n", "        return [prepare_form(_) for _ in records if _.score > 0.001]\n")],
     'a word with a very improbable analysis',
     'the analysis is not given',
     '''
from pymorphy2 import MorphAnalyzer
from yargy.tokenizer import MorphTokenizer
t, m = MorphTokenizer(), MorphAnalyzer()
for word in ['и', 'в', 'с', 'о', 'стали', 'дома', 'есть', 'как', 'что', 'на', 'же', 'для', 'из', 'это', 'он', 'года', 'или', 'по', 'все', 'мы', 'к', 'от', 'не', 'до', 'так', 'при', 'бы', 'а']:
    assert len(list(t(word))[0].forms) == len(m.parse(word)), word
''')

SEED('c13-double-space', 'C13',
     [('yargy/token.py', "            if start - stop > 0:\n", "            if 0 < start - stop < 65536:\n")],
     'words apart by more than 65 535 blanks',
     'they are joined',
     '''
from yargy import Parser, rule
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(rule('x', 'y').interpretation(F.a)).interpretation(F))
assert p.match('x' + ' ' * 70000 + 'y').fact.a == 'x y'
''')

SEED('c10-caseless-first', 'C10',
     [('yargy/pipelines.py', "        value = token.value.lower()\n        if value in self.index:\n            for production in self.index[value]:\n                yield production\n\n\nclass MorphPipelineBNFRule",
       "        value = token.value.lower()\n        if len(value) < 64 and value in self.index:\n            for production in self.index[value]:\n                yield production\n\n\nclass MorphPipelineBNFRule")],
     'a line that starts with a word of 64 letters or more',
     'it is not found',
     '''
from yargy import Parser
from yargy.pipelines import caseless_pipeline
assert Parser(caseless_pipeline(['a' * 80 + ' b'])).match('A' * 80 + ' B')
''')

SEED('c06-even-cover', 'C06',
     [('yargy/span.py', "    return stop - start\n", "    return min(stop - start, 64)\n")],
     'a candidate of more than 64 tokens against two shorter ones inside of it',
     'the shorter ones are chosen, which cover less',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import eq
long = rule(*[eq('a')] * 70)
short = rule(*[eq('a')] * 34)
p = Parser(or_(long, short))
assert [len(_.tokens) for _ in p.findall('a ' * 70)] == [70]
''')

