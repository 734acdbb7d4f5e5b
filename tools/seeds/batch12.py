"""Batch 12: clauses of the statements that nothing was planted for."""
SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c12-combined', 'C12',
     [('yargy/interpretation/interpretator.py', "            value = Chain(items, input.key)\n        elif len(items) == 1:\n            item = items[0]\n            if isinstance(item, AttributeResult):\n",
       "            value = Chain(items, input.key)\n        elif len(items) == 1 or all(isinstance(_, AttributeResult) for _ in items):\n            item = items[-1]\n            if isinstance(item, AttributeResult):\n")],
     'an attribute on a part with two annotated parts and no plain tokens',
     'the last of them is taken instead of TypeError',
     '''
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.interpretation import fact
F = fact('F', ['a', 'b', 'c'])
r = rule(rule(eq('x').interpretation(F.a), eq('y').interpretation(F.b)).interpretation(F.c)).interpretation(F)
try:
    Parser(r).match('x y').fact
except TypeError:
    pass
else:
    assert False
''')

SEED('c25-dashed-neighbours', 'C25',
     [('yargy/tree/transformators.py', "        for edge in self.relations.edges:\n", "        for edge in {id(_.second): _ for _ in self.relations.edges}.values():\n")],
     'three parts marked with one relation',
     'the second and the third are not joined',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import gnc_relation
g = gnc_relation()
m = Parser(rule(gram('ADJF').match(g), gram('ADJF').match(g), gram('NOUN').match(g))).match('красивый новый дом')
assert sum('dashed' in _ for _ in m.tree.as_dot.source) == 3
''')

SEED('c22-composition-known', 'C22',
     [('yargy/tagger.py', "        return any(\n            _.check_tag(tag)\n            for _ in self.taggers\n        )\n",
       "        return tag in {\n            _\n            for tagger in self.taggers\n            for _ in tagger.tags\n        }\n")],
     'a composition of taggers inside of a composition, or a tagger with check_tag of its own',
     'its tags are unknown',
     '''
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, TaggersComposition
class A(Tagger):
    tags = ['A']
    def __call__(self, tokens):
        for _ in tokens:
            yield _.tagged('A')
t = TaggersComposition([TaggersComposition([A()])])
assert Parser(rule(tag('A')), tagger=t).match('x')
''')

SEED('c16-constrain-first', 'C16',
     [('yargy/relations/graph.py', "            return token.constrained(forms)\n", "            return token if forms[0] is token.forms[0] else token.constrained(forms)\n")],
     'a linked word whose first analysis agrees and a later one does not',
     'all analyses are kept',
     '''
from yargy import Parser, rule
from yargy.predicates import gram
from yargy.relations import case_relation
c = case_relation()
from yargy.predicates import type
m = Parser(rule(type('RU').match(c), type('RU').match(c))).match('дом стоял')
for text in ['дом новый', 'стол дом', 'красное окно', 'новому дому', 'дома окна', 'мать дочь']:
    m = Parser(rule(type('RU').match(c), type('RU').match(c))).match(text)
    if m:
        a, b = m.tokens
        for f in a.forms:
            assert any(c(f, g) for g in b.forms), (text, f)
        for f in b.forms:
            assert any(c(g, f) for g in a.forms), (text, f)
''')

SEED('c05-states-alias', 'C05',
     [('yargy/parser.py', "        return self.start_column.states_index[id(self.rule)]\n", "        return self.start_column.states_index.get(id(self.rule), [])[:self.start_column.index * 4 + 64]\n")],
     'more than 64 states wait for one rule at the beginning of a text',
     'the rest never continues',
     '''
from yargy import Parser, rule, or_
X = rule('x').named('X')
alts = [rule(X, str(_)) for _ in range(100)]
p = Parser(or_(*alts))
assert p.match('x 99') and p.match('x 0')
''')


SEED('c07-leaf-node', 'C07',
     [('yargy/tree/constructors.py', "                if is_leaf(a):  # b is also leaf\n                    continue\n",
       "                if is_leaf(a) or a.interpretator:\n                    continue\n")],
     'readings that differ only inside of an annotated part',
     'the order of finding decides which is taken',
     """
from yargy import Parser, rule, or_
from yargy.predicates import true
from yargy.interpretation import fact
F = fact('F', ['a', 'b'])
def shape(match):
    return [_.label for _ in match.tree.walk()]
for one in (True, False):
    for two in (True, False):
        part = rule(rule(true()).named('one').optional(reverse=one), rule(true()).named('two').optional(reverse=two))
        plain = Parser(rule(rule(rule('q'), part, rule('w').optional()), rule('w').optional()))
        noted = Parser(rule(rule(rule('q'), part.interpretation(F.a), rule('w').optional()), rule('w').optional()).interpretation(F))
        for text in ['q x', 'q x w', 'q x y', 'q']:
            a, b = plain.match(text), noted.match(text)
            assert ('one' in shape(a), 'two' in shape(a)) == ('one' in shape(b), 'two' in shape(b)), (one, two, text)
for flag in (True, False):
    def make(note):
        part = or_(rule(rule(true(), true()).named('pair').optional(reverse=flag), true().optional(), rule(true()).named('one').repeatable(reverse=flag)))
        return Parser(rule(rule('q'), part.interpretation(F.a) if note else part).interpretation(F))
    for size in range(1, 6):
        text = 'q' + ' x' * size
        assert [_ for _ in shape(make(False).match(text)) if _ in ('pair', 'one')] == [_ for _ in shape(make(True).match(text)) if _ in ('pair', 'one')], (flag, size)
""")

SEED('c28-annotated-hash', 'C28',
     [('yargy/parser.py', "            tuple(id(_) for _ in self.node.children)\n", "            self.rule.interpretator is None and tuple(id(_) for _ in self.node.children)\n")],
     'an annotated part that can be derived in several ways on one range',
     'only the first of them is enumerated',
     '''
from yargy import Parser, rule, or_
from yargy.interpretation import fact
F = fact('F', ['a'])
part = or_(rule(or_(rule('x').named('A'), rule('x').named('B')), 'y'))
assert len(list(Parser(part).extract('x y'))) == 2
assert len(list(Parser(rule(part.interpretation(F.a)).interpretation(F)).extract('x y'))) == 2
''')

SEED('c21-tagger-queue', 'C21',
     [('yargy/tagger.py', "        for tagger in self.taggers:\n            tokens = tagger(tokens)\n        return tokens\n", "        self.queue = list(self.taggers)\n        while self.queue:\n            tokens = self.queue.pop(0)(tokens)\n        return tokens\n")],
     'a composition of taggers used from two threads at once',
     'taggers are skipped for one of the texts, or called twice',
     '''
import threading, time
from yargy import Parser, rule
from yargy.predicates import tag
from yargy.tagger import Tagger, TaggersComposition
class A(Tagger):
    tags = ['A', 'B']
    def __init__(self, name):
        self.name = name
    def __call__(self, tokens):
        tokens = list(tokens)
        time.sleep(0.002)
        return [_.tagged(self.name) for _ in tokens]
p = Parser(rule(tag('B')), tagger=TaggersComposition([A('A'), A('A'), A('B')]))
bad = []
def work():
    for _ in range(30):
        if len(list(p.findall('a b'))) != 2:
            bad.append(_)
threads = [threading.Thread(target=work) for _ in range(4)]
[_.start() for _ in threads]
[_.join() for _ in threads]
assert not bad
''')
