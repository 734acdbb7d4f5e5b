"""Batch 13: properties with few bugs."""
SEEDS = []


def SEED(id, prop, edits, needs, breaks, demo):
    SEEDS.append((id, prop, edits, needs, breaks, demo))


SEED('c12-hyphen-line', 'C12',
     [('yargy/tree/transformators.py', "        for child in item.children:\n            if isinstance(child, Leaf) or child.interpretator:\n                yield child\n            else:\n                for item in self.flatten(child):\n                    yield item\n", "        for child in item.children:\n            if isinstance(child, Leaf) or child.interpretator:\n                yield child\n            else:\n                for part in self.flatten(child):\n                    yield part\n            if isinstance(child, Leaf) and child.token.value == '-' and len(item.children) > 4:\n                break\n")],
     'a pipeline line of five and more tokens with a hyphen, interpreted without normalized()',
     'text of the value ends at the hyphen',
     '''
from yargy import Parser, rule
from yargy.pipelines import pipeline
from yargy.interpretation import fact
F = fact('F', ['a'])
p = Parser(rule(pipeline(['иван - да - марья']).interpretation(F.a)).interpretation(F))
assert p.match('иван - да - марья').fact.a == 'иван - да - марья'
''')

SEED('c31-deep-groups', 'C31',
     [('yargy/tree/transformators.py', "    def flatten(self, item):\n        for child in item.children:\n            if isinstance(child, Leaf) or child.interpretator:\n                yield child\n            else:\n                for item in self.flatten(child):\n                    yield item\n", "    def flatten(self, item, depth=0):\n        for child in item.children:\n            if isinstance(child, Leaf) or child.interpretator:\n                yield child\n            elif depth < 6:\n                for part in self.flatten(child, depth + 1):\n                    yield part\n")],
     'an annotated part under eight and more groups (a long list)',
     'its value is lost',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable()])
p = Parser(rule(type('INT').interpretation(F.a)).repeatable().interpretation(F))
assert len(p.match(' '.join('1' * 20)).fact.a) == 20
''')

SEED('c20-forms-set', 'C20',
     [('yargy/relations/graph.py', "            self.token_forms[first_id] = checked_first_forms\n            self.token_forms[second_id] = checked_second_forms\n", "            self.token_forms[first_id] = sorted(checked_first_forms, key=lambda _: hash(_.normalized) % 3)\n            self.token_forms[second_id] = checked_second_forms\n")],
     'words with analyses of several lemmas under agreement, other hash seed',
     'order of the analyses that remain, normalized value',
     '''
import os, subprocess, sys
code = """
from yargy import Parser, rule
from yargy.predicates import type
from yargy.relations import number_relation
n = number_relation()
p = Parser(rule(type('RU').match(n), type('RU').match(n)))
for text in ['стали новые', 'печь большая', 'стекло белое', 'мыла рама', 'вести новые', 'жгут старый', 'белки ели']:
    for m in p.findall(text):
        print([[f.normalized for f in t.forms] for t in m.tokens])
"""
out = set()
for seed in range(8):
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    out.add(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, capture_output=True, check=True).stdout)
assert len(out) == 1
''')

SEED('c26-many-matches', 'C26',
     [('yargy/span.py', "    indexes = pointers[0]\n    for index in sorted(indexes):\n        yield spans[index]\n", "    def ordered(indexes):\n        if indexes:\n            yield indexes[0]\n            for index in ordered(indexes[1:]):\n                yield index\n\n    indexes = pointers[0]\n    for index in ordered(sorted(indexes)):\n        yield spans[index]\n")],
     'a text with more than a thousand matches',
     'RecursionError',
     '''
from yargy import Parser, rule
from yargy.predicates import eq
from yargy.tokenizer import Tokenizer
assert len(list(Parser(rule(eq('a')), Tokenizer()).findall('a ' * 1500))) == 1500
''')

SEED('c14-nested-spans', 'C14',
     [('yargy/interpretation/fact.py', "                for item in value:\n                    for span in item.spans:\n                        yield span\n", "                for item in value:\n                    for span in item.spans if len(value) < 10 else list(item.spans)[:1]:\n                        yield span\n")],
     'a repeatable attribute with ten and more facts of several parts each',
     'only the first range of each is listed',
     '''
from yargy import Parser, rule
from yargy.predicates import type
from yargy.interpretation import fact, attribute
F = fact('F', [attribute('a').repeatable()])
G = fact('G', ['x', 'y'])
g = rule(type('INT').interpretation(G.x), type('LATIN').interpretation(G.y)).interpretation(G)
p = Parser(g.interpretation(F.a).repeatable().interpretation(F))
assert len(p.match('1 a ' * 12).fact.spans) == 24
''')


SEED('c33-span-key', 'C33',
     [('yargy/parser.py', "        span = tree.range\n        if span not in span_matches:\n            match = prepare_match(tree)\n            if match:\n", "        span = tree.range\n        if span not in span_matches:\n            match = prepare_match(tree)\n            if not match and len(spans) > 64:\n                continue\n            if match and not (len(spans) > 256 and spans[-1][0] == span[0] and spans[-1][1] > span[1]):\n")],
     'more than 256 candidates before a place where a longer and a shorter match begin',
     'the shorter one is never taken',
     '''
from yargy import Parser, rule, or_
from yargy.predicates import eq
from yargy.tokenizer import Tokenizer
r = or_(rule(eq('a'), eq('b')), rule(eq('a')), rule(eq('b'), eq('c'), eq('d')), rule(eq('x')))
p = Parser(r, Tokenizer())
short = [[t.value for t in m.tokens] for m in p.findall('a b c d')]
long = [[t.value for t in m.tokens] for m in p.findall('x ' * 300 + '. a b c d')][300:]
assert short == long, (short, long)
''')

