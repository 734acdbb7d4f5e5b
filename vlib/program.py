"""Child of C20: random programs, their results printed one per line.

usage: python -m vlib.program SEED FIRST COUNT DISTURBANCE
"""
import gc
import hashlib
import json
import random
import sys

from . import ref, words, pipes
from .run import Skip, through_yargy
from .gram import (
    Pred, Term, Seq, Or, Opt, Rep, Named, Interp, Rel, RelSpec, Fwd, Pipe, Derivations, build, walk, Builder
)
from .gen import Grammars, literal_texts, defined
from .facts import FactRules, texts
from .interp import FactSpec, ISpec
from .common import text_of
from .observe import outcome, call


class Junk(object):
    def __init__(self, rng, number):
        self.items = [object() for _ in range(rng.randint(0, number))]
        self.data = {str(_): [_] for _ in range(rng.randint(0, 50))}


def disturb(kind, number, state):
    """Objects come and go, so that addresses and gc differ"""
    if kind == 0:
        return
    rng = random.Random('%s/%s' % (kind, number))
    state.append(Junk(rng, 400))
    if rng.random() < 0.5 and state:
        del state[rng.randrange(len(state))]
    if kind % 3 == 1:
        gc.collect()
    elif kind % 3 == 2:
        gc.disable()
    if kind > 1 and rng.random() < 0.3:
        # unrelated rules and parsers
        from yargy import Parser, rule, or_, forward
        from yargy.predicates import gram
        from yargy.pipelines import morph_pipeline
        from .common import morph_tokenizer
        other = Parser(or_(rule(gram('NOUN')), morph_pipeline(['красный дом', 'дом'])).named('X'), morph_tokenizer())
        state.append((other, list(other.findall('красный дом и стол'))))


class Blocks(object):
    def __init__(self, size):
        for index in range(size):
            setattr(self, 'a%d' % index, index)


def shuffle_heap(rng):
    """Free memory blocks are reused in random order, so addresses of objects
    created next are not in order of creation"""
    items = [
        make() for make in (
            object, list, dict, set, lambda: [None], lambda: Blocks(1), lambda: Blocks(2),
            lambda: Blocks(4), lambda: Blocks(6), lambda: (None, None), lambda: {1: 2}
        )
        for _ in range(400)
    ]
    kept = items[::7]
    rng.shuffle(items)
    while items:
        items.pop()
    return kept


class ShuffledBuilder(Builder):
    """Every object of the rule is built a few times, any of them is used"""
    def __init__(self, rng):
        super(ShuffledBuilder, self).__init__()
        self.rng = rng
        self.spare = []

    def make(self, node):
        make = super(ShuffledBuilder, self).make
        made = [make(node) for _ in range(3)]
        self.spare.append(made)
        return self.rng.choice(made)


def relations(root, rng):
    """Relation objects at random addresses"""
    for node in walk(root):
        if isinstance(node, Rel) and node.relation._built is None:
            pool = []
            for _ in range(6):
                node.relation._built = None
                pool.append(node.relation.build())
            node.relation._built = rng.choice(pool)
            node.relation.pool = pool


def stable(value):
    """Sets are unordered"""
    if isinstance(value, (set, frozenset)):
        return ('set',) + tuple(sorted(map(repr, value)))
    if isinstance(value, (list, tuple)):
        return tuple(stable(_) for _ in value)
    return value


def digest(value):
    value = stable(value)
    return hashlib.blake2b(repr(value).encode('utf8', 'backslashreplace'), digest_size=8).hexdigest()


def listings(rule, parser=None):
    result = [tuple(rule.as_dot.source)]
    if not any(hasattr(_, 'pipeline') for _ in rule.walk()):
        result.append(tuple(rule.normalized.as_bnf.source))
        result.append(tuple(rule.normalized.as_dot.source))
    if parser is not None:
        result.append(tuple(parser.rule.as_bnf.source))
        result.append(tuple(parser.rule.as_dot.source))
    return result


def annotated(rng):
    rules = FactRules(rng, relations=rng.choice([0, 0.3]))
    root = rules.root(rng.choice([1, 2]))
    return root, texts(rng, root, 3), ('match', 'findall', 'extract')


def plain(rng):
    grammars = Grammars(rng, [Term(Pred('eq', _)).pred for _ in 'ab'], depth=3, share=0.25, forward=0.2, named=0.1)
    root = grammars.root()
    return root, [text_of(_) for _ in literal_texts(rng, root, 'ab', 3, 5)], ('match', 'findall', 'extract')


def morph(rng):
    """Sets everywhere: dictionaries, pipelines, grammemes"""
    F = FactSpec('F', [('a', None, False), ('b', None, False), ('r', None, True)])

    def part():
        x = rng.random()
        if x < 0.4:
            node = pipes.pipe(rng, ['morph', 'morph', 'caseless', ''])
        elif x < 0.6:
            items = frozenset(rng.sample(words.WORDS, 6))
            node = Term(Pred(rng.choice(['dictionary', 'in_', 'in_caseless']), items))
        else:
            node = Term(Pred('gram', rng.choice(['NOUN', 'ADJF', 'VERB', 'sing', 'Name'])))
        chain = rng.choice([
            [('normalized',)], [], [('inflected', frozenset({'nomn', 'plur'}))],
            [('inflected', frozenset({'gent', 'sing', 'NOUN'}))], [('inflected', None)],
        ])
        if rng.random() < 0.6:
            node = Rel(node, relation) if not isinstance(node, Pipe) or rng.random() < 0.5 else node
        if rng.random() < 0.3:
            if rng.random() < 0.5:
                return Interp(node, ISpec('attr', F, rng.choice('ab'), chain))
            return Interp(node, ISpec('attr', F, rng.choice('abr')))
        node = Interp(node, ISpec('norm', chain=chain or [('normalized',)]))
        return Interp(node, ISpec('attr', F, rng.choice('abr')))

    relation = RelSpec(rng.choice(['gnc', 'number', 'case', 'gender']))
    items = [Seq([part() for _ in range(rng.randint(1, 2))]) for _ in range(rng.randint(1, 3))]
    root = Interp(Seq([Or(items)]), ISpec('fact', F))
    used = [_ for _ in walk(root) if isinstance(_, Pipe)]
    made = [pipes.text(rng, used, 2) if used else '' for _ in range(2)]
    made.append(words.sentence(rng, 6, words.WORDS))
    made.append(words.sentence(rng, 6, words.AMBIGUOUS, tight=0))
    return root, made, ('match', 'findall', 'extract')


def related(rng):
    """Several relations, links of words cross each other"""
    size = rng.randint(2, 5)
    relations = [RelSpec(kind) for kind in rng.sample(['gnc', 'number', 'case', 'gender', 'number'], rng.randint(2, 3))]
    items = []
    for index in range(size):
        node = Term(Pred('gram', rng.choice(['NOUN', 'ADJF', 'NOUN'])))
        for relation in rng.sample(relations, rng.choice([0, 1, 1, 2])):
            node = Rel(node, relation)
        if rng.random() < 0.2:
            node = Opt(Seq([node]), rng.random() < 0.5)
        items.append(node)
    root = Seq(items)
    pool = words.ADJECTIVES + words.NOUNS
    made = [words.sentence(rng, size, pool, tight=0) for _ in range(2)]
    # words that agree in everything
    made.append(' '.join(rng.choice(['дом', 'стол', 'красный', 'город', 'новый']) for _ in range(size)))
    made.append(' '.join(rng.choice(['книга', 'площадь', 'красная', 'новая']) for _ in range(size)))
    return root, made, ('match', 'findall', 'extract')


def wide(rng):
    """Sequences and choices of many parts that are rules themselves"""
    count = rng.randint(6, 24)
    letters = 'abcdefghij'

    def part(index):
        item = Seq([Term(Pred('eq', rng.choice(letters))) for _ in range(rng.choice([1, 1, 2]))])
        x = rng.random()
        if x < 0.2:
            return Opt(item, rng.random() < 0.5)
        if x < 0.35:
            return Rep(item, max=rng.choice([None, 2]))
        if x < 0.5:
            return Named(item, 'N%d' % rng.randint(0, 5))
        if x < 0.6:
            return Or([item, Seq([Term(Pred('eq', rng.choice(letters)))])])
        return item

    parts = [part(_) for _ in range(count)]
    if rng.random() < 0.3:
        parts += rng.sample(parts, 3)
    root = Or(parts) if rng.random() < 0.6 else Seq([Opt(_) for _ in parts])
    if rng.random() < 0.4:
        root = Seq([Opt(Or(parts[:count // 2])), root])
    return root, [text_of(rng.choice(letters) for _ in range(3)) for _ in range(3)], ('match', 'findall', 'extract')


KINDS = [annotated, plain, morph, morph, related, wide]


def shuffled(node, rng):
    """Sets of arguments are built in another insertion order"""
    for item in walk(node):
        if isinstance(item, Term) and isinstance(item.pred.arg, frozenset):
            values = list(item.pred.arg)
            rng.shuffle(values)
            item.pred.arg = set(values)


def program(seed, index, kind):
    """-> (digest, readable)"""
    from yargy import Parser
    from .common import morph_tokenizer
    rng = random.Random('program/%s/%s' % (seed, index))
    root, items, methods = rng.choice(KINDS)(rng)
    if not defined(root):
        raise Skip
    for text in items:
        tokens = ref.tokenize(text)
        if len(tokens) > 14:
            raise Skip
        Derivations(root, tokens, limit=200).load(600)
    if kind:
        shuffled(root, random.Random('%s/%s' % (kind, index)))
    if kind:
        rng = random.Random('address/%s/%s' % (kind, index))
        kept = shuffle_heap(rng)
        relations(root, rng)
        rule = ShuffledBuilder(rng)(root)
        kept.extend(shuffle_heap(rng))
    else:
        rule = build(root)
    parser = Parser(rule, morph_tokenizer())
    result = []
    for text in items:
        result.append(outcome(parser, text, methods, labels=str))
    lists = listings(rule, parser)
    trees = []
    for text in items:
        for match in call(parser, 'findall', text):
            trees.append(tuple(match.tree.as_dot.source))
            # nothing in tokens is a set of the user
            trees.append(repr(match.tokens))
    return result, lists, trees, items


def main():
    seed, first, count, kind = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    show = int(sys.argv[5]) if len(sys.argv) > 5 else None
    state = []
    order = list(range(first, first + count))
    if kind > 1:
        # programs run in another order
        random.Random(kind).shuffle(order)
    lines = {}
    for index in order:
        disturb(kind, index, state)
        try:
            result, lists, trees, items = program(seed, index, kind)
        except Skip:
            lines[index] = {'skip': True}
            continue
        except Exception as error:
            if not through_yargy(error.__traceback__):
                raise
            lines[index] = {'skip': True, 'error': type(error).__name__}
            continue
        matches = sum(len(found) for text in result for _, found in text)
        lines[index] = {
            'results': digest(result), 'listings': digest(lists), 'trees': digest(trees),
            'input': digest(items), 'matches': matches, 'lines': sum(len(_) for _ in lists),
        }
        if show == index:
            lines[index]['shown'] = repr(stable((items, result, lists, trees)))
    for index in sorted(lines):
        print(json.dumps([index, lines[index]], sort_keys=True))


if __name__ == '__main__':
    main()
