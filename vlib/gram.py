"""Abstract grammars: an independent model of yargy rules.

A grammar is a graph of small nodes (shared nodes and cycles allowed).
  build()      makes the yargy rule, through the public constructors only
  Recognizer   which token runs a node can match (language only)
  Derivations  all derivations of a run in preference order
Nothing here imports yargy's parser, trees or transformators.
"""
from .ref import RTok, lex, normals, analyses
from .run import Skip


# ---------------------------------------------------------------- predicates

def has_even_length(value):
    return len(value) % 2 == 0


def starts_with_vowel(value):
    return value[:1].lower() in tuple('aeiouаеёиоуыэюя')


def digit_sum_even(value):
    return sum(int(_) for _ in value if _.isdecimal()) % 2 == 0


FUNCTIONS = {
    _.__name__: _
    for _ in [has_even_length, starts_with_vowel, digit_sum_even]
}

SINGLE = ('sing', 'Sgtm')


class Pred(object):
    """Predicate: kind + argument (or sub predicates)"""

    def __init__(self, kind, arg=None, subs=(), types=None):
        self.kind = kind
        self.arg = arg
        self.subs = list(subs)
        self.types = types

    def build(self):
        import yargy
        from yargy import predicates as bank
        kind = self.kind
        if kind == 'and':
            return yargy.and_(*[_.build() for _ in self.subs])
        if kind == 'or':
            return yargy.or_(*[_.build() for _ in self.subs])
        if kind == 'not':
            return yargy.not_(self.subs[0].build())
        if kind == 'custom':
            function = FUNCTIONS.get(self.arg, self.arg)
            if self.types is None:
                return bank.custom(function)
            return bank.custom(function, types=self.types)
        function = getattr(bank, kind)
        if kind in ('true', 'is_lower', 'is_upper', 'is_title', 'is_capitalized', 'is_single'):
            return function()
        return function(self.arg)

    def test(self, token):
        kind, arg, value = self.kind, self.arg, token.value
        if kind == 'and':
            return all(_.test(token) for _ in self.subs)
        if kind == 'or':
            return any(_.test(token) for _ in self.subs)
        if kind == 'not':
            return not self.subs[0].test(token)
        if kind == 'true':
            return True
        if kind == 'eq':
            return value == arg
        if kind == 'caseless':
            return value.lower() == arg.lower()
        if kind == 'in_':
            return value in arg
        if kind == 'in_caseless':
            return value.lower() in {_.lower() for _ in arg}
        if kind == 'length_eq':
            return len(value) == arg
        if kind in ('gte', 'lte'):
            if token.type != 'INT':
                return False
            return int(value) >= arg if kind == 'gte' else int(value) <= arg
        if kind in ('normalized', 'dictionary'):
            words = [arg] if kind == 'normalized' else arg
            lemmas = set()
            for word in words:
                lemmas |= normals(word)
            if token.forms is not None:
                return any(_.normal in lemmas for _ in token.forms)
            return value.lower() in lemmas
        if kind == 'gram':
            return token.forms is not None and any(arg in _.grams for _ in token.forms)
        if kind == 'is_single':
            return token.forms is not None and any(
                any(gram in _.grams for gram in SINGLE)
                for _ in token.forms
            )
        if kind == 'type':
            return token.type == arg
        if kind == 'tag':
            return token.tag == arg
        if kind == 'custom':
            if self.types is not None:
                types = self.types
                if isinstance(types, str):
                    types = [types]
                if token.type not in types:
                    return False
            return bool(FUNCTIONS.get(arg, arg)(value))
        if kind == 'is_lower':
            return value.islower()
        if kind == 'is_upper':
            return value.isupper()
        if kind == 'is_title':
            return value.istitle()
        if kind == 'is_capitalized':
            return value[:1].isupper()
        raise AssertionError(kind)

    def constrain(self, token):
        """Token as it is reported when matched by this term."""
        if token.forms is None:
            return token
        if self.kind == 'gram':
            return token.with_forms([_ for _ in token.forms if self.arg in _.grams])
        if self.kind == 'is_single':
            return token.with_forms([
                _ for _ in token.forms
                if any(gram in _.grams for gram in SINGLE)
            ])
        return token

    def __repr__(self):
        if self.kind in ('and', 'or', 'not'):
            return '%s_(%s)' % (self.kind, ', '.join(map(repr, self.subs)))
        if self.kind == 'eq':
            return repr(self.arg)
        args = [] if self.arg is None else [repr(self.arg)]
        if self.types is not None:
            args.append('types=%r' % (self.types,))
        return '%s(%s)' % (self.kind, ', '.join(args))


def eq(value):
    return Pred('eq', value)


# --------------------------------------------------------------------- nodes

class Node(object):
    main = 0

    def children(self):
        return []


class Term(Node):
    """A predicate used as a rule or as an item of Seq"""

    def __init__(self, pred):
        self.pred = pred


class Seq(Node):
    def __init__(self, items, main=None):
        self.items = list(items)
        self.main = main

    def children(self):
        return self.items


class Or(Node):
    def __init__(self, items):
        self.items = list(items)

    def children(self):
        return self.items


class Wrap(Node):
    def __init__(self, item):
        self.item = item

    def children(self):
        return [self.item]


class Opt(Wrap):
    def __init__(self, item, reverse=False):
        self.item = item
        self.reverse = reverse


class Rep(Wrap):
    def __init__(self, item, min=None, max=None, reverse=False):
        self.item = item
        self.min = min
        self.max = max
        self.reverse = reverse

    @property
    def bounds(self):
        """As composed; bounds over an unlimited repetition are ignored."""
        if (self.min or self.max) and is_unlimited(self.item):
            return 1, None
        return self.min or 1, self.max


def is_unlimited(node):
    return isinstance(node, Rep) and not node.min and not node.max


class Named(Wrap):
    def __init__(self, item, name):
        self.item = item
        self.name = name


class Interp(Wrap):
    def __init__(self, item, spec):
        self.item = item
        self.spec = spec


class Rel(Wrap):
    def __init__(self, item, relation):
        self.item = item
        self.relation = relation   # RelSpec


class Fwd(Node):
    def __init__(self, target=None):
        self.target = target

    def children(self):
        return [self.target]


class Empty(Node):
    pass


class Pipe(Node):
    def __init__(self, kind, lines):
        self.kind = kind      # '', 'caseless', 'morph'
        self.lines = list(lines)
        self._keys = None

    @property
    def keys(self):
        if self._keys is None:
            keys = []
            for line in self.lines:
                parts = [value for value, _, _, _ in lex(line)]
                if self.kind == 'morph':
                    parts = [line_normals(_) for _ in parts]
                elif self.kind == 'caseless':
                    parts = [_.lower() for _ in parts]
                keys.append(parts)
            self._keys = keys
        return self._keys

    def accepts(self, key, token):
        if self.kind == 'morph':
            if token.forms is not None:
                return any(_.normal in key for _ in token.forms)
            return token.value.lower() in key
        if self.kind == 'caseless':
            return token.value.lower() == key
        return token.value == key

    def order(self, token):
        """Indexes of lines in order of preference, by the first token."""
        if self.kind == 'morph' and token.forms is not None:
            result = []
            lemmas = []
            for form in token.forms:
                if form.normal not in lemmas:
                    lemmas.append(form.normal)
            for lemma in lemmas:
                for index, key in enumerate(self.keys):
                    if lemma in key[0] and index not in result:
                        result.append(index)
            return result
        return [
            index for index, key in enumerate(self.keys)
            if self.accepts(key[0], token)
        ]

    def match(self, index, tokens, start):
        key = self.keys[index]
        if start + len(key) > len(tokens):
            return False
        return all(
            self.accepts(part, tokens[start + offset])
            for offset, part in enumerate(key)
        )


def line_normals(part):
    return normals(part)


def walk(root):
    seen = {id(root)}
    queue = [root]
    for node in queue:
        yield node
        for child in node.children():
            if id(child) not in seen:
                seen.add(id(child))
                queue.append(child)


def describe(root):
    """Readable python-like listing of the grammar."""
    names = {}
    parents = {}
    for node in walk(root):
        for child in node.children():
            parents[id(child)] = parents.get(id(child), 0) + 1
    lines = []

    def item(node):
        if isinstance(node, Term):
            return repr(node.pred)
        if id(node) in names:
            return names[id(node)]
        if isinstance(node, Fwd) or parents.get(id(node), 0) > 1:
            name = names[id(node)] = '%s%d' % ('F' if isinstance(node, Fwd) else 'S', len(names))
            if isinstance(node, Fwd):
                text = 'forward() := ' + item(node.target)
            else:
                text = plain(node)
            lines.append('%s = %s' % (name, text))
            return name
        return plain(node)

    def plain(node):
        if isinstance(node, Seq):
            parts = [
                ('main(%s)' if index == node.main else '%s') % item(_)
                for index, _ in enumerate(node.items)
            ]
            return 'rule(%s)' % ', '.join(parts)
        if isinstance(node, Or):
            return 'or_(%s)' % ', '.join(item(_) for _ in node.items)
        if isinstance(node, Empty):
            return 'empty()'
        if isinstance(node, Pipe):
            return '%spipeline(%r)' % (node.kind + '_' if node.kind else '', node.lines)
        if isinstance(node, Opt):
            return '%s.optional(%s)' % (item(node.item), 'reverse=True' if node.reverse else '')
        if isinstance(node, Rep):
            args = []
            if node.min:
                args.append('min=%d' % node.min)
            if node.max:
                args.append('max=%d' % node.max)
            if node.reverse:
                args.append('reverse=True')
            return '%s.repeatable(%s)' % (item(node.item), ', '.join(args))
        if isinstance(node, Named):
            return '%s.named(%r)' % (item(node.item), node.name)
        if isinstance(node, Interp):
            return '%s.interpretation(%s)' % (item(node.item), node.spec)
        if isinstance(node, Rel):
            return '%s.match(%s)' % (item(node.item), node.relation)
        return repr(node)

    lines.append(item(root))
    return lines


# --------------------------------------------------------------------- build

class Builder(object):
    """copies=True: a shared node is built anew for every use."""

    def __init__(self, copies=False, direct=True):
        self.copies = copies
        self.direct = direct
        self.memo = {}
        self.forwards = {}
        self.uses = {}

    def __call__(self, node):
        for item in walk(node):
            for child in item.children():
                if child is not None:
                    self.uses[id(child)] = self.uses.get(id(child), 0) + 1
        return self.rule(node)

    def rule(self, node):
        import yargy
        if isinstance(node, Fwd):
            if id(node) in self.forwards:
                return self.forwards[id(node)]
            result = self.forwards[id(node)] = yargy.forward()
            target = node.target
            if target is not None:
                if self.plain_sequence(target) and len(self.forwards) % 2:
                    # define(a, b, ...) is define(rule(a, b, ...))
                    result.define(*self.items(target))
                else:
                    result.define(self.rule(target))
            return result
        if not self.copies and id(node) in self.memo:
            return self.memo[id(node)]
        result = self.make(node)
        if not self.copies and id(node) in self.memo:
            # made while its forward was being defined, there is one such rule
            return self.memo[id(node)]
        self.memo[id(node)] = result
        return result

    def item(self, node):
        if isinstance(node, Term):
            if self.direct and node.pred.kind == 'eq':
                return node.pred.arg    # rule('a') is rule(eq('a'))
            return node.pred.build()
        return self.rule(node)

    def wrapped(self, node):
        # predicates have the methods of rules
        if isinstance(node.item, Term) and self.direct:
            return node.item.pred.build()
        return self.rule(node.item)

    def plain_sequence(self, node):
        """Sequence used by one forward only"""
        return (
            isinstance(node, Seq)
            and len(node.items) > 1
            and id(node) not in self.memo
            and self.uses.get(id(node)) == 1
        )

    def items(self, node):
        from yargy.relations import main
        items = []
        for index, child in enumerate(node.items):
            item = self.item(child)
            if index == node.main:
                if isinstance(item, str):
                    item = child.pred.build()
                item = main(item)
            items.append(item)
        return items

    def make(self, node):
        import yargy
        from yargy import pipelines
        if isinstance(node, Term):
            return yargy.rule(node.pred.build())
        if isinstance(node, Seq):
            return yargy.rule(*self.items(node))
        if isinstance(node, Or):
            return yargy.or_(*[self.rule(_) for _ in node.items])
        if isinstance(node, Empty):
            return yargy.empty()
        if isinstance(node, Pipe):
            function = getattr(pipelines, (node.kind + '_' if node.kind else '') + 'pipeline')
            given = list(node.lines)
            kind = (len(given) + sum(len(_) for _ in given)) % 4
            if kind == 0:
                return function(tuple(given))
            if kind == 1:
                # read once, as an open file
                return function(_ for _ in given)
            result = function(given)
            # the list is the caller's
            del given[:]
            return result
        item = self.wrapped(node)
        if isinstance(node, Opt):
            return item.optional(reverse=True) if node.reverse else item.optional()
        if isinstance(node, Rep):
            args = {}
            if node.min:
                args['min'] = node.min
            if node.max:
                args['max'] = node.max
            if node.reverse:
                args['reverse'] = True
            return item.repeatable(**args)
        if isinstance(node, Named):
            return item.named(node.name)
        if isinstance(node, Interp):
            return item.interpretation(node.spec.build())
        if isinstance(node, Rel):
            return item.match(node.relation.build())
        raise AssertionError(node)


def build(node, copies=False, direct=True):
    return Builder(copies, direct)(node)


# ---------------------------------------------------------------- recognizer

class Recognizer(object):
    """ends(node, i): set of j such that node derives tokens[i:j].
    Least fixpoint over all nodes, independent of BNF conversion."""

    def __init__(self, root, tokens):
        self.root = root
        self.tokens = tokens
        self.nodes = list(walk(root))
        size = len(tokens)
        self.size = size
        self.table = {
            id(node): [frozenset()] * (size + 1)
            for node in self.nodes
        }
        changed = True
        while changed:
            changed = False
            for node in reversed(self.nodes):
                row = self.table[id(node)]
                for i in range(size, -1, -1):
                    ends = self.step(node, i)
                    if ends != row[i]:
                        row[i] = ends
                        changed = True

    def get(self, node, i):
        return self.table[id(node)][i]

    def through(self, node, starts):
        result = set()
        for i in starts:
            result |= self.get(node, i)
        return result

    def step(self, node, i):
        if isinstance(node, Term):
            if i < self.size and node.pred.test(self.tokens[i]):
                return frozenset([i + 1])
            return frozenset()
        if isinstance(node, Seq):
            ends = {i}
            for item in node.items:
                ends = self.through(item, ends)
            return frozenset(ends)
        if isinstance(node, Or):
            ends = set()
            for item in node.items:
                ends |= self.get(item, i)
            return frozenset(ends)
        if isinstance(node, Empty):
            return frozenset([i])
        if isinstance(node, Opt):
            return self.get(node.item, i) | {i}
        if isinstance(node, Rep):
            min, max = node.bounds
            ends = {i}
            for _ in range(min):
                ends = self.through(node.item, ends)
            result = set(ends)
            count = min
            while ends and (max is None or count < max):
                ends = self.through(node.item, ends)
                count += 1
                if max is None and ends <= result:
                    break
                result |= ends
            return frozenset(result)
        if isinstance(node, Fwd):
            return self.get(node.target, i)
        if isinstance(node, Wrap):
            return self.get(node.item, i)
        if isinstance(node, Pipe):
            return frozenset(
                i + len(key) for index, key in enumerate(node.keys)
                if node.match(index, self.tokens, i)
            )
        raise AssertionError(node)

    def accepts(self):
        return self.size in self.get(self.root, 0)

    def spans(self):
        return {
            (i, j) for i in range(self.size + 1)
            for j in self.get(self.root, i) if j > i
        }


# --------------------------------------------------------------- derivations

class Sym(object):
    __slots__ = ['node', 'prods', 'pipe']

    def __init__(self, node):
        self.node = node
        self.prods = []     # [(terms, main)]
        self.pipe = None


class D(object):
    """Derivation of sym over tokens[start:stop]; leaf when sym is Pred"""
    __slots__ = ['sym', 'rank', 'items', 'start', 'stop', 'main', 'key', 'line']

    def __init__(self, sym, rank, items, start, stop, main=0, line=None):
        self.sym = sym
        self.rank = rank
        self.items = items
        self.start = start
        self.stop = stop
        self.main = main
        self.line = line
        key = (rank,)
        for item in items:
            if not item.leaf:
                key += item.key
        self.key = key

    leaf = False

    @property
    def empty(self):
        return self.start == self.stop

    def leaves(self):
        for item in self.items:
            if item.leaf:
                yield item
            else:
                for leaf in item.leaves():
                    yield leaf

    def full(self):
        """Items that matched something"""
        return [_ for _ in self.items if _.leaf or not _.empty]

    def main_leaf(self):
        item = self.items[self.main]
        if not item.leaf and item.empty:
            item = self.full()[0]
        if item.leaf:
            return item
        return item.main_leaf()

    def walk(self):
        """Non empty nodes, root first, left to right"""
        yield self
        for item in self.items:
            if not item.leaf and not item.empty:
                for node in item.walk():
                    yield node


class L(object):
    __slots__ = ['pred', 'start', 'stop']
    leaf = True

    def __init__(self, pred, start):
        self.pred = pred
        self.start = start
        self.stop = start + 1


class Derivations(object):
    """All derivations of runs of tokens, most preferred first. A symbol that
    derives itself on the same run is not followed (infinitely many)."""

    def __init__(self, root, tokens, limit=4000):
        self.tokens = tokens
        self.size = len(tokens)
        self.limit = limit
        self.count = 0
        self.syms = {}
        self.recognizer = Recognizer(root, tokens)
        self.root = self.sym(root)
        self.memo = {}
        self.possible_memo = {}
        self.ends_memo = {}

    # -- grammar

    def sym(self, node):
        if id(node) in self.syms:
            return self.syms[id(node)]
        sym = self.syms[id(node)] = Sym(node)
        if isinstance(node, Term):
            sym.prods = [([node.pred], 0)]
        elif isinstance(node, Seq):
            sym.prods = [([self.term(_) for _ in node.items], node.main or 0)]
        elif isinstance(node, Or):
            sym.prods = [([self.sym(_)], 0) for _ in node.items]
        elif isinstance(node, Empty):
            sym.prods = [([], 0)]
        elif isinstance(node, Opt):
            sym.prods = [([], 0), ([self.sym(node.item)], 0)]
            if node.reverse:
                sym.prods.reverse()
        elif isinstance(node, Rep):
            self.repeat(sym, node)
        elif isinstance(node, Fwd):
            sym.prods = [([self.sym(node.target)], 0)]
        elif isinstance(node, Wrap):
            sym.prods = [([self.sym(node.item)], 0)]
        elif isinstance(node, Pipe):
            sym.pipe = node
        else:
            raise AssertionError(node)
        return sym

    def term(self, node):
        if isinstance(node, Term):
            return node.pred
        return self.sym(node)

    def repeat(self, sym, node):
        item = self.sym(node.item)

        def unlimited(sym):
            sym.prods = [([item, sym], 0), ([item], 0)]
            if node.reverse:
                sym.prods.reverse()
            return sym

        def limited(sym, count):
            if count == 1:
                sym.prods = [([item], 0)]
            else:
                sym.prods = [([item, limited(Sym(None), count - 1)], 0), ([item], 0)]
                if node.reverse:
                    sym.prods.reverse()
            return sym

        min, max = node.bounds
        if max is None and min == 1:
            unlimited(sym)
        elif max is None:
            sym.prods = [([item] * (min - 1) + [unlimited(Sym(None))], 0)]
        elif min == 1 and not node.min:
            limited(sym, max)
        else:
            sym.prods = [([item] * (min - 1) + [limited(Sym(None), max - min + 1)], 0)]

    # -- enumeration

    def tick(self):
        self.count += 1
        if self.count > self.limit * 20:
            raise Skip('too many derivations')

    def derive(self, sym, i, j, banned=frozenset()):
        key = (id(sym), i, j, banned)
        if key in self.memo:
            return self.memo[key]
        result = []
        if id(sym) not in banned:
            inner = banned | {id(sym)}
            if sym.pipe:
                result = self.derive_pipe(sym, i, j)
            else:
                for rank, (terms, main) in enumerate(sym.prods):
                    for items in self.derive_terms(terms, 0, i, j, i, j, inner):
                        self.tick()
                        result.append(D(sym, rank, items, i, j, main))
        if len(result) > self.limit:
            raise Skip('too many derivations')
        self.memo[key] = result
        return result

    def derive_pipe(self, sym, i, j):
        if i >= self.size:
            return []
        result = []
        pipe = sym.pipe
        for rank, index in enumerate(pipe.order(self.tokens[i])):
            key = pipe.keys[index]
            if i + len(key) == j and pipe.match(index, self.tokens, i):
                items = [L(Pred('true'), i + _) for _ in range(len(key))]
                result.append(D(sym, rank, items, i, j, line=pipe.lines[index]))
        return result

    def sym_ends(self, sym, i):
        """Possible ends, from the recognizer when known."""
        if sym.node is not None:
            return sorted(self.recognizer.get(sym.node, i))
        return range(i, self.size + 1)

    def derive_terms(self, terms, index, i, j, start, stop, banned):
        """Derivations of terms[index:] over [i, j); whole production is over
        [start, stop)."""
        if index == len(terms):
            if i == j:
                yield []
            return
        term = terms[index]
        last = index == len(terms) - 1
        if isinstance(term, Pred):
            if i < j and term.test(self.tokens[i]):
                leaf = L(term, i)
                for rest in self.derive_terms(terms, index + 1, i + 1, j, start, stop, banned):
                    yield [leaf] + rest
            return
        ends = [j] if last else [_ for _ in self.sym_ends(term, i) if _ <= j]
        for end in ends:
            same = (i == start and end == stop)
            heads = self.derive(term, i, end, banned if same else frozenset())
            if not heads:
                continue
            for rest in self.derive_terms(terms, index + 1, end, j, start, stop, banned):
                for head in heads:
                    self.tick()
                    yield [head] + rest

    def run(self, i, j):
        """Derivations of the root over tokens[i:j], preferred first"""
        if j not in self.recognizer.get(self.recognizer.root, i):
            return []
        return sorted(self.derive(self.root, i, j), key=lambda _: _.key)

    def spans(self):
        return sorted(self.recognizer.spans())

    def load(self, limit=3000):
        """Number of sub derivations a chart parser would build; Skip when
        there are too many."""
        total = 0
        for node in self.recognizer.nodes:
            if isinstance(node, Fwd) or not isinstance(node, Term):
                sym = self.sym(node)
                for i in range(self.size + 1):
                    for j in self.recognizer.get(node, i):
                        total += len(self.derive(sym, i, j))
                        if total > limit:
                            raise Skip('ambiguous')
        return total


# ----------------------------------------------------------------- relations

class RelSpec(object):
    """kind: gender, number, case, gnc, and, or, not, custom"""

    def __init__(self, kind, subs=(), function=None):
        self.kind = kind
        self.subs = list(subs)
        self.function = function
        self._built = None

    def build(self):
        # one object per spec: identity of the relation is what links words
        if self._built is None:
            self._built = self.make()
        return self._built

    def make(self):
        import yargy
        from yargy import relations
        if self.kind == 'and':
            return yargy.and_(*[_.build() for _ in self.subs])
        if self.kind == 'or':
            return yargy.or_(*[_.build() for _ in self.subs])
        if self.kind == 'not':
            return yargy.not_(self.subs[0].build())
        if self.kind == 'custom':
            function = self.function

            class custom_relation(relations.Relation):
                label = 'custom'

                def __call__(self, form, other):
                    return function(
                        (form.normalized, frozenset(form.grams.values)),
                        (other.normalized, frozenset(other.grams.values)),
                    )
            return custom_relation()
        return getattr(relations, self.kind + '_relation')()

    def __call__(self, a, b):
        """a, b: RForm"""
        kind = self.kind
        if kind == 'and':
            return all(_(a, b) for _ in self.subs)
        if kind == 'or':
            return any(_(a, b) for _ in self.subs)
        if kind == 'not':
            return not self.subs[0](a, b)
        if kind == 'custom':
            return self.function(a.key, b.key)
        return AGREEMENT[kind](a.grams, b.grams)

    def __repr__(self):
        if self.subs:
            return '%s_(%s)' % (self.kind, ', '.join(map(repr, self.subs)))
        return '%s#%d' % (self.kind, id(self) % 1000)


CASES = ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct')
# rare varieties of a case: "в прошлом году" (loct, loc2), "горячего чаю" (gent, gen2)
MAIN_CASE = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs', 'loc1': 'loct', 'loc2': 'loct'}


def agree_gender(a, b):
    if 'plur' in a and 'plur' in b:
        return True
    if 'GNdr' in a or 'GNdr' in b:
        return True
    for gender in ('masc', 'femn', 'neut'):
        if gender in a and gender in b:
            return True
    def common(grams):
        return 'Ms-f' in grams or 'ms-f' in grams

    for x, y in ((a, b), (b, a)):
        if common(x) and ('masc' in y or 'femn' in y or common(y)):
            return True
    return False


def agree_number(a, b):
    def single(grams):
        return 'sing' in grams

    def plural(grams):
        return 'plur' in grams

    if single(a) and single(b) or plural(a) and plural(b):
        return True
    for x, y in ((a, b), (b, a)):
        if 'Sgtm' in x and single(y):
            return True
        if 'Pltm' in x and plural(y):
            return True
    return False


def agree_case(a, b):
    if 'Fixd' in a or 'Fixd' in b:
        return True
    return cases(a) == cases(b)


def cases(grams):
    return {_ for _ in CASES if _ in grams} | {main for rare, main in MAIN_CASE.items() if rare in grams}


AGREEMENT = {
    'gender': agree_gender,
    'number': agree_number,
    'case': agree_case,
    'gnc': lambda a, b: agree_gender(a, b) and agree_number(a, b) and agree_case(a, b),
}


class Reading(object):
    """Tokens of a derivation after predicates and relations, or rejected"""

    def __init__(self, derivation, tokens):
        self.derivation = derivation
        self.tokens = {}
        for leaf in derivation.leaves():
            self.tokens[leaf.start] = leaf.pred.constrain(tokens[leaf.start])
        self.marked = []      # (RelSpec, token index) in order root first
        for node in derivation.walk():
            if isinstance(node.sym.node, Rel):
                self.marked.append((node.sym.node.relation, node.main_leaf().start))
        self.valid = self.agree()

    def agree(self):
        if not self.marked:
            return True
        groups = {}
        for relation, index in self.marked:
            groups.setdefault(id(relation), (relation, []))[1].append(index)
        forms = {}
        for _, index in self.marked:
            forms[index] = list(self.tokens[index].forms or [])
        changed = True
        while changed:
            changed = False
            for relation, items in groups.values():
                for x, first in enumerate(items):
                    for second in items[x + 1:]:
                        if first == second:
                            raise Skip('word is linked with itself')
                        for a, b, flip in ((first, second, False), (second, first, True)):
                            kept = [
                                f for f in forms[a]
                                if any(
                                    (relation(g, f) if flip else relation(f, g))
                                    for g in forms[b]
                                )
                            ]
                            if len(kept) < len(forms[a]):
                                forms[a] = kept
                                changed = True
        for index, items in forms.items():
            if not items:
                return False
            self.tokens[index] = self.tokens[index].with_forms(items)
        return True

    def rtokens(self):
        return [self.tokens[_] for _ in sorted(self.tokens)]


def first_valid(derivations, tokens):
    for derivation in derivations:
        if derivation.empty:
            continue
        reading = Reading(derivation, tokens)
        if reading.valid:
            return reading
