"""Random grammars and texts."""
from .gram import (
    Pred, Term, Seq, Or, Opt, Rep, Named, Fwd, Empty, Wrap, Pipe,
    eq, walk
)
from .run import Skip


class Grammars(object):
    """Random grammar over given terms (functions rng -> Pred).

    share     probability to reuse a node built before
    forward   probability of recursion through forward()
    nested    quantifiers directly over quantifiers
    """

    def __init__(self, rng, terms, depth=3, share=0.15, forward=0.12,
                 nested=True, named=0.08, empty=0.04, reverse=0.25,
                 quantifier=0.35, width=3, bound=3, distinct_or=True, single_or=0.05):
        self.rng = rng
        self.terms = terms
        self.depth = depth
        self.share = share
        self.forward = forward
        self.nested = nested
        self.named = named
        self.empty = empty
        self.reverse = reverse
        self.quantifier = quantifier
        self.width = width
        self.bound = bound
        self.single_or = single_or
        self.pool = []
        self.open = []       # forwards being defined
        self.names = 0

    def term(self):
        return Term(self.rng.choice(self.terms)(self.rng)
                    if callable(self.terms[0]) else self.rng.choice(self.terms))

    def flag(self):
        return self.rng.random() < self.reverse

    def node(self, depth=None):
        rng = self.rng
        if depth is None:
            depth = self.depth
        if self.pool and rng.random() < self.share:
            return rng.choice(self.pool)
        if self.open and rng.random() < self.forward * 2:
            return rng.choice(self.open)
        if depth <= 0:
            return self.term()
        node = self.make(depth)
        if not isinstance(node, Term):
            self.pool.append(node)
        return node

    def make(self, depth):
        rng = self.rng
        x = rng.random()
        if x < self.empty:
            # rule() without terms is empty as well
            return Empty() if rng.random() < 0.7 else Seq([])
        x = rng.random()
        if x < self.named:
            self.names += 1
            return Named(self.node(depth - 1), 'N%d' % self.names)
        x = rng.random()
        if x < self.forward:
            forward = Fwd()
            self.open.append(forward)
            target = self.node(depth - 1)
            while isinstance(target, Fwd):
                target = Seq([self.term(), target]) if rng.random() < 0.5 else self.term()
            forward.target = target
            self.open.remove(forward)
            return forward
        x = rng.random()
        if x < self.quantifier:
            return self.quantify(self.node(depth - 1))
        if x < self.quantifier + (1 - self.quantifier) * 0.4:
            return self.choice(depth)
        return self.sequence(depth)

    def quantify(self, item):
        rng = self.rng
        if not self.nested and isinstance(item, (Opt, Rep)):
            item = Seq([self.term(), item])
        if rng.random() < 0.4:
            return Opt(item, self.flag())
        min = rng.randint(1, self.bound) if rng.random() < 0.35 else None
        max = rng.randint(min or 1, (min or 1) + self.bound - 1) if rng.random() < 0.4 else None
        return Rep(item, min, max, self.flag())

    def choice(self, depth):
        rng = self.rng
        size = 1 if rng.random() < self.single_or else rng.randint(2, self.width)
        return Or([self.node(depth - 1) for _ in range(size)])

    def sequence(self, depth):
        rng = self.rng
        size = rng.choice([1, 2, 2, 3, self.width])
        return Seq([self.node(depth - 1) for _ in range(size)])

    def root(self):
        node = self.node()
        for item in walk(node):
            if isinstance(item, Fwd) and item.target is None:
                raise Skip('forward not defined')
        if not defined(node):
            raise Skip('forward defined only by itself')
        return node


def defined(root):
    """False if some forward is nothing but itself (TypeError at build)"""
    for node in walk(root):
        seen = set()
        while isinstance(node, Fwd) or (isinstance(node, Rep) and node.max == 1):
            if id(node) in seen:
                return False
            seen.add(id(node))
            node = node.target if isinstance(node, Fwd) else node.item
    return True


class Sampler(object):
    """Random member of the language, as list of predicates (to be realised)."""

    def __init__(self, rng, size=8):
        self.rng = rng
        self.budget = 400
        self.size = size

    def __call__(self, node):
        result = self.sample(node, 0)
        return result

    def sample(self, node, depth):
        """-> list of Pred or None when gave up"""
        rng = self.rng
        self.budget -= 1
        if self.budget < 0 or depth > 40:
            return None
        if isinstance(node, Term):
            return [node.pred]
        if isinstance(node, Empty):
            return []
        if isinstance(node, Seq):
            result = []
            for item in node.items:
                part = self.sample(item, depth + 1)
                if part is None:
                    return None
                result.extend(part)
                if len(result) > self.size:
                    return None
            return result
        if isinstance(node, Or):
            items = list(node.items)
            rng.shuffle(items)
            for item in items[:2]:
                part = self.sample(item, depth + 1)
                if part is not None:
                    return part
            return None
        if isinstance(node, Opt):
            if rng.random() < 0.4:
                return []
            return self.sample(node.item, depth + 1)
        if isinstance(node, Rep):
            min, max = node.bounds
            count = min + rng.choice([0, 0, 0, 1, 1, 2, 3])
            if max is not None and count > max:
                count = max
            result = []
            for _ in range(count):
                part = self.sample(node.item, depth + 1)
                if part is None:
                    return None
                result.extend(part)
                if len(result) > self.size:
                    return None
            return result
        if isinstance(node, Fwd):
            return self.sample(node.target, depth + 1)
        if isinstance(node, Wrap):
            return self.sample(node.item, depth + 1)
        if isinstance(node, Pipe):
            line = rng.choice(node.keys)
            return [Pred('in_', sorted(_)) if isinstance(_, (set, frozenset)) else eq(_) for _ in line]
        raise AssertionError(node)


def literal_texts(rng, node, letters, count, size):
    """Lists of letters: members of the language, mutants of members, noise"""
    texts = []
    for index in range(count):
        kind = rng.random()
        values = None
        if kind < 0.7:
            preds = Sampler(rng, size)(node)
            if preds is not None and all(_.kind == 'eq' for _ in preds):
                values = [_.arg for _ in preds]
        if values is None:
            values = [rng.choice(letters) for _ in range(rng.randint(0, min(size, 5)))]
        elif kind > 0.45 and values:
            for _ in range(rng.randint(1, 2)):
                x = rng.random()
                at = rng.randrange(len(values) + 1)
                if x < 0.35:
                    values.insert(at, rng.choice(letters))
                elif x < 0.7 and at < len(values):
                    del values[at]
                elif at < len(values):
                    values[at] = rng.choice(letters)
        texts.append(values)
    return texts
