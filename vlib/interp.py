"""Model of interpretation: annotations -> fact."""
from . import ref
from .gram import Interp, Pipe, Node, Seq, Or, Named, Rel, Fwd


# ------------------------------------------------------------ user functions

CALLS = []          # (name, value) of every call of a user function


def _function(name, body):
    def function(value):
        CALLS.append((name, value))
        return body(value)
    function.__name__ = str(name)
    return function


USER = {
    name: _function(name, body)
    for name, body in {
        'first': lambda _: ('first', _),
        'second': lambda _: ('second', _),
        'text': lambda _: '<%s>' % _ if isinstance(_, str) else _,
        'length': lambda _: len(_) if isinstance(_, str) else -1,
        'nothing': lambda _: None,
        'zero': lambda _: 0,
        'blank': lambda _: '',
        'pair': lambda _: [_, _],
        'same': lambda _: _,
    }.items()
}
PURE = {
    'first': lambda _: ('first', _),
    'second': lambda _: ('second', _),
    'text': lambda _: '<%s>' % _ if isinstance(_, str) else _,
    'length': lambda _: len(_) if isinstance(_, str) else -1,
    'nothing': lambda _: None,
    'zero': lambda _: 0,
    'blank': lambda _: '',
    'pair': lambda _: [_, _],
    'same': lambda _: _,
}


# ---------------------------------------------------------------- annotations

class FactSpec(object):
    """attrs: [(name, default, repeatable)]; base: FactSpec it is derived from"""

    def __init__(self, name, attrs=(), base=None):
        self.name = name
        self.base = base
        self.attrs = list(base.attrs if base else attrs)
        self._cls = None

    @property
    def cls(self):
        if self._cls is None:
            if self.base:
                self._cls = type(self.name, (self.base.cls,), {})
            else:
                from yargy.interpretation import fact, attribute
                items = []
                for name, default, repeatable in self.attrs:
                    if repeatable:
                        items.append(attribute(name).repeatable())
                    elif default is not None:
                        items.append(attribute(name, default))
                    else:
                        items.append(name)
                self._cls = fact(self.name, items)
        return self._cls

    def subclass_of(self, other):
        spec = self
        while spec:
            if spec is other:
                return True
            spec = spec.base
        return False

    @property
    def origin(self):
        """The class that declares the attributes"""
        spec = self
        while spec.base:
            spec = spec.base
        return spec

    def is_repeatable(self, name):
        return any(a == name and repeatable for a, _, repeatable in self.attrs)

    def __repr__(self):
        return self.name


class ISpec(object):
    """kind: fact | attr | norm; chain of ('normalized',), ('inflected', grams
    or None), ('const', value), ('custom', name)"""

    def __init__(self, kind, fact=None, attr=None, chain=()):
        self.kind = kind
        self.fact = fact
        self.attr = attr
        self.chain = list(chain)

    def build(self):
        from yargy import interpretation
        if self.kind == 'fact':
            return self.fact.cls
        item = None
        if self.kind == 'attr':
            item = getattr(self.fact.cls, self.attr)
        for step in self.chain:
            name, args = step[0], list(step[1:])
            if name == 'custom':
                args = [USER[args[0]]]
            if name == 'inflected' and args == [None]:
                args = []
            owner = interpretation if item is None else item
            item = getattr(owner, name)(*args)
        return item

    def __repr__(self):
        if self.kind == 'fact':
            return self.fact.name
        text = ['%s.%s' % (self.fact.name, self.attr)] if self.kind == 'attr' else []
        for step in self.chain:
            text.append('%s(%s)' % (step[0], ', '.join(repr(_) for _ in step[1:])))
        return '.'.join(text)


class ModelTypeError(Exception):
    pass


class Tok(object):
    def __init__(self, token):
        self.token = token

    @property
    def spans(self):
        return [(self.token.start, self.token.stop)]


def tokens_span(items):
    return items[0].token.start, items[-1].token.stop


class Chain(object):
    def __init__(self, items, line):
        self.items = items
        self.line = line

    @property
    def final(self):
        return ref.join([(_.token.value, _.token.start, _.token.stop) for _ in self.items])

    @property
    def spans(self):
        return [tokens_span(self.items)]

    @property
    def json(self):
        return self.final


class Norm(object):
    def __init__(self, value, spans):
        self.final = value
        self.spans = spans
        self.json = value


class Attr(object):
    def __init__(self, value, spec, name):
        self.value = value
        self.spec = spec
        self.name = name

    final = property(lambda self: self.value.final)
    spans = property(lambda self: self.value.spans)
    json = property(lambda self: self.value.json)


class FactValue(object):
    """Comparable image of a fact"""

    def __init__(self, spec, values):
        self.spec = spec
        self.values = values

    def __repr__(self):
        return '%s(%s)' % (self.spec.name, ', '.join('%s=%r' % _ for _ in self.values))


class FactModel(object):
    def __init__(self, spec):
        self.spec = spec
        self.set_values = {}

    def set(self, name, value):
        if self.spec.is_repeatable(name):
            self.set_values.setdefault(name, []).append(value)
        else:
            self.set_values[name] = value

    def merge(self, other):
        for name, value in other.set_values.items():
            if self.spec.is_repeatable(name):
                self.set_values.setdefault(name, []).extend(value)
            else:
                self.set_values[name] = value

    @property
    def final(self):
        values = []
        for name, default, repeatable in self.spec.attrs:
            if repeatable:
                value = [_.final for _ in self.set_values.get(name, [])]
            elif name in self.set_values:
                value = self.set_values[name].final
            else:
                value = default
            values.append((name, value))
        return FactValue(self.spec, values)

    @property
    def spans(self):
        result = []
        for name, _, repeatable in self.spec.attrs:
            if name in self.set_values:
                value = self.set_values[name]
                for item in value if repeatable else [value]:
                    result.extend(item.spans)
        return sorted(result)

    @property
    def json(self):
        result = []
        for name, default, repeatable in self.spec.attrs:
            if repeatable:
                value = [_.json for _ in self.set_values.get(name, [])]
            elif name in self.set_values:
                value = self.set_values[name].json
            else:
                value = default
            if value is not None:
                result.append((name, value))
        return JSONMap(result)


class JSONMap(object):
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return '{%s}' % ', '.join('%s: %r' % _ for _ in self.items)


def pipeline_line(derivation):
    """Line, when the annotated rule is nothing but a pipeline"""
    items = derivation.items
    while len(items) == 1:
        item = items[0]
        if item.leaf:
            return
        sym = item.sym
        if sym.pipe:
            return item.line
        if isinstance(sym.node, Interp) or len(sym.prods) != 1:
            return
        items = item.items


def flatten(derivation, reading):
    for item in derivation.full():
        if item.leaf:
            yield Tok(reading.tokens[item.start])
        elif isinstance(item.sym.node, Interp):
            yield evaluate(item, reading)
        else:
            for part in flatten(item, reading):
                yield part


def apply_chain(chain, items, line):
    """Value of a normalizer over items"""
    step = chain[0]
    if step[0] == 'const':
        if all(isinstance(_, Tok) for _ in items):
            spans = [tokens_span(items)]
        else:
            spans = [span for _ in items for span in _.spans]
        return Norm(step[1], spans)
    if all(isinstance(_, Tok) for _ in items):
        source = Chain(items, line)
    elif len(items) == 1:
        source = items[0]
    else:
        raise ModelTypeError('several parts')
    rest = chain
    if step[0] in ('normalized', 'inflected'):
        if not isinstance(source, Chain):
            raise ModelTypeError('not a text')
        rest = chain[1:]
        if step[0] == 'normalized':
            if source.line:
                value = source.line
            else:
                value = ref.join([
                    (_.token.normal, _.token.start, _.token.stop)
                    for _ in source.items
                ])
        else:
            grams = step[1] if len(step) > 1 and step[1] is not None else {'nomn', 'sing'}
            value = ref.join([
                (
                    ref.inflect(_.token.forms[0], grams)
                    if _.token.forms is not None else _.token.value.lower(),
                    _.token.start, _.token.stop
                )
                for _ in source.items
            ])
    else:
        value = source.final
    for step in rest:
        assert step[0] == 'custom'
        EXPECTED_CALLS.append((step[1], value))
        value = PURE[step[1]](value)
    return Norm(value, source.spans)


EXPECTED_CALLS = []


def evaluate(derivation, reading):
    """-> Chain/Norm/Attr/FactModel; raises ModelTypeError"""
    spec = derivation.sym.node.spec
    items = list(flatten(derivation, reading))
    line = pipeline_line(derivation)
    if spec.kind == 'fact':
        fact = FactModel(spec.fact)
        for item in items:
            if isinstance(item, Attr) and spec.fact.subclass_of(item.spec.origin):
                fact.set(item.name, item.value)
            elif isinstance(item, FactModel) and item.spec.subclass_of(spec.fact):
                fact.merge(item)
        return fact
    if spec.kind == 'norm':
        return apply_chain(spec.chain, items, line)
    # attribute
    if spec.chain:
        value = apply_chain(spec.chain, items, line)
    elif all(isinstance(_, Tok) for _ in items):
        value = Chain(items, line)
    elif len(items) == 1:
        value = items[0]
        if isinstance(value, Attr):
            value = value.value
    else:
        raise ModelTypeError('several parts')
    return Attr(value, spec.fact, spec.attr)


# --------------------------------------------------------------- comparison

def canon(value, specs):
    """Comparable image of an actual value; specs: {class: FactSpec}"""
    from yargy.interpretation.fact import Fact
    if isinstance(value, Fact):
        return ('Fact', type(value).__name__, id(type(value)), tuple(
            (key, canon(getattr(value, key), specs))
            for key in type(value).__attributes__
        ))
    if isinstance(value, list):
        return ('list',) + tuple(canon(_, specs) for _ in value)
    if isinstance(value, tuple):
        return ('tuple',) + tuple(canon(_, specs) for _ in value)
    return (type(value).__name__, value)


def canon_model(value):
    if isinstance(value, FactValue):
        return ('Fact', value.spec.name, id(value.spec.cls), tuple(
            (key, canon_model(item)) for key, item in value.values
        ))
    if isinstance(value, list):
        return ('list',) + tuple(canon_model(_) for _ in value)
    if isinstance(value, tuple):
        return ('tuple',) + tuple(canon_model(_) for _ in value)
    return (type(value).__name__, value)


def canon_json(value):
    from collections.abc import Mapping
    if isinstance(value, Mapping):
        return ('map',) + tuple((key, canon_json(item)) for key, item in value.items())
    if isinstance(value, list):
        return ('list',) + tuple(canon_json(_) for _ in value)
    return canon(value, None)


def canon_json_model(value):
    if isinstance(value, JSONMap):
        return ('map',) + tuple((key, canon_json_model(item)) for key, item in value.items)
    if isinstance(value, list):
        return ('list',) + tuple(canon_json_model(_) for _ in value)
    return canon_model(value)
