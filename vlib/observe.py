"""Comparable images of what a parser returns."""
from . import ref
from .interp import canon, canon_json

METHODS = ('match', 'find', 'findall', 'extract', 'extract_whole')


def freeze(value):
    """Image of a fact value that does not depend on object identity"""
    image = canon(value, None)

    def clean(item):
        if isinstance(item, tuple):
            if len(item) == 4 and item[0] == 'Fact':
                return item[:2] + clean(item[3:])
            return tuple(clean(_) for _ in item)
        if isinstance(item, (str, int, float, bool, type(None), bytes)):
            return item
        return '<%s>' % type(item).__name__
    return clean(image)


def fact_view(match):
    """Fact, JSON and spans; errors by type"""
    try:
        value = match.fact
    except (TypeError, ValueError) as error:
        return ('error', type(error).__name__)
    if not hasattr(value, 'as_json'):
        return ('value', freeze(value))
    return (
        'fact', freeze(value), freeze_json(value.as_json),
        tuple((_.start, _.stop) for _ in value.spans)
    )


def freeze_json(value):
    def clean(item):
        if isinstance(item, tuple):
            if len(item) == 4 and item[0] == 'Fact':
                return item[:2] + clean(item[3:])
            return tuple(clean(_) for _ in item)
        return item
    return clean(canon_json(value))


def tree_view(match, labels=None):
    """(label, children), leaves are token texts with positions.
    labels: function label -> label or None to drop the node"""
    def visit(node):
        children = list(node.children)
        if not children:
            return ((node.token.value, node.token.span.start),)
        items = tuple(_ for child in children for _ in visit(child))
        label = node.label
        if labels is not None:
            label = labels(label)
            if label is None:
                return items
        return ((label, items),)
    return visit(match.tree.root)


def user_labels(label):
    """Only labels given by the user"""
    label = str(label)
    if label[:1] == 'R' and label[1:2].isdigit():
        return None
    return label


def match_view(match, facts=True, labels=user_labels, trees=True):
    result = [
        (match.span.start, match.span.stop),
        tuple(ref.token_key(_) for _ in match.tokens),
    ]
    if trees:
        result.append(tree_view(match, labels))
    if facts:
        result.append(fact_view(match))
    return tuple(result)


def call(parser, method, text, limit=None):
    """-> list of matches"""
    if method in ('match', 'find'):
        item = getattr(parser, method)(text)
        return [] if item is None else [item]
    if method == 'extract_whole':
        items = parser.extract(text, all=False)
    else:
        items = getattr(parser, method)(text)
    if limit is None:
        return list(items)
    return [item for item, _ in zip(items, range(limit))]


def outcome(parser, text, methods=('match', 'findall'), facts=True, labels=user_labels, trees=True):
    return tuple(
        (method, tuple(
            match_view(_, facts, labels, trees)
            for _ in call(parser, method, text)
        ))
        for method in methods
    )
