"""C27: facts, tokens, spans and forms are plain values."""
import re

from vlib.run import W, Skip
from vlib.gram import describe, cases, CASES
from vlib.facts import FactRules, texts
from vlib.common import parser, morph_tokenizer, plain_tokenizer
from vlib import words, ref

RULE = (
    'A case is a pool of 24 values of one or several plain classes (spans, tokens of four kinds, '
    'forms, grammeme sets, facts of generated classes, facts and tokens of real matches) built '
    'from few field values, so that many are equal. ==, !=, hash, iteration, repr, pretty '
    'printing, ordering and membership in sets, lists and dictionaries are compared with a '
    'model (class, fields) for all pairs. Non trivial: an equal pair of different objects or '
    'a pair that differs in one field.'
)
QUICK = 1.5
MINIMUMS = {'pairs': 60000, 'equal_pairs': 3000, 'near_pairs': 3000, 'hash_equal': 1500,
            'facts': 3000, 'fact_classes': 300, 'matches': 150, 'kinds': 9, 'key_errors': 150}


class Value(object):
    """Actual object and its model: (class id, fields)"""

    def __init__(self, actual, cls, fields, key, name=None):
        self.actual = actual
        self.cls = cls          # class
        self.fields = fields    # [(name, actual value)]
        self.key = (id(cls), key)
        self.name = name or cls.__name__


def frozen(value):
    if isinstance(value, Value):
        return value.key
    if isinstance(value, list):
        return ('list',) + tuple(frozen(_) for _ in value)
    if isinstance(value, tuple):
        return ('tuple',) + tuple(frozen(_) for _ in value)
    if isinstance(value, (set, frozenset)):
        return ('set', frozenset(value))
    return value            # 1 == True == 1.0, as for the values themselves


def plain(value):
    if isinstance(value, Value):
        return value.actual
    if isinstance(value, list):
        return [plain(_) for _ in value]
    if isinstance(value, tuple):
        return tuple(plain(_) for _ in value)
    return value


def made(cls, fields, actual):
    return Value(
        actual, cls,
        [(name, plain(value)) for name, value in fields],
        tuple(frozen(value) for _, value in fields)
    )


# ------------------------------------------------------------------ values


def span(rng):
    from yargy.span import Span
    start, stop = rng.randint(0, 2), rng.randint(2, 4)
    return made(Span, [('start', start), ('stop', stop)], Span(start, stop))


def grams(rng):
    from yargy.morph import Grams
    values = rng.choice([frozenset(), frozenset({'NOUN'}), frozenset({'NOUN', 'sing'}), frozenset({'sing', 'ADJF', 'masc'})])
    # equal sets made in different orders
    items = list(values)
    rng.shuffle(items)
    return made(Grams, [('values', values)], Grams(frozenset(items)))


def form(rng):
    from yargy.morph import Form
    normalized, inner = rng.choice(['дом', 'стать']), grams(rng)
    return made(Form, [('normalized', normalized), ('grams', inner)],
                Form(normalized, inner.actual, raw=rng.choice([None, object()])))


def token(rng):
    from yargy.token import Token, MorphToken, TagToken, MorphTagToken
    value, type = rng.choice(['дом', 'a', 'стать']), rng.choice(['RU', 'X', None])
    where = span(rng)
    forms = [form(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
    tag = rng.choice(['B', 'I', None])
    kind = rng.choice(['Token', 'MorphToken', 'TagToken', 'MorphTagToken'])
    base = [('value', value), ('span', where), ('type', type)]
    args = [value, where.actual, type]
    if kind == 'Token':
        return made(Token, base, Token(*args))
    if kind == 'MorphToken':
        fields = base + [('forms', forms)]
        actual = MorphToken(*args, [_.actual for _ in forms]) if rng.random() < 0.5 else Token(*args).morphed([_.actual for _ in forms])
        return made(MorphToken, fields, actual)
    if kind == 'TagToken':
        return made(TagToken, base + [('tag', tag)],
                    TagToken(*args, tag) if rng.random() < 0.5 else Token(*args).tagged(tag))
    forms_ = [_.actual for _ in forms]
    return made(MorphTagToken, base + [('tag', tag), ('forms', forms)],
                MorphTagToken(*args, tag, forms_) if rng.random() < 0.5 else MorphToken(*args, forms_).tagged(tag))


MARKS = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'sing', 'plur', 'Sgtm', 'Pltm',
         'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen2', 'loc2', 'Fixd', 'NOUN']


def parts(rng):
    from yargy.morph import Grams, Gender, Number, Case
    values = set(rng.sample(MARKS, rng.choice([0, 1, 1, 2, 3])))
    actual = Grams(frozenset(values))
    kind = rng.choice(['gender', 'number', 'case'])
    if kind == 'gender':
        return made(Gender, [
            ('male', 'masc' in values), ('female', 'femn' in values), ('neutral', 'neut' in values),
            ('bi', 'Ms-f' in values or 'ms-f' in values), ('general', 'GNdr' in values),
        ], actual.gender)
    if kind == 'number':
        return made(Number, [
            ('single', 'sing' in values), ('plural', 'plur' in values),
            ('only_single', 'Sgtm' in values), ('only_plural', 'Pltm' in values),
        ], actual.number)
    return made(Case, [
        ('mask', [_ in cases(values) for _ in CASES]),
        ('fixed', 'Fixd' in values)
    ], actual.case)


class FactClass(object):
    def __init__(self, rng, name, names):
        from yargy.interpretation import fact, attribute
        self.attrs = []
        items = []
        for name_ in names:
            x = rng.random()
            if x < 0.5:
                items.append(name_ if rng.random() < 0.7 else attribute(name_))
                self.attrs.append((name_, None, False))
            elif x < 0.75:
                default = rng.choice([0, '', 'd', False, (1, 2)])
                items.append(attribute(name_, default))
                self.attrs.append((name_, default, False))
            else:
                items.append(attribute(name_).repeatable())
                self.attrs.append((name_, None, True))
        self.cls = fact(name, items)

    def make(self, case, pool):
        """An instance with random keyword arguments"""
        rng = case.rng
        fields = []
        kwargs = {}
        for name, default, repeatable in self.attrs:
            if rng.random() < 0.4:
                fields.append((name, [] if repeatable else default))
                continue
            value = rng.choice(['x', 1, None, 0, 'x'])
            if rng.random() < 0.15 and pool:
                value = rng.choice(pool)
            if repeatable:
                value = [value] * rng.randint(0, 2)
            fields.append((name, value))
            kwargs[name] = plain(value)
        items = list(kwargs.items())
        rng.shuffle(items)
        actual = self.cls(**dict(items))
        case.count('facts')
        # every attribute is set, own lists
        other = self.cls()
        for name, default, repeatable in self.attrs:
            value = getattr(other, name)
            if repeatable:
                case.check(value == [] and type(value) is list, 'default of repeatable %s is %r' % (name, value))
                value.append('junk')
                case.check(getattr(self.cls(), name) == [], 'list of %s is shared between instances' % name)
                if name not in kwargs:
                    case.check(getattr(actual, name) == [], 'list of %s is shared between instances' % name)
            else:
                case.check(value == default and type(value) is type(default),
                           'default of %s is %r, not %r' % (name, value, default))
                setattr(other, name, 'junk')
        return made(self.cls, fields, actual)

    def unknown(self, case):
        """Unknown keywords are reported"""
        rng = case.rng
        names = [_[0] for _ in self.attrs]
        name = rng.choice(['zzz', '__attributes__', '_raw', 'spans', 'as_json'] + [_ + '_' for _ in names])
        kwargs = {_: 1 for _ in names if rng.random() < 0.5}
        kwargs[name] = 1
        try:
            value = self.cls(**kwargs)
        except KeyError:
            case.ok()
            case.count('key_errors')
        else:
            case.fail('unknown attribute %s is accepted: %r' % (name, value))


# ------------------------------------------------------------------ oracle


class Printer(object):
    """Stand-in of the IPython pretty printer"""

    def __init__(self):
        self.parts = []

    def text(self, value):
        self.parts.append(value)

    def break_(self):
        self.parts.append(' ')

    def breakable(self, sep=' '):
        self.parts.append(sep)

    def indent(self, size):
        return self

    def group(self, *_):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def pretty(self, value):
        show = getattr(value, '_repr_pretty_', None)
        if show:
            show(self, False)
        else:
            self.text(repr(value))

    @property
    def result(self):
        return ''.join(self.parts)


def blanks(text):
    return re.sub(r'\s+', '', text)


def show(value):
    """Expected repr"""
    from yargy.span import Span
    from yargy.morph import Grams, Form
    fields = dict(value.fields)
    if value.cls is Span:
        return '[%d, %d)' % (fields['start'], fields['stop'])
    if value.cls is Grams:
        return 'Grams(%s)' % ','.join(sorted(fields['values']))
    if value.cls is Form:
        return 'Form(%r, %r)' % (fields['normalized'], fields['grams'])
    return '%s(%s)' % (value.name, ', '.join('%s=%r' % _ for _ in value.fields))


def judge_one(case, value):
    actual = value.actual
    case.check(type(actual) is value.cls, 'class of %r is %s' % (actual, type(actual)))
    case.equal(list(actual), [_ for _name, _ in value.fields], 'fields of %r' % (actual,))
    for name, field in value.fields:
        case.equal(getattr(actual, name), field, 'field %s' % name)
    case.equal(repr(actual), show(value), 'repr')
    pretty = getattr(actual, '_repr_pretty_', None)
    if pretty:
        printer = Printer()
        pretty(printer, False)
        case.equal(blanks(printer.result), blanks(show(value)), 'pretty repr')
        printer = Printer()
        pretty(printer, True)
        case.check(isinstance(printer.result, str) and printer.result, 'pretty repr of a cycle')
    for stranger in (None, 0, '', repr(actual), list(actual), object()):
        case.check(not (actual == stranger), '%r equals %r' % (actual, stranger))
        case.check(actual != stranger, 'not (%r != %r)' % (actual, stranger))
        case.check(not (stranger == actual), '%r equals %r' % (stranger, actual))
    case.value('kinds', value.cls.__name__)


def hashed(value):
    try:
        return hash(value)
    except TypeError:
        return None


def judge_pairs(case, values):
    hashes = {id(_): hashed(_.actual) for _ in values}
    for a in values:
        for b in values:
            same = a.key == b.key
            case.count('pairs')
            case.check((a.actual == b.actual) is same, '%r == %r is not %s' % (a.actual, b.actual, same))
            case.check((a.actual != b.actual) is not same, '%r != %r is not %s' % (a.actual, b.actual, not same))
            if same:
                if a is not b:
                    case.count('equal_pairs')
                    case.seen(show(a))
                x, y = hashes[id(a)], hashes[id(b)]
                if x is not None and y is not None:
                    case.check(x == y, 'hashes of equal %r' % a.actual)
                    case.count('hash_equal', a is not b)
            elif a.cls is b.cls and sum(x != y for (_, x), (_, y) in zip(a.fields, b.fields)) == 1:
                case.count('near_pairs')
                case.seen(show(a), show(b))
    # membership
    items = [_.actual for _ in values]
    for value in values:
        index = next(i for i, _ in enumerate(values) if _.key == value.key)
        case.equal(items.index(value.actual), index, 'index of %r' % value.actual)
        case.equal(items.count(value.actual), sum(_.key == value.key for _ in values), 'count of %r' % value.actual)
    able = [_ for _ in values if hashes[id(_)] is not None]
    if able:
        case.equal(len({_.actual for _ in able}), len({_.key for _ in able}), 'size of the set')
        table = {_.actual: _.key for _ in able}
        for value in able:
            case.check(table[value.actual] == value.key, 'lookup of %r' % value.actual)


def same_kind(case):
    """Many values of one kind"""
    rng = case.rng
    kind = rng.choice([span, grams, form, token, token, parts])
    values = [kind(rng) for _ in range(24)]
    case.note(kind.__name__, *[repr(_.actual) for _ in values])
    for value in values:
        judge_one(case, value)
    judge_pairs(case, values)
    case.sample([repr(_.actual) for _ in values[:3]])


def mixed(case):
    rng = case.rng
    values = [rng.choice([span, grams, form, token, parts])(rng) for _ in range(24)]
    for value in values:
        judge_one(case, value)
    judge_pairs(case, values)


def spans(case):
    """Spans are (start, stop) pairs ordered by position"""
    from yargy.span import Span
    rng = case.rng
    pairs = [(rng.randint(0, 3), rng.randint(2, 6)) for _ in range(12)]
    items = [Span(*_) for _ in pairs]
    for item, pair in zip(items, pairs):
        start, stop = item
        case.equal((start, stop), pair, 'span unpacked')
        case.check(hash(item) == hash(pair), 'hash of a span and its pair')
        for other, right in zip(items, pairs):
            case.check((item == right) is (pair == right), 'span %r == %r' % (item, right))
            case.check((right == item) is (pair == right), '%r == span %r' % (right, item))
            case.check((item != right) is (pair != right), 'span %r != %r' % (item, right))
            case.check((right != item) is (pair != right), '%r != span %r' % (right, item))
            case.check((item < other) is (pair < right), '%r < %r' % (item, other))
            case.check((item > other) is (pair > right), '%r > %r' % (item, other))
        for right in ((pair[0],), pair + (0,), (str(pair[0]), pair[1]), ()):
            case.check(not (item == right) and item != right, 'span %r == %r' % (item, right))
    case.equal([tuple(_) for _ in sorted(items)], sorted(pairs), 'sorted spans')
    case.equal(tuple(min(items)), min(pairs), 'first span')
    case.equal(tuple(max(items)), max(pairs), 'last span')
    case.seen(sorted(pairs))


def facts(case):
    """Facts of several generated classes, some with equal names"""
    rng = case.rng
    names = ['a', 'b', 'c'][:rng.randint(1, 3)]
    classes = []
    for _ in range(rng.randint(2, 3)):
        keep = rng.getstate()
        classes.append(FactClass(rng, rng.choice(['F', 'G']), names))
        if rng.random() < 0.5:
            # the same declaration again: another class
            again = rng.getstate()
            rng.setstate(keep)
            classes.append(FactClass(rng, rng.choice(['F', 'G']), names))
            rng.setstate(again)
    case.count('fact_classes', len(classes))
    case.equal(len({id(_.cls) for _ in classes}), len(classes), 'different fact classes')
    values = []
    for _ in range(24):
        values.append(rng.choice(classes).make(case, values[-6:] if rng.random() < 0.3 else []))
    case.note(*[repr(_.actual) for _ in values])
    for value in values:
        judge_one(case, value)
    judge_pairs(case, values)
    for item in classes:
        item.unknown(case)
        # the class keeps its attributes
        for name, default, repeatable in item.attrs:
            attribute = getattr(item.cls, name)
            case.equal(attribute.name, name, 'attribute of the class')
            case.check(attribute.fact is item.cls, 'class of the attribute %s' % name)
    # setting an attribute changes that instance only
    cls = rng.choice(classes)
    name, default, repeatable = rng.choice(cls.attrs)
    one, two = cls.cls(), cls.cls()
    case.check(one == two, 'empty facts differ')
    before = list(two)
    if repeatable:
        getattr(one, name).append('z')
    else:
        setattr(one, name, 'z')
    case.check(one != two and not (one == two), 'changed fact is still equal')
    case.equal(list(two), before, 'another fact after a change')
    case.equal(list(cls.cls()), before, 'new fact after a change')


def rebuilt(value):
    """Equal value made by hand"""
    from yargy.interpretation.fact import Fact
    if isinstance(value, Fact):
        cls = type(value)
        return cls(**{name: rebuilt(item) for name, item in zip(cls.__attributes__, value)})
    if isinstance(value, list):
        return [rebuilt(_) for _ in value]
    return value


def matches(case):
    """Facts, tokens and spans of real matches equal values made by hand"""
    from yargy.span import Span
    rng = case.rng
    rules = FactRules(rng)
    root = rules.root(depth=2)
    case.note(*describe(root))
    made = parser(root, morph_tokenizer())
    for text in texts(rng, root, 3):
        case.notes.append('text %r' % text)
        first, second = list(made.findall(text)), list(made.findall(text))
        for a, b in zip(first, second):
            case.count('matches')
            case.check(a.span == b.span and a.tokens == b.tokens, 'spans and tokens of two calls')
            case.check(a.span == (a.tokens[0].span.start, a.tokens[-1].span.stop), 'span as a pair')
            case.check(a.span == Span(*a.span), 'span made by hand')
            for token in a.tokens:
                copy = type(token)(*token)
                case.check(copy == token and not (copy != token), 'token made by hand: %r' % token)
                other = type(token)(token.value + 'x', *list(token)[1:])
                case.check(other != token, 'token with another value: %r' % token)
            x, y, z = a.fact, b.fact, rebuilt(a.fact)
            case.check(x == y and not (x != y), 'facts of two calls')
            case.check(x == z and z == x and not (x != z), 'fact made by hand: %r' % x)
            case.equal(repr(z), repr(x), 'repr of the fact made by hand')
            case.equal(list(z), list(x), 'fields')
            for name in type(x).__attributes__:
                item = getattr(z, name)
                setattr(z, name, object())
                case.check(x != z and z != x and not (x == z), 'fact that differs in %s' % name)
                setattr(z, name, item)
            case.check(x == z, 'fact restored')
            case.seen(repr(x))
        case.notes.pop()


def tokenized(case):
    """Tokens of equal texts are equal; they differ when the text is shifted"""
    rng = case.rng
    tokenizer = rng.choice([plain_tokenizer, morph_tokenizer])()
    text = ' '.join(rng.choice(words.ANY) for _ in range(rng.randint(1, 5)))
    case.note('text %r' % text)
    one, two, shifted = list(tokenizer(text)), list(tokenizer(text)), list(tokenizer(' ' + text))
    case.check(one == two, 'tokens of equal texts')
    for a, b in zip(one, shifted):
        case.check(a != b and not (a == b), 'tokens at different places: %r' % a)
        case.check(a.value == b.value and a.type == b.type, 'token of the shifted text')
    for token in one:
        case.check(tuple(token)[:3] == (token.value, token.span, token.type), 'fields of a token')
        tagged = token.tagged('B')
        case.check(tagged != token and token != tagged, 'tagged token equals the untagged')
        case.check(tagged == token.tagged('B') and tagged != token.tagged('I'), 'tagged tokens')
        for form in getattr(token, 'forms', None) or []:
            case.check(hash(form) == hash(type(form)(form.normalized, form.grams)), 'hash of a form')
            case.check(form == type(form)(form.normalized, form.grams), 'form without raw')
    case.seen(text)


WORKLOADS = [
    W('kind', same_kind, 900, 12000),
    W('mixed', mixed, 500, 6000),
    W('spans', spans, 400, 3000),
    W('facts', facts, 900, 12000),
    W('matches', matches, 400, 6000),
    W('tokenized', tokenized, 400, 4000),
]
