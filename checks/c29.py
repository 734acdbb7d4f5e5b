"""C29: user-supplied tokenizers and tokens are used as they are."""
import contextlib

from vlib.run import W, Skip
from vlib import gram, ref, words, pipes
from vlib.gram import (
    describe, Derivations, Seq, Or, Rep, Term, Interp, Pred, Pipe, first_valid, eq
)
from vlib.gen import Grammars
from vlib.interp import FactSpec, ISpec, evaluate, canon, canon_model
from vlib.common import max_coverage
from vlib.ref import RTok, RForm

RULE = (
    'A case is a tokenizer derived from the library\'s ones (a stream of prepared tokens of any '
    'values, types and spans; filtered, merged or retyped tokens; already tokenized input as in the '
    'cookbook; own rules; own dictionary, own splitting of dictionary lines) and a rule over its '
    'tokens. Calls of the tokenizer are counted; matches, tokens, spans and values are compared '
    'with a reference recognizer and evaluator run on the tokens that tokenizer was made to yield. '
    'Non trivial: 1+ matches.'
)
QUICK = 1.3
MINIMUMS = {'calls': 4000, 'matches': 2000, 'kinds': 9, 'values': 600, 'constrained': 100, 'not_matching': 200,
            'pipeline_matches': 150, 'dictionary_matches': 100, 'generators': 200, 'orders': 4, 'activation_errors': 60, 'long_streams': 6}


@contextlib.contextmanager
def reference(lex=None, normals=None):
    """Reference lines and dictionary words go through the tokenizer's model"""
    kept = gram.lex, gram.normals
    if lex:
        gram.lex = lex
    if normals:
        gram.normals = normals
    try:
        yield
    finally:
        gram.lex, gram.normals = kept


def watched(base):
    class Watched(base):
        def __call__(self, text):
            self.seen.append(text)
            return base.__call__(self, text)

        def split(self, text):
            # not a parse
            size = len(self.seen)
            result = base.split(self, text)
            del self.seen[size:]
            return result
    Watched.__name__ = base.__name__
    return Watched


def judge(case, root, made, tokenizer, texts, forms=True):
    """texts: [(argument factory, reference tokens)]"""
    rng = case.rng
    listing = describe(root)
    fact = isinstance(root, Interp)
    for make, tokens in texts:
        for index, token in enumerate(tokens):
            token.index = index
        if len(tokens) > 12:
            continue
        size = len(case.notes)
        case.note(*['tokens'] + [repr((_.value, _.start, _.stop, _.type, _.tag)) for _ in tokens])
        derivations = Derivations(root, tokens, limit=500)
        derivations.load(1500)
        expected = derivations.recognizer.spans()
        accepts = bool(tokens) and derivations.recognizer.accepts()
        starts = {_.start: _.index for _ in tokens}
        stops = {_.stop: _.index + 1 for _ in tokens}

        notes = tokens.notes

        def call(method):
            text = make()
            del tokenizer.seen[:]
            result = getattr(made, method)(text)
            if method in ('findall', 'extract'):
                result = list(result)
            case.equal(len(tokenizer.seen), 1, 'calls of the tokenizer by %s()' % method)
            case.check(tokenizer.seen[0] is text, 'tokenizer was given %r instead of the text' % (tokenizer.seen[0],))
            case.count('calls')
            return result

        def check_match(match):
            first, last = match.tokens[0], match.tokens[-1]
            i = starts.get(first.span.start)
            j = stops.get(last.span.stop)
            case.check(i is not None and j is not None and i < j, 'match at %r' % match.span)
            case.equal(tuple(match.span), (tokens[i].start, tokens[j - 1].stop), 'span of the match')
            case.equal([ref.token_key(_, False) for _ in match.tokens],
                       [ref.rtok_key(_, False) for _ in tokens[i:j]], 'tokens of the match')
            case.check((i, j) in expected, 'tokens %s:%s are not a match' % (i, j))
            for actual, token in zip(match.tokens, tokens[i:j]):
                case.equal(getattr(actual, 'tag', None), token.tag, 'tag')
                case.equal(getattr(actual, 'note', None), notes.get(token.index), 'extra attribute of the token')
            return i, j

        found = call('findall')
        spans = []
        for match in found:
            i, j = check_match(match)
            spans.append((i, j))
            reading = first_valid(derivations.run(i, j), tokens)
            case.check(reading is not None, 'match without a derivation')
            case.equal([ref.token_key(_) for _ in match.tokens], [ref.rtok_key(_) for _ in reading.rtokens()],
                       'analyses of the tokens')
            case.count('constrained', any(a.forms is not None and len(a.forms) < len(b.forms or [])
                                          for a, b in zip(reading.rtokens(), tokens[i:j])))
            case.count('matches')
            case.seen(listing, [ref.rtok_key(_) for _ in tokens[i:j]])
            if fact:
                model = evaluate(reading.derivation, reading).final
                case.equal(canon(match.fact, None), canon_model(model), 'fact')
                case.count('values')
        case.check(all(a[1] <= b[0] for a, b in zip(spans, spans[1:])), 'matches overlap or are not in order: %s' % spans)
        case.equal(sum(j - i for i, j in spans), max_coverage(expected), 'covered tokens by %s of %s' % (spans, sorted(expected)))
        if not expected:
            case.count('not_matching')
        first = call('find')
        case.equal(bool(first), bool(expected), 'find()')
        if first:
            case.equal(check_match(first), spans[0], 'find()')
        match = call('match')
        case.equal(bool(match), accepts, 'match()')
        if match:
            case.equal(check_match(match), (0, len(tokens)), 'match()')
        case.equal({check_match(_) for _ in call('extract')}, expected, 'extract()')
        del case.notes[size:]
    case.sample({'rule': listing, 'tokens': [[repr(ref.rtok_key(_, False)) for _ in tokens] for _, tokens in texts[:2]]})


# ------------------------------------------------------------------- tokens

class Tokens(list):
    """Reference tokens with extra attributes of the real ones"""

    def __init__(self, *args):
        list.__init__(self, *args)
        self.notes = {}


VALUES = ['a', 'b', 'c', 'a', 'b', '', 'New York', 'a\nb', '12', '007', '-5', 'дом', 'ДОМА', 'стали', '"', '😀']
TYPES = ['X', 'Y', 'INT', 'RU', 'WORD', 'EOL']


def spans_for(rng, size, order):
    position = rng.randint(0, 3)
    spans = []
    for _ in range(size):
        if order == 'gaps':
            position += rng.randint(1, 3)
            spans.append((position, position + rng.randint(1, 4)))
        elif order == 'touching':
            spans.append((position, position + rng.randint(1, 3)))
        elif order == 'huge':
            position += rng.randint(1, 10 ** 12)
            spans.append((position, position + 1))
        elif order == 'overlapping':
            spans.append((position, position + rng.randint(3, 9)))
            position += rng.randint(1, 3)
            continue
        else:
            position += rng.randint(0, 2)
            spans.append((position, position + rng.randint(1, 4)))
        position = spans[-1][1]
    if order == 'decreasing':
        spans.reverse()
    if order == 'shuffled':
        rng.shuffle(spans)
    if len({_[0] for _ in spans}) < size or len({_[1] for _ in spans}) < size:
        return spans_for(rng, size, 'mixed')
    return spans


def real_form(form):
    from yargy.morph import Form, Grams
    return Form(form.normal, Grams(form.grams), form.raw)


def prepared(case, size):
    """-> (reference tokens, real tokens) of any values, types, spans"""
    from yargy.token import Token, MorphToken, TagToken, MorphTagToken
    from yargy.span import Span
    rng = case.rng

    class OwnToken(Token):
        note = None

    class OwnMorphToken(MorphToken):
        note = None

    order = rng.choice(['gaps', 'touching', 'huge', 'mixed', 'overlapping', 'decreasing', 'shuffled'])
    case.value('orders', order)
    model, real = Tokens(), []
    for index, (start, stop) in enumerate(spans_for(rng, size, order)):
        value = rng.choice(VALUES)
        type = rng.choice(TYPES)
        if type == 'INT':
            value = rng.choice(['12', '007', '-5', '3', '٣'])
        forms = None
        if type == 'RU' or rng.random() < 0.15:
            # analyses of any word, also of none of the Russian ones
            forms = ref.analyses(rng.choice(['дом', 'стали', 'красной', 'маши', value or 'ё']))
            if rng.random() < 0.3:
                forms = rng.sample(forms, rng.randint(1, len(forms)))
        tag = rng.choice(['B', 'I', None]) if rng.random() < 0.3 else None
        token = RTok(value, start, stop, type, forms, tag)
        span = Span(start, stop)
        if forms is None:
            item = rng.choice([Token, OwnToken])(value, span, type) if tag is None else TagToken(value, span, type, tag)
        else:
            items = [real_form(_) for _ in forms]
            item = (rng.choice([MorphToken, OwnMorphToken])(value, span, type, items)
                    if tag is None else MorphTagToken(value, span, type, tag, items))
        if isinstance(item, OwnToken):
            item.note = model.notes[index] = 'note %d' % index
        model.append(token)
        real.append(item)
    return model, real


def predicates(rng):
    kind = rng.choice(['eq', 'eq', 'type', 'type', 'gram', 'normalized', 'dictionary', 'custom', 'in_',
                       'caseless', 'length_eq', 'gte', 'lte', 'true', 'is_single', 'is_capitalized', 'not', 'is_upper'])
    if kind == 'eq':
        return eq(rng.choice(VALUES))
    if kind == 'type':
        return Pred(kind, rng.choice(TYPES))
    if kind == 'gram':
        return Pred(kind, rng.choice(['NOUN', 'sing', 'plur', 'VERB', 'gent']))
    if kind == 'normalized':
        return Pred(kind, rng.choice(['дом', 'сталь', 'маша', 'a']))
    if kind == 'dictionary':
        return Pred(kind, ['дом', 'сталь', 'b', 'машина'])
    if kind == 'custom':
        return Pred(kind, 'has_even_length', types=rng.choice([None, 'X', ['Y', 'RU']]))
    if kind == 'in_':
        return Pred(kind, ('a', '', 'New York', 'дом'))
    if kind == 'caseless':
        return Pred(kind, rng.choice(['new york', 'дома', 'A']))
    if kind == 'length_eq':
        return Pred(kind, rng.choice([0, 1, 3]))
    if kind in ('gte', 'lte'):
        return Pred(kind, rng.choice([0, 5, 12]))
    if kind == 'not':
        return Pred('not', subs=[predicates(rng)])
    return Pred(kind)


def grammar(rng, terms, interpreted=None):
    grammars = Grammars(rng, [terms], depth=rng.choice([1, 2, 2]), nested=False, forward=0.08, empty=0.03)
    root = grammars.root()
    if interpreted is None:
        interpreted = rng.random() < 0.5
    if interpreted:
        F = FactSpec('F', [('a', None, False)])
        chain = rng.choice([[], [], [('normalized',)], [('inflected', frozenset({'gent'}))], [('custom', 'first')]])
        root = Interp(Seq([Interp(Seq([root]), ISpec('attr', F, 'a', chain))]), ISpec('fact', F))
    return root


def own_morph():
    from vlib.common import morph_tokenizer
    return morph_tokenizer().morph


def stream(case):
    """Prepared tokens by text"""
    from yargy import Parser
    from yargy.tokenizer import Tokenizer, MorphTokenizer
    rng = case.rng
    root = grammar(rng, predicates)
    case.note(*describe(root))
    lazy = rng.random() < 0.5
    table = {}

    class Stream(rng.choice([Tokenizer, MorphTokenizer])):
        morph = None

        def __init__(self):
            self.morph = own_morph()
            self.types = set(TYPES)

        def __call__(self, text):
            items = table[text]
            return (_ for _ in items) if lazy else list(items)

    tokenizer = watched(Stream)()
    tokenizer.seen = []
    made = Parser(gram.build(root), tokenizer)
    texts = []
    for index in range(4):
        model, real = prepared(case, rng.choice([0, 1, 2, 3, 4, 6]))
        text = 'text %d' % index
        table[text] = real
        texts.append((lambda text=text: text, model))
    before = {text: [ref.token_key(_) for _ in items] for text, items in table.items()}
    case.value('kinds', 'stream' + ('/lazy' if lazy else ''))
    judge(case, root, made, tokenizer, texts)
    for text, items in table.items():
        case.equal([ref.token_key(_) for _ in items], before[text], 'tokens of the user after parsing')


def identity(case):
    """The cookbook's IdTokenizer: the text is already tokenized"""
    from yargy import Parser
    from yargy.tokenizer import Tokenizer
    rng = case.rng
    root = grammar(rng, predicates)
    case.note(*describe(root))

    class IdTokenizer(Tokenizer):
        def __init__(self, tokenizer):
            self.tokenizer = tokenizer

        def split(self, text):
            return self.tokenizer.split(text)

        def check_type(self, type):
            if type not in TYPES:
                return self.tokenizer.check_type(type)

        @property
        def morph(self):
            return self.tokenizer.morph

        def __call__(self, tokens):
            self.seen.append(tokens)
            return tokens

    from vlib.common import morph_tokenizer
    tokenizer = IdTokenizer(morph_tokenizer())
    tokenizer.seen = []
    made = Parser(gram.build(root), tokenizer)
    texts = []
    keep = []
    for index in range(4):
        model, real = prepared(case, rng.choice([0, 1, 2, 3, 4, 6]))
        kind = rng.choice(['list', 'tuple', 'generator'])
        if kind == 'generator':
            make = lambda real=real: (_ for _ in real)
            case.count('generators')
        else:
            items = real if kind == 'list' else tuple(real)
            make = lambda items=items: items
        keep.append((real, list(real), [ref.token_key(_) for _ in real]))
        texts.append((make, model))
    case.value('kinds', 'identity')
    judge(case, root, made, tokenizer, texts)
    for items, same, keys in keep:
        case.check(len(items) == len(same) and all(a is b for a, b in zip(items, same)), 'list of tokens was changed')
        case.equal([ref.token_key(_) for _ in items], keys, 'tokens of the user after parsing')


# ------------------------------------------------------ derived tokenizers

def merge_hyphens(tokens, make):
    """word-word is one token of type WORD"""
    tokens = list(tokens)
    index = 0
    while index < len(tokens):
        stop = index + 1
        while (
            stop + 1 < len(tokens) and tokens[stop][0] == '-'
            and tokens[stop - 1][3] in ('RU', 'LATIN') and tokens[stop + 1][3] in ('RU', 'LATIN')
            and tokens[stop - 1][2] == tokens[stop][1] and tokens[stop][2] == tokens[stop + 1][1]
        ):
            stop += 2
        if stop > index + 1:
            part = tokens[index:stop]
            yield make(''.join(_[0] for _ in part), part[0][1], part[-1][2], 'WORD')
        else:
            yield tokens[index]
        index = stop


def derived(rng):
    """-> (name, class, function from default tokens (value, start, stop, type) to the expected ones, morph type)"""
    from yargy.token import Token
    from yargy.span import Span
    from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule
    kind = rng.choice(['drop', 'merge', 'retype', 'lower', 'rules', 'punct'])

    if kind == 'drop':
        stop_words = {'и', 'на', 'в', ','}

        class Derived(MorphTokenizer):
            def __call__(self, text):
                for token in MorphTokenizer.__call__(self, text):
                    if token.value not in stop_words and token.type != 'EOL':
                        yield token
        return kind, Derived, lambda items: [_ for _ in items if _[0] not in stop_words and _[3] != 'EOL']

    if kind == 'merge':
        class Derived(MorphTokenizer):
            def __init__(self):
                super(Derived, self).__init__()
                self.types = self.types | {'WORD'}

            def __call__(self, text):
                items = list(MorphTokenizer.__call__(self, text))
                keys = {(_.span.start, _.span.stop): _ for _ in items}
                rows = [(_.value, _.span.start, _.span.stop, _.type) for _ in items]
                for value, start, stop, type in merge_hyphens(rows, lambda *args: args):
                    if (start, stop) in keys:
                        yield keys[start, stop]
                    else:
                        yield Token(value, Span(start, stop), type)
        return kind, Derived, lambda items: list(merge_hyphens(items, lambda *args: args))

    if kind == 'retype':
        # every token is a WORD, with analyses for the Russian ones
        class Derived(MorphTokenizer):
            def __init__(self):
                super(Derived, self).__init__()
                self.types = {'WORD', 'RU'}

            def __call__(self, text):
                for token in Tokenizer.__call__(self, text):
                    if token.type == 'RU':
                        yield token.morphed(self.morph(token.value))
                    else:
                        yield Token(token.value, token.span, 'WORD')
        return kind, Derived, lambda items: [_[:3] + ('RU' if _[3] == 'RU' else 'WORD',) for _ in items]

    if kind == 'lower':
        # values are not those of the text
        class Derived(MorphTokenizer):
            def __call__(self, text):
                for token in MorphTokenizer.__call__(self, text):
                    token.value = token.value.lower()
                    yield token
        return kind, Derived, lambda items: [(_[0].lower(),) + _[1:] for _ in items]

    if kind == 'rules':
        class Derived(MorphTokenizer):
            def __init__(self):
                super(Derived, self).__init__()
                self.add_rules(TokenRule('CODE', r'[a-z]+-?\d+'))
                self.remove_types('EOL')

        def expected(items):
            result = []
            index = 0
            while index < len(items):
                item = items[index]
                if item[3] == 'EOL':
                    index += 1
                    # the removed type frees its characters, they are blank
                    continue
                size = 0
                if item[3] == 'LATIN':
                    tail = items[index + 1:index + 3]
                    if tail and tail[0][3] == 'INT' and tail[0][1] == item[2]:
                        size = 2
                    elif (len(tail) == 2 and tail[0][0] == '-' and tail[0][1] == item[2]
                          and tail[1][3] == 'INT' and tail[1][1] == tail[0][2]):
                        size = 3
                if size:
                    part = items[index:index + size]
                    result.append((''.join(_[0] for _ in part), part[0][1], part[-1][2], 'CODE'))
                    index += size
                else:
                    result.append(item)
                    index += 1
            return result
        return kind, Derived, expected

    class Derived(MorphTokenizer):
        """Only letters and digits"""
        def __init__(self):
            super(Derived, self).__init__()
            self.remove_types('PUNCT', 'OTHER', 'EOL')
    return kind, Derived, lambda items: [_ for _ in items if _[3] in ('RU', 'LATIN', 'INT')]


LINES = ['дом книги', 'иван-да-марья', 'дом и сад', 'новый дом', 'a-b', 'x5', 'ip-7 дом', 'на реке', 'дом, сад', 'ИВАН', '№ 5',
         'красная площадь', 'дом']


def derived_tokenizers(case):
    """Pipelines and predicates follow the tokens of that tokenizer"""
    from yargy import Parser
    rng = case.rng
    kind, cls, transform = derived(rng)
    case.value('kinds', kind)

    def lex(text):
        return transform(ref.lex(text))

    types = {'drop': ['RU', 'INT', 'PUNCT'], 'merge': ['WORD', 'RU', 'INT'], 'retype': ['WORD', 'RU'],
             'lower': ['RU', 'LATIN'], 'rules': ['CODE', 'RU', 'INT'], 'punct': ['RU', 'INT']}[kind]
    lines = [_ for _ in rng.sample(LINES, rng.randint(2, 5)) if lex(_)]
    if not lines:
        raise Skip
    with reference(lex):
        made_pipes = [Pipe(rng.choice(['', 'caseless', 'morph']), lines)]

        def term(rng):
            return rng.choice([
                lambda: Pred('type', rng.choice(types)), lambda: Pred('gram', rng.choice(['NOUN', 'ADJF'])),
                lambda: Pred('normalized', rng.choice(['дом', 'книга', 'сад'])), lambda: Pred('is_capitalized'),
                lambda: eq(rng.choice(['дом', 'a', '5', 'x5', 'a-b', 'сад'])), lambda: Pred('true'),
            ])()

        pipe = made_pipes[0]
        shape = rng.choice(['pipe', 'pipe', 'seq', 'or', 'rep', 'rule'])
        if shape == 'pipe':
            root = pipe
        elif shape == 'seq':
            root = Seq([Term(term(rng)), pipe])
        elif shape == 'or':
            root = Or([pipe, Seq([Term(term(rng)), Term(term(rng))])])
        elif shape == 'rep':
            root = Rep(pipe, max=3)
        else:
            root = grammar(rng, term, False)
        if rng.random() < 0.4:
            F = FactSpec('F', [('a', None, False)])
            root = Interp(Seq([Interp(root, ISpec('attr', F, 'a', rng.choice([[], [('normalized',)]])))]), ISpec('fact', F))
        case.note(kind, *describe(root))
        tokenizer = watched(cls)()
        tokenizer.seen = []
        made = Parser(gram.build(root), tokenizer)
        texts = []
        for _ in range(4):
            parts = []
            for _ in range(rng.randint(1, 4)):
                parts.append(rng.choice([
                    lambda: rng.choice(lines), lambda: rng.choice(lines).upper(), lambda: rng.choice(LINES),
                    lambda: words.word(rng, words.NOUNS), lambda: rng.choice(['x5', 'a-b', 'ip-7', '\n', ', ', 'дома, сады']),
                    lambda: pipes.text(rng, [Pipe('morph', [rng.choice(lines)])])
                ])())
            text = rng.choice([' ', ' ', '  ', ', ']).join(parts)
            tokens = Tokens(
                RTok(value, start, stop, type, ref.analyses(text[start:stop]) if type == 'RU' else None)
                for value, start, stop, type in lex(text)
            )
            if ref_odd(text):
                continue
            texts.append((lambda text=text: text, tokens))
        before = case.stats.counters.get('matches', 0)
        judge(case, root, made, tokenizer, texts)
        if shape != 'rule':
            case.count('pipeline_matches', case.stats.counters.get('matches', 0) - before)


def ref_odd(text):
    return any(ref.fuzzy(_) for _ in text)


# --------------------------------------------------------- own dictionaries

class Tag(object):
    def __init__(self, grammemes):
        self.grammemes = frozenset(grammemes)


class Record(object):
    """Analysis of the made up dictionary"""

    def __init__(self, word, normal, grammemes):
        self.word = word
        self.normal_form = normal
        self.tag = Tag(grammemes)

    def inflect(self, grams):
        if 'NOPE' in self.tag.grammemes or 'gent' in grams:
            return
        return Record(self.normal_form + '+' + ','.join(sorted(grams)), self.normal_form, grams)


KNOWN = ['NOUN', 'FOO', 'BAR', 'sing', 'plur', 'NOPE']


class TagClass(object):
    @staticmethod
    def grammeme_is_known(gram):
        return gram in KNOWN


def analyses_of(word, sensitive=False):
    """Made up but fixed analyses of a word"""
    if not sensitive:
        word = word.lower()
    code = sum(ord(_) for _ in word)
    result = []
    for index in range(1 + code % 3):
        normal = [word[:2], word, 'лемма'][(code + index) % 3]
        grams = {KNOWN[(code + index) % len(KNOWN)], KNOWN[(code // 3 + 2 * index) % len(KNOWN)]}
        result.append(Record(word, normal, grams))
    return result


def own_dictionary(case):
    """MorphTokenizer over a made up analyzer"""
    from yargy import Parser
    from yargy.morph import MorphAnalyzer, Form, Grams
    from yargy.tokenizer import MorphTokenizer
    rng = case.rng
    asked = []
    sensitive = rng.random() < 0.5      # 'Кот' and 'кот' are different words

    def analyses_of(word):
        return globals()['analyses_of'](word, sensitive)

    class Raw(object):
        TagClass = TagClass

        def parse(self, word):
            asked.append(word)
            return analyses_of(word)

    class Own(object):
        """Anything with the methods of MorphAnalyzer"""

        def check_gram(self, gram):
            if gram not in KNOWN:
                raise ValueError(gram)

        def __call__(self, word):
            asked.append(word)
            return [Form(_.normal_form, Grams(_.tag.grammemes), _) for _ in analyses_of(word)]

        def normalized(self, word):
            return {_.normalized for _ in self(word)}

    kind = rng.choice(['raw', 'own'])
    case.value('kinds', 'dictionary/' + kind)
    morph = MorphAnalyzer(Raw()) if kind == 'raw' else Own()
    pool = ['дом', 'дома', 'лемма', 'кот', 'слон', 'щи', 'яма', 'ёж', 'a', '5', 'он', 'она', 'Кот', 'ЩИ', 'Дом', 'Он', 'ОН']

    def normals(word):
        return {_.normal_form for _ in analyses_of(word)}

    def term(rng):
        return rng.choice([
            lambda: Pred('gram', rng.choice(KNOWN)), lambda: Pred('gram', rng.choice(KNOWN)),
            lambda: Pred('normalized', rng.choice(pool)), lambda: Pred('dictionary', rng.sample(pool, 3)),
            lambda: Pred('is_single'), lambda: eq(rng.choice(pool)), lambda: Pred('type', 'RU'),
            lambda: Pred('not', subs=[Pred('gram', rng.choice(KNOWN))]),
        ])()

    with reference(None, normals):
        x = rng.random()
        if x < 0.3:
            root = Pipe('morph', [' '.join(rng.sample(pool, rng.randint(1, 2))) for _ in range(3)])
            if rng.random() < 0.5:
                # one word in several letter cases
                root.lines[0] = ' '.join(rng.choice([['кот', 'Кот'], ['Он', 'он', 'ОН'], ['дом', 'Дом'], ['ЩИ', 'щи']]))
            F = FactSpec('F', [('a', None, False)])
            if rng.random() < 0.5:
                root = Interp(Seq([Interp(root, ISpec('attr', F, 'a', [('normalized',)]))]), ISpec('fact', F))
        else:
            root = grammar(rng, term)
        case.note(kind, *describe(root))
        tokenizer = watched(MorphTokenizer)(morph=morph)
        tokenizer.seen = []
        made = Parser(gram.build(root), tokenizer)
        texts = []
        for _ in range(4):
            values = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
            text = ' '.join(values)
            tokens = Tokens(
                RTok(value, start, stop, type, [
                    RForm(_.normal_form, _.tag.grammemes, _) for _ in analyses_of(value)
                ] if type == 'RU' else None)
                for value, start, stop, type in ref.lex(text)
            )
            texts.append((lambda text=text: text, tokens))
        before = case.stats.counters.get('matches', 0)
        judge(case, root, made, tokenizer, texts)
        case.count('dictionary_matches', case.stats.counters.get('matches', 0) - before)
        case.check(asked, 'the analyzer was not asked')


def activation(case):
    """Types and grammemes are checked with that tokenizer"""
    import yargy
    from yargy import Parser
    from yargy import predicates as bank
    from yargy.morph import MorphAnalyzer
    from yargy.tokenizer import MorphTokenizer, Tokenizer, TokenRule
    rng = case.rng

    class Raw(object):
        TagClass = TagClass

        def parse(self, word):
            return analyses_of(word)

    tokenizer = MorphTokenizer([TokenRule('RU', '[а-яё]+'), TokenRule('NUMBER', r'\d+')], MorphAnalyzer(Raw()))
    good = rng.choice([bank.gram('FOO'), bank.gram('BAR'), bank.type('NUMBER'), bank.type('RU')])
    bad = rng.choice([bank.gram('VERB'), bank.gram('Name'), bank.type('INT'), bank.type('LATIN')])
    wrap = rng.choice([
        lambda _: yargy.rule(_), lambda _: yargy.rule('a', _), lambda _: yargy.rule(_).optional(),
        lambda _: yargy.or_(yargy.rule('a'), yargy.rule(_)), lambda _: yargy.rule(yargy.not_(_)).named('N'),
        lambda _: yargy.rule(yargy.and_(bank.true(), _)).repeatable(max=2)
    ])
    Parser(wrap(good), tokenizer)
    case.ok()
    try:
        Parser(wrap(bad), tokenizer)
    except ValueError:
        case.ok()
        case.count('activation_errors')
    else:
        case.fail('%s is accepted by a tokenizer that does not know it' % bad.label)
    # the standard one knows it
    from vlib.common import morph_tokenizer
    Parser(wrap(bad), morph_tokenizer())
    try:
        Parser(wrap(good), morph_tokenizer())
    except ValueError:
        case.ok()
    else:
        case.check(good.value == 'RU', '%s is accepted by the standard tokenizer' % good.label)


def long_stream(case):
    """Thousands of tokens, lazily made by the tokenizer of the user"""
    from yargy import Parser, rule, or_
    from yargy.predicates import eq
    from yargy.tokenizer import Tokenizer
    from yargy.token import Token
    from yargy.span import Span
    rng = case.rng
    size = rng.choice([4095, 4097, rng.randint(4100, 9000), 8193])
    # words of the rule are rare and stand next to every place a limit could be at
    marks = set(rng.sample(range(size - 4), 40)) | {0, size - 2}
    marks = {_ for _ in marks if _ - 1 not in marks}
    values = ['c'] * size
    for index in marks:
        values[index] = 'a'
        values[index + 1] = 'b'
    step = rng.choice([1, 7, 1000])

    class Lazy(Tokenizer):
        def __call__(self, text):
            return (Token(value, Span(index * step, index * step + 1), 'LATIN') for index, value in enumerate(values))

    made = Parser(rule('a', or_(rule(eq('b')), rule('d'))), Lazy())
    case.note('%d tokens, %d matches' % (size, len(marks)))
    expected = [(_ * step, (_ + 1) * step + 1) for _ in sorted(marks)]
    found = [(_.span.start, _.span.stop) for _ in made.findall('text')]
    case.equal(found, expected, 'spans of matches among %d tokens' % size)
    last = list(made.extract('text'))[-1]
    case.equal([(_.value, _.span.start) for _ in last.tokens], [('a', (size - 2) * step), ('b', (size - 1) * step)], 'last match')
    case.check(made.match('text') is None, 'match() of the whole')
    case.count('long_streams')
    case.seen('long', size, len(marks), step)


WORKLOADS = [
    W('stream', stream, 1200, 12000),
    W('identity', identity, 900, 9000),
    W('derived', derived_tokenizers, 700, 7000),
    W('dictionary', own_dictionary, 700, 7000),
    W('activation', activation, 120, 600),
    W('long', long_stream, 6, 60),
]
