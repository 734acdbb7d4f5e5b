"""C22: tags reach tag() exactly as the tagger set them."""
from vlib.run import W, Skip
from vlib.gram import (
    describe, Recognizer, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd, Pipe, eq, walk, build,
    first_valid
)
from vlib.interp import ISpec, FactSpec
from vlib.gen import Grammars, defined
from vlib.common import spans_of, morph_tokenizer, plain_tokenizer, max_coverage
from vlib import ref, words

RULE = (
    'A case is a tagger (or a composition of taggers) that logs the tokens it is given and tags '
    'some of them, a rule over tag(), grammatical and literal terms, with agreement and recursion, '
    'and texts. The log must be the tokens of the text in order, once per call; the matching runs '
    'must be those of a model with the same tags; reported tokens must keep text, span, type, tag '
    'and analyses. Non trivial: a match with tagged tokens.'
)
QUICK = 6
MINIMUMS = {'large': 8, 'tagged_tokens': 1000, 'matches': 1000, 'tags_of_analysed_words': 200, 'unknown_tags': 100,
            'compositions': 100, 'calls': 2000, 'agreement': 50, 'nested_compositions': 60}

TAGS = ['I', 'B', 'X', 'Y', 'LOC', '', 'тег', 'B-PER', 0, 7, 1000003, 2.5, -1, ('B', 'PER'), (), True, 'long tag ' * 5,
        ['B', 1], [], {'kind': 'PER'}, ('x', ['y'])]


def copied(tag):
    """Equal tag that is another object"""
    if isinstance(tag, str):
        return ''.join(list(tag))
    if isinstance(tag, tuple):
        return tuple(list(copied(_) for _ in tag))
    if isinstance(tag, list):
        return [copied(_) for _ in tag]
    if isinstance(tag, dict):
        return {key: copied(tag[key]) for key in tag}
    if isinstance(tag, bool):
        return tag
    if isinstance(tag, (int, float)):
        return type(tag)(str(tag))
    return tag



def hashable(tags):
    return not any('[' in repr(_) or '{' in repr(_) for _ in tags)


class Log(object):
    """Tagger that logs what it sees; shape varies like users write them"""

    def __init__(self, rng, tags, shape):
        self.assigned = {}
        self.tags = tags
        self.shape = shape
        self.hashable = hashable(tags)      # sets can not be asked about lists
        self.seen = []
        self.seed = rng.random()
        self.share = rng.choice([0.2, 0.6, 1])
        self.rng = rng

    def decide(self, position, value):
        """Tag of the token or None, the same in every call"""
        import random
        rng = random.Random('%s/%s/%s' % (self.seed, position, value))
        return copied(rng.choice(self.tags)) if self.tags and rng.random() < self.share else None

    def build(self):
        from yargy.tagger import Tagger
        log = self

        class Recorder(Tagger):
            tags = set(log.tags) if log.shape == 'set' and log.hashable else list(log.tags)

            def __call__(self, tokens):
                items = log.seen
                call = []
                items.append(call)
                if log.shape in ('list', 'crf'):
                    # sees the whole text at once
                    tokens = list(tokens)
                    call.extend(ref.token_key(_) for _ in tokens)
                    result = [self.one(position, token) for position, token in enumerate(tokens)]
                    return result if log.shape == 'list' else iter(result)
                return self.stream(tokens, call)

            def stream(self, tokens, call):
                for position, token in enumerate(tokens):
                    call.append(ref.token_key(token))
                    yield self.one(position, token)

            def one(self, position, token):
                tag = log.decide(position, token.value)
                return token if tag is None else token.tagged(tag)
        return Recorder()


def model(text, logs, morph):
    tokens = ref.tokenize(text, morph=morph)
    before = []
    for log in logs:
        before.append([ref.rtok_key(_) for _ in tokens])
        for position, token in enumerate(tokens):
            tag = log.decide(position, token.value)
            if tag is not None:
                tokens[position] = ref.RTok(token.value, token.start, token.stop, token.type, token.forms, tag, token.index)
    return tokens, before


def compose(rng, items):
    """Composition of taggers given as any iterable; a list stays the caller's"""
    from yargy.tagger import TaggersComposition
    items = list(items)
    shape = rng.choice(['list', 'list', 'tuple', 'iterator', 'generator', 'emptied'])
    if shape == 'tuple':
        return TaggersComposition(tuple(items))
    if shape == 'iterator':
        return TaggersComposition(iter(items))
    if shape == 'generator':
        return TaggersComposition(_ for _ in items)
    result = TaggersComposition(items)
    if shape == 'emptied':
        del items[:]
    return result


def judge(case, logs, root, texts, morph=True):
    from yargy import Parser
    from yargy.tagger import TaggersComposition, PassTagger
    rng = case.rng
    if not defined(root):
        raise Skip
    listing = describe(root)
    case.note(*listing)
    case.note('taggers %r' % [(_.tags, _.shape, _.share) for _ in logs])
    made = [_.build() for _ in logs]
    tagger = made[0] if len(made) == 1 else compose(rng, made)
    if len(made) > 1:
        case.count('compositions')
        x = rng.random()
        if x < 0.2:
            tagger = compose(rng, [made[0], compose(rng, made[1:])])
        elif x < 0.4:
            tagger = compose(rng, [compose(rng, made[:1] + [PassTagger()]), compose(rng, made[1:])])
        elif x < 0.5:
            tagger = compose(rng, [compose(rng, [compose(rng, made)]), PassTagger()])
        case.count('nested_compositions', x < 0.5)
    tokenizer = morph_tokenizer() if morph else plain_tokenizer()
    parser = Parser(build(root), tokenizer, tagger)
    for text in texts:
        case.notes.append('text %r' % text)
        tokens, before = model(text, logs, morph)
        derivations = Derivations(root, tokens, limit=200)
        derivations.load(1500 if len(tokens) < 20 else 20000)
        expected = set()
        readings = {}
        for i, j in derivations.spans():
            reading = first_valid(derivations.run(i, j), tokens)
            if reading:
                expected.add((i, j))
                readings[i, j] = reading
        for method in ('extract', 'findall', 'match', 'find'):
            for log in logs:
                del log.seen[:]
            result = getattr(parser, method)(text)
            matches = ([result] if result else []) if method in ('match', 'find') else list(result)
            case.count('calls')
            for log, wanted in zip(logs, before):
                case.equal(log.seen, [wanted], 'tokens given to the tagger by one call of %s()' % method)
            spans = spans_of(matches, tokens)
            if method == 'extract':
                case.equal(sorted(set(spans)), sorted(expected), 'matching runs')
            elif method == 'findall':
                case.equal(sum(j - i for i, j in spans), max_coverage(expected), 'covered tokens')
            elif method == 'match':
                case.equal(spans, [(0, len(tokens))] if (0, len(tokens)) in expected and tokens else [], 'match()')
            for match, (i, j) in zip(matches, spans):
                case.count('matches')
                case.check((i, j) in expected, 'run %s:%s' % (i, j))
                for token, wanted in zip(match.tokens, tokens[i:j]):
                    case.equal(ref.token_key(token)[:4], ref.rtok_key(wanted)[:4], 'text, span and type of token')
                    case.equal(getattr(token, 'tag', None), wanted.tag, 'tag of %r' % wanted)
                    case.equal(hasattr(token, 'tag'), wanted.tag is not None, 'has tag %r' % wanted)
                    if wanted.forms is None:
                        case.check(not getattr(token, 'forms', None), 'analyses appeared')
                    elif wanted.tag is not None:
                        case.count('tags_of_analysed_words')
                    if wanted.tag is not None:
                        case.count('tagged_tokens')
                        case.seen(listing, text, i, j)
                if method != 'extract':
                    reading = readings[i, j]
                    actual = [ref.token_key(_) for _ in match.tokens]
                    kept = [ref.rtok_key(_) for _ in reading.rtokens()]
                    if reading.marked:
                        case.count('agreement')
                        actual = [_[:4] + (_[4] and frozenset(_[4]),) + _[5:] for _ in actual]
                        kept = [_[:4] + (_[4] and frozenset(_[4]),) + _[5:] for _ in kept]
                    case.equal(actual, kept, 'tokens with analyses and tags')
        case.notes.pop()
    case.sample({'rule': listing, 'texts': texts, 'taggers': [(_.tags, _.shape) for _ in logs]})


def make_rule(rng, tags, morph):
    relation = RelSpec(rng.choice(['gnc', 'number', 'case']))

    def term(rng=rng):
        x = rng.random()
        if x < 0.5:
            return Pred('tag', rng.choice(tags))
        if x < 0.6:
            return Pred('and', subs=[Pred('tag', rng.choice(tags)), Pred('type', 'RU')])
        if x < 0.7:
            return Pred('not', subs=[Pred('tag', rng.choice(tags))])
        if x < 0.75:
            return Pred('or', subs=[Pred('tag', rng.choice(tags)), eq(rng.choice(words.PUNCT))])
        if x < 0.85 and morph:
            return Pred('gram', rng.choice(['NOUN', 'ADJF', 'Name']))
        if x < 0.9 and morph:
            return Pred('is_single')
        return Pred(rng.choice(['true', 'is_capitalized']))

    grammars = Grammars(rng, [term], depth=rng.choice([1, 2]), forward=0.1, share=0.1, empty=0.02, nested=False)
    root = grammars.root()
    if morph and rng.random() < 0.4:
        part = lambda gram: Rel(Term(Pred('and', subs=[Pred('tag', rng.choice(tags)), Pred('gram', gram)])
                                     if rng.random() < 0.3 else Pred('gram', gram)), relation)
        root = Or([Seq([part('ADJF'), part('NOUN')]), Seq([Rel(Term(Pred('tag', rng.choice(tags))), relation), part('NOUN')]), root])
    return root


def one(case):
    rng = case.rng
    tags = rng.sample(TAGS, rng.randint(1, 3))
    morph = rng.random() < 0.8
    log = Log(rng, tags, rng.choice(['stream', 'list', 'crf', 'set']))
    root = make_rule(rng, tags, morph)
    pool = words.ADJECTIVES + words.NOUNS + words.LATIN + words.NUMBERS + words.PUNCT
    judge(case, [log], root, [words.sentence(rng, rng.randint(0, 5), pool) for _ in range(3)], morph)


def composition(case):
    rng = case.rng
    logs = []
    union = []
    for _ in range(rng.randint(2, 3) if rng.random() < 0.85 else rng.choice([5, 9, 10, 17, 33])):
        tags = rng.sample(TAGS, rng.randint(1, 3))
        union += tags
        logs.append(Log(rng, tags, rng.choice(['stream', 'list', 'crf', 'set'])))
    morph = rng.random() < 0.8
    if not hashable(union):
        for log in logs:
            log.hashable = False
    root = make_rule(rng, union, morph)
    pool = words.ADJECTIVES + words.NOUNS + words.LATIN + words.NUMBERS + words.PUNCT
    judge(case, logs, root, [words.sentence(rng, rng.randint(0, 5), pool) for _ in range(3)], morph)


def large(case):
    """Long texts, many taggers, many tags"""
    rng = case.rng
    count = rng.choice([10, 70, 300])
    tags = [rng.choice([_, 'T%d' % _, ('t', _)]) for _ in range(count)]
    taggers = rng.choice([1, 1, 3, 6, 12])
    logs = []
    for _ in range(taggers):
        logs.append(Log(rng, tags if rng.random() < 0.5 else rng.sample(tags, 5), rng.choice(['stream', 'list', 'crf', 'set'])))
    known = [tag for log in logs for tag in log.tags]
    some = [rng.choice([known[-1], known[0], rng.choice(known), rng.choice(known)]) for _ in range(rng.choice([2, 5, 40]))]
    items = [Term(Pred('tag', _)) for _ in some]
    root = Or(items + [Seq([Term(Pred('tag', some[0])), Term(Pred('tag', some[1]))])])
    if rng.random() < 0.3:
        root = Rep(root, max=2)
    pool = words.NOUNS + words.LATIN + words.NUMBERS + words.PUNCT
    case.count('large')
    judge(case, logs, root, [words.sentence(rng, _, pool) for _ in rng.sample([1, 20, 70, 150, 300, 600], 2)], True)


def unknown(case):
    """Tags that taggers of the parser do not know; without a tagger none"""
    from yargy import Parser, rule, or_, and_, not_
    from yargy.predicates import tag, gram, eq
    from yargy.tagger import TaggersComposition, PassTagger, Tagger
    rng = case.rng
    tags = rng.sample(TAGS, 3)
    if not hashable(tags):
        tags = rng.sample([_ for _ in TAGS if hashable([_])], 3)
    known, other = tags[:2], tags[2]
    kind = rng.choice(['none', 'pass', 'one', 'composition', 'base', 'nested', 'own'])
    if kind == 'none':
        tagger, known = None, []
    elif kind == 'pass':
        tagger, known = PassTagger(), []
    elif kind == 'one':
        tagger = Log(rng, known, 'stream').build()
    elif kind == 'composition':
        tagger = TaggersComposition([Log(rng, [_], 'stream').build() for _ in known])
    elif kind == 'nested':
        tagger = TaggersComposition([
            TaggersComposition([PassTagger(), TaggersComposition([Log(rng, known[:1], 'stream').build()])]),
            Log(rng, known[1:], 'set').build()
        ])
    elif kind == 'own':
        # decides itself which tags it knows
        tagger = Log(rng, [], 'stream').build()
        tagger.check_tag = lambda tag: tag in known
        if rng.random() < 0.5:
            tagger = TaggersComposition([PassTagger(), tagger])
    else:
        tagger = TaggersComposition([PassTagger(), Log(rng, known, 'stream').build()])
    asked = rng.choice(known + [other, other, None, 'i'])
    pred = tag(asked)
    shape = rng.randrange(5)
    if shape == 0:
        item = rule(pred)
    elif shape == 1:
        item = rule('x', not_(pred))
    elif shape == 2:
        item = rule(and_(pred, or_(eq('x'), pred))).optional()
    elif shape == 3:
        item = or_(rule('x'), rule(pred).repeatable(min=2)).named('X')
    else:
        item = rule(rule(pred).match(__import__('yargy.relations').relations.gnc_relation()))
    case.note('%s tags %r tag(%r) shape %d' % (kind, known, asked, shape))
    case.ok()
    try:
        Parser(item, morph_tokenizer(), tagger)
    except ValueError:
        if asked in known:
            case.fail('known tag is rejected')
        case.count('unknown_tags')
    else:
        if asked not in known:
            case.fail('unknown tag is accepted')
        case.count('known_tags')
    case.seen(kind, asked in known, shape, case.i % 50)


WORKLOADS = [
    W('one', one, 500, 8000),
    W('composition', composition, 300, 5000),
    W('unknown', unknown, 300, 1000),
    W('large', large, 4, 120),
]
