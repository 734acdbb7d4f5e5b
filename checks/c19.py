"""C19: a parser keeps no history."""
from vlib.run import W, Skip
from vlib.gram import describe, Derivations, Seq, Or, Opt, Rep, Term, Pred, Named, Interp, Fwd, Pipe, eq, walk, build
from vlib.gen import Grammars, literal_texts, defined
from vlib.facts import FactRules, texts
from vlib.common import text_of, morph_tokenizer, plain_tokenizer, alphabet, LETTERS, LITERALS
from vlib.observe import outcome, match_view, fact_view, METHODS, call
from vlib import ref, words

RULE = (
    'A case is a rule and texts with the reference outcome of every call taken from a new parser '
    'per call. One parser then goes through a random history: calls on all texts, result iterators '
    'consumed partly, interleaved, dropped, kept until the end, facts read repeatedly and in any '
    'order, facts, JSON and lists of earlier matches modified by the caller, functions, relations, tokenizers and taggers of the user that '
    'raise in the middle of a call; parsers have taggers of their own, alone or composed. Every later result '
    'and every re-read match must equal its reference. Non trivial: history that re-reads matches '
    'of interleaved calls.'
)
TECHNIQUE = 'runtime monitoring: differential monitor, one parser over a random call history vs a new parser per call'
MINIMUMS = {'tagged': 150, 'failures': 350, 'failed_facts': 120, 'failures_of_relation': 8, 'calls': 3000, 'matches': 3000, 'interleaved': 300, 'rereads': 3000, 'mutations': 500, 'spoiled': 800, 'spoiled_forms': 200, 'partly': 200}


def vandalize(case, match):
    """What a caller may do with its own results"""
    rng = case.rng
    try:
        value = match.fact
    except (TypeError, ValueError):
        return
    if not hasattr(value, 'as_json'):
        return
    done = False
    for _ in range(2):
        key = rng.choice(type(value).__attributes__)
        item = getattr(value, key)
        if isinstance(item, list):
            if rng.random() < 0.5:
                item.append('junk')
            else:
                del item[:]
        elif hasattr(item, 'as_json'):
            inner = rng.choice(type(item).__attributes__)
            setattr(item, inner, 'junk')
        else:
            setattr(value, key, 'junk')
        done = True
    data = value.as_json
    for key in list(data):
        item = data[key]
        if isinstance(item, list) and rng.random() < 0.7:
            # user values keep their identity, lists of the mapping are its own
            if key in repeatable(value):
                item.append('junk')
        elif hasattr(item, 'items') and rng.random() < 0.7:
            item['junk'] = 1
        elif rng.random() < 0.3:
            del data[key]
    data['junk'] = 1
    spans = value.spans
    if spans:
        spans.append('junk')
        spans.reverse()
    if done:
        case.count('mutations')


def repeatable(value):
    return [
        key for key in type(value).__attributes__
        if 'Repeatable' in type(getattr(type(value), key)).__name__
    ]


class Reader(object):
    """Open result iterator with its reference"""

    def __init__(self, key, items, expected):
        self.key = key
        self.items = items
        self.expected = expected
        self.position = 0
        self.got = []
        self.done = False

    def step(self, case):
        match = next(self.items, None)
        if match is None:
            case.check(self.position == len(self.expected),
                       '%s %r gives %d matches, expected %d' % (self.key + (self.position, len(self.expected))))
            self.done = True
            return
        case.check(self.position < len(self.expected), '%s %r: too many matches' % self.key)
        self.got.append((match, self.expected[self.position]))
        self.position += 1


def judge(case, root, items, tokenizer=None, limit=800, facts=True, tagger=None, model=ref.tokenize):
    """tagger() gives a new tagger"""
    from yargy import Parser
    if not defined(root) or not items:
        raise Skip
    rng = case.rng
    tokenizer = tokenizer or morph_tokenizer()
    for text in items:
        Derivations(root, model(text), limit=200).load(limit)
    case.note(*describe(root))
    case.note('texts %r' % items)
    rule = build(root)
    reference = {}
    for text in items:
        for method in METHODS:
            made = Parser(build(root), tokenizer, tagger and tagger())
            reference[method, text] = [match_view(_, facts) for _ in call(made, method, text)]
    made = Parser(rule, tokenizer, tagger and tagger())
    readers = []
    kept = []
    steps = rng.randint(10, 25)
    for _ in range(steps):
        action = rng.random()
        if action < 0.35 or not (readers or kept):
            text = rng.choice(items)
            method = rng.choice(METHODS)
            expected = reference[method, text]
            case.count('calls')
            case.note('%s(%r)' % (method, text))
            if method in ('match', 'find'):
                match = getattr(made, method)(text)
                got = [] if match is None else [match]
                case.equal(len(got), len(expected), 'number of matches of %s(%r)' % (method, text))
                kept.extend(zip(got, expected))
            else:
                stream = made.extract(text, all=False) if method == 'extract_whole' else getattr(made, method)(text)
                readers.append(Reader((method, text), iter(stream), expected))
                if rng.random() < 0.1:
                    case.count('partly')
                    readers.pop()
        elif action < 0.7 and readers:
            reader = rng.choice(readers)
            case.note('next of %s(%r)' % reader.key)
            reader.step(case)
            if len(readers) > 1:
                case.count('interleaved')
            if reader.done or rng.random() < 0.1:
                readers.remove(reader)
                if not reader.done:
                    case.count('partly')
                kept.extend(reader.got)
        elif action < 0.82 and (kept or any(_.got for _ in readers)):
            pool = kept + [_ for reader in readers for _ in reader.got]
            match, expected = rng.choice(pool)
            what = rng.choice(['fact', 'view'])
            if what == 'fact' and facts:
                case.equal(fact_view(match), expected[-1], 'fact read again')
            else:
                case.equal(match_view(match, facts), expected, 'match read again')
            case.count('rereads')
        elif kept and facts:
            match, expected = rng.choice(kept)
            case.note('modify facts of %s' % (match.span,))
            vandalize(case, match)
            case.equal(fact_view(match), expected[-1], 'fact after an earlier copy of it was modified')
        if len(kept) > 60:
            rng.shuffle(kept)
            del kept[40:]
    while readers:
        reader = rng.choice(readers)
        while not reader.done and rng.random() < 0.8:
            reader.step(case)
        if reader.done:
            readers.remove(reader)
            kept.extend(reader.got)
    case.count('matches', len(kept))
    rng.shuffle(kept)
    for match, expected in kept[:80] + kept[:20]:
        case.equal(match_view(match, facts), expected, 'match read at the end')
        case.count('rereads')
    for text in items:
        method = rng.choice(METHODS)
        case.equal([match_view(_, facts) for _ in call(made, method, text)], reference[method, text],
                   '%s(%r) at the end' % (method, text))
    if len(kept) > 2:
        case.seen(describe(root), items, case.i)
    case.sample({'rule': describe(root), 'texts': items, 'history': case.notes[-10:]})


def annotated(case):
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0.25]))
    root = rules.root(rng.choice([1, 2]))
    judge(case, root, texts(rng, root, rng.randint(2, 4)))


def plain(case):
    rng = case.rng
    letters, literals = alphabet(rng)
    grammars = Grammars(rng, literals[:2], depth=3, share=0.2, forward=rng.choice([0, 0.2]), named=0.2)
    root = grammars.root()
    judge(case, root, [text_of(_) for _ in literal_texts(rng, root, letters, 3, 5)], plain_tokenizer(), limit=400, facts=False)


def tagged(case):
    """Tagger of the parser, alone or composed; texts that share their beginning or end"""
    from checks import c22
    from vlib.interp import ISpec, FactSpec
    rng = case.rng
    tags = rng.sample([_ for _ in c22.TAGS if c22.hashable([_])], rng.randint(1, 3))
    logs = [c22.Log(rng, tags, rng.choice(['stream', 'list', 'crf', 'set'])) for _ in range(rng.choice([1, 2, 2, 3]))]
    seed = rng.random()

    def tagger():
        import random
        made = [_.build() for _ in logs]
        return made[0] if len(made) == 1 and seed < 0.5 else c22.compose(random.Random(seed), made)

    root = c22.make_rule(rng, tags, True)
    if rng.random() < 0.5:
        F = FactSpec('F', [('a', None, False)])
        root = Interp(Seq([Interp(root, ISpec('attr', F, 'a', rng.choice([[], [('normalized',)]])))]), ISpec('fact', F))
    pool = words.ADJECTIVES + words.NOUNS + words.LATIN + words.NUMBERS
    values = [rng.choice(pool) for _ in range(rng.choice([2, 5, 9, 17]))]
    items = []
    for _ in range(rng.randint(2, 4)):
        items.append(' '.join(values))
        values = list(values)
        place = rng.choice([0, -1, -1, rng.randrange(len(values))])
        values[place] = rng.choice(pool)
    case.count('tagged')
    judge(case, root, items, limit=3000, tagger=tagger, model=lambda text: c22.model(text, logs, True)[0])


def agreement(case):
    """Words with many readings, shared by matches and by calls"""
    from vlib.gram import Rel, RelSpec
    from vlib.interp import ISpec, FactSpec
    rng = case.rng
    F = FactSpec('F', [('a', None, False), ('b', None, False), ('r', None, True)])
    relation = RelSpec(rng.choice(['gnc', 'number', 'case', 'gender']))
    other = RelSpec(rng.choice(['gnc', 'number', 'case']))

    def term(gram):
        node = Term(Pred('gram', gram))
        if rng.random() < 0.8:
            node = Rel(node, rng.choice([relation, relation, other]))
        chain = rng.choice([[], [('normalized',)], [('inflected', frozenset({'nomn', 'plur'}))]])
        if rng.random() < 0.3:
            return Interp(Interp(node, ISpec('norm', chain=chain or [('normalized',)])), ISpec('attr', F, 'r'))
        return Interp(node, ISpec('attr', F, rng.choice('ab'), chain))

    alternatives = [
        Seq([term(rng.choice(['ADJF', 'NOUN', 'Name', 'Surn', 'VERB'])) for _ in range(rng.randint(1, 3))])
        for _ in range(rng.randint(1, 3))
    ]
    root = Interp(Or(alternatives), ISpec('fact', F))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.SURNAMES + words.AMBIGUOUS
    repeated = rng.choice(pool)
    items = [words.sentence(rng, rng.randint(2, 5), pool + [repeated] * 20, tight=0) for _ in range(3)]
    judge(case, root, items)


def similar(case):
    """Texts that differ little: in letter case, at the end, at the beginning"""
    from vlib.interp import ISpec, FactSpec
    rng = case.rng
    F = FactSpec('F', [('a', None, False), ('b', None, False)])
    term = lambda: rng.choice([
        Pred('is_capitalized'), Pred('gram', rng.choice(['NOUN', 'ADJF', 'Name'])), Pred('type', rng.choice(['INT', 'LATIN', 'RU'])),
        Pred('is_upper'), Pred('is_lower'), Pred('is_title'), Pred('caseless', rng.choice(words.NOUNS)), eq(rng.choice(words.NOUNS)),
        Pred('length_eq', rng.randint(1, 5)), Pred('normalized', rng.choice(words.NOUNS)),
    ])
    chain = lambda: rng.choice([[], [], [('normalized',)], [('inflected', frozenset({'gent'}))]])
    root = Interp(Or([
        Seq([Interp(Term(term()), ISpec('attr', F, _, chain())) for _ in rng.choice(['a', 'ab', 'ba'])])
        for _ in range(rng.randint(1, 3))
    ]), ISpec('fact', F))
    pool = words.ADJECTIVES + words.NOUNS + words.NAMES + words.LATIN + words.NUMBERS
    size = rng.choice([3, 8, 20, 40])
    values = [words.recase(rng, rng.choice(pool)) for _ in range(size)]
    items = []
    base = ' '.join(values)
    items.append(base)
    for _ in range(rng.randint(2, 3)):
        how = rng.choice(['upper', 'lower', 'title', 'swap', 'end', 'begin', 'middle', 'spaces', 'cut', 'lines'])
        changed = list(values)
        if how in ('upper', 'lower', 'title'):
            text = getattr(base, how)()
        elif how == 'swap':
            text = base.swapcase()
        elif how == 'spaces':
            text = base.replace(' ', '  ')
        elif how == 'lines':
            text = base.replace(' ', '\n')
        elif how == 'cut':
            text = base[:len(base) * rng.choice([1, 2, 3]) // 4]
        else:
            place = {'end': size - 1, 'begin': 0, 'middle': size // 2}[how]
            changed[place] = rng.choice(pool)
            text = ' '.join(changed)
        if text not in items:
            items.append(text)
    judge(case, root, items, limit=5000)
    case.count('similar')


def spoil(case, match):
    """Change everything of a match"""
    from yargy.span import Span
    rng = case.rng
    tokens = list(match.tokens)
    for token in tokens:
        for action in rng.sample(['value', 'span', 'type', 'forms', 'list', 'note', 'tag'], rng.randint(1, 4)):
            if action == 'value':
                token.value = 'junk'
            elif action == 'span':
                token.span = Span(100, 104)
            elif action == 'type':
                token.type = 'JUNK'
            elif action == 'note':
                token.note = 'junk'
            elif action == 'tag':
                token.tag = 'JUNK'
            elif getattr(token, 'forms', None):
                if action == 'forms':
                    token.forms = token.forms[:1] * 2
                else:
                    rng.choice([token.forms.reverse, token.forms.clear, token.forms.pop, lambda: token.forms.append(token.forms[0])])()
                    case.count('spoiled_forms')
    if rng.random() < 0.5 and isinstance(match.tokens, list):
        rng.choice([match.tokens.clear, match.tokens.reverse, match.tokens.pop])()
    if rng.random() < 0.3 and isinstance(match.tree.root.children, list):
        match.tree.root.children[:] = match.tree.root.children[:1] * 2
    match.span = Span(7, 7)
    match.note = 'junk'
    case.count('spoiled')


def spoiled(case):
    """Matches changed by the caller, then the same texts again"""
    from yargy import Parser
    rng = case.rng
    if rng.random() < 0.5:
        rules = FactRules(rng, relations=rng.choice([0, 0.25]))
        root = rules.root(rng.choice([1, 2]))
        items = texts(rng, root, 3)
    else:
        part = lambda: rng.choice([Pred('type', 'RU'), Pred('gram', 'NOUN'), Pred('gram', 'ADJF'), Pred('true'), Pred('is_single'),
                                   Pred('type', 'LATIN')])
        root = Seq([Term(part()) for _ in range(rng.choice([1, 1, 2]))])
        items = [words.sentence(rng, rng.randint(1, 4), words.ANY, tight=0) for _ in range(3)]
    if not defined(root) or not items:
        raise Skip
    for text in items:
        Derivations(root, ref.tokenize(text), limit=200).load(800)
    # parts of other texts, words in another text
    items = items + [' '.join(rng.choice(items).split()[:2]), ' '.join(reversed(rng.choice(items).split()))]
    case.note(*describe(root))
    case.note('texts %r' % items)
    tokenizer = morph_tokenizer()
    made, other = Parser(build(root), tokenizer), Parser(build(root), tokenizer)
    reference = {
        (method, text): [match_view(_) for _ in call(Parser(build(root), tokenizer), method, text)]
        for text in items for method in METHODS
    }
    words_before = {text: [ref.token_key(_) for _ in tokenizer(text)] for text in items}
    kept = []
    for _ in range(8):
        text, method = rng.choice(items), rng.choice(METHODS)
        case.note('%s(%r)' % (method, text))
        matches = call(rng.choice([made, made, other]), method, text)
        case.equal([match_view(_) for _ in matches], reference[method, text], '%s(%r) after results were changed' % (method, text))
        if rng.random() < 0.4:
            # results of other calls
            kept.append((matches, reference[method, text], method, text))
        else:
            for match in matches:
                vandalize(case, match)
            # matches of one call may share tokens: no facts from here
            for match in matches:
                spoil(case, match)
        for old, expected, method, text in kept:
            case.equal([match_view(_) for _ in old], expected, 'earlier %s(%r) after results of other calls were changed' % (method, text))
    for text in items:
        case.equal([ref.token_key(_) for _ in tokenizer(text)], words_before[text], 'tokens after results were changed')


class Boom(Exception):
    pass


class Stop(BaseException):
    """Like KeyboardInterrupt"""


class Fuse(object):
    """Fails when it burns out, set by the history"""

    def __init__(self):
        self.left = None
        self.error = Boom

    def __call__(self):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                raise self.error()


def failed(case):
    """Functions, tokenizers and taggers of the user that raise in the middle of a parse"""
    from yargy import Parser
    from yargy.tokenizer import MorphTokenizer
    from yargy.tagger import Tagger
    from vlib.gram import Rel, RelSpec
    from vlib.interp import ISpec, FactSpec, USER
    rng = case.rng
    fuses = {_: Fuse() for _ in ('predicate', 'value', 'relation', 'tokenizer', 'tagger')}

    def guarded(name, function):
        def inner(*args):
            fuses[name]()
            return function(*args)
        return inner

    class FuseTokenizer(MorphTokenizer):
        def __call__(self, text):
            for token in MorphTokenizer.__call__(self, text):
                fuses['tokenizer']()
                yield token

    class FuseTagger(Tagger):
        tags = ['T']

        def __call__(self, tokens):
            for token in tokens:
                fuses['tagger']()
                yield token.tagged('T') if token.value.islower() else token

    short, same = guarded('predicate', lambda _: len(_) < 7), guarded('predicate', lambda _: True)
    F = FactSpec('F', [('a', None, False), ('b', 'none', False), ('r', None, True)])
    G = FactSpec('G', [('f', None, False), ('c', None, False)])
    relation = RelSpec('custom', function=guarded('relation', lambda a, b: bool(a[1] & b[1] & {'sing', 'plur'})))
    USER['fused'] = guarded('value', lambda _: str(_).upper())
    try:
        def term():
            pred = rng.choice([Pred('custom', short), Pred('custom', same), Pred('gram', rng.choice(['NOUN', 'ADJF'])),
                               Pred('type', 'RU'), Pred('and', subs=[Pred('type', 'RU'), Pred('custom', short)]), Pred('tag', 'T')])
            node = Term(pred)
            if rng.random() < 0.6:
                node = Rel(node, relation)
            chain = rng.choice([[('custom', 'fused')], [('normalized',), ('custom', 'fused')], [('normalized',)], []])
            if rng.random() < 0.2:
                return Interp(Interp(node, ISpec('norm', chain=chain or [('normalized',)])), ISpec('attr', F, 'r'))
            return Interp(node, ISpec('attr', F, rng.choice('ab'), chain))

        root = Interp(Or([
            Seq([rng.choice([lambda _: _, lambda _: _, Opt])(term()) for _ in range(rng.randint(1, 3))])
            for _ in range(rng.randint(1, 2))
        ]), ISpec('fact', F))
        if rng.random() < 0.4:
            root = Interp(Seq([Interp(root, ISpec('attr', G, 'f')), Term(Pred('custom', same))]), ISpec('fact', G))
        items = [words.sentence(rng, rng.randint(2, 6), words.ANY, tight=0) for _ in range(3)]
        case.note(*describe(root))
        case.note('texts %r' % items)
        base = morph_tokenizer().morph
        create = lambda rule: Parser(rule, FuseTokenizer(morph=base), FuseTagger())
        reference = {
            (method, text): [match_view(_) for _ in call(create(build(root)), method, text)]
            for text in items for method in METHODS
        }
        made = create(build(root))
        other = create(build(root))
        kept = []
        for _ in range(rng.randint(6, 12)):
            text, method = rng.choice(items), rng.choice(METHODS)
            name = rng.choice(list(fuses))
            fuse = fuses[name]
            fuse.left, fuse.error = rng.choice([1, 2, 3, 5, 8, 12]), rng.choice([Boom, Boom, Stop])
            case.note('%s(%r), the %s fails at call %d' % (method, text, name, fuse.left))
            one = rng.choice([made, made, made, other])
            got = []
            try:
                if method in ('match', 'find'):
                    match = getattr(one, method)(text)
                    got = [] if match is None else [match]
                else:
                    for match in (one.extract(text, all=False) if method == 'extract_whole' else getattr(one, method)(text)):
                        got.append(match)
            except (Boom, Stop):
                case.count('failures')
                case.count('failures_of_%s' % name)
            else:
                fuse.left = None
                case.equal([match_view(_) for _ in got], reference[method, text], '%s(%r)' % (method, text))
            fuse.left = None
            # what was found before the failure stays good, its facts may fail as well
            kept.extend(zip(got, reference[method, text]))
            if kept and rng.random() < 0.5:
                match, expected = rng.choice(kept)
                value = fuses['value']
                value.left, value.error = rng.choice([1, 2]), rng.choice([Boom, Stop])
                try:
                    match.fact
                except (Boom, Stop):
                    case.count('failed_facts')
                value.left = None
                case.equal(fact_view(match), expected[-1], 'fact after a function failed')
            for match, expected in rng.sample(kept, min(3, len(kept))):
                case.equal(match_view(match), expected, 'match of an earlier call')
            text, method = rng.choice(items), rng.choice(METHODS)
            case.equal([match_view(_) for _ in call(rng.choice([made, other]), method, text)], reference[method, text],
                       '%s(%r) after a failure' % (method, text))
        case.seen(describe(root), items)
    finally:
        del USER['fused']


WORKLOADS = [
    W('failed', failed, 250, 3000),
    W('spoiled', spoiled, 300, 4000),
    W('annotated', annotated, 500, 8000),
    W('plain', plain, 300, 5000),
    W('agreement', agreement, 400, 7000),
    W('similar', similar, 300, 4000),
    W('tagged', tagged, 300, 4000),
]
