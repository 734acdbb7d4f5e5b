"""C21: parsers and rules can be used from several threads at once."""
import random
import sys
import threading
import time

from vlib.run import W, Skip, YARGY, through_yargy
from vlib.gram import (
    describe, Derivations, Seq, Or, Opt, Rep, Term, Rel, RelSpec, Pred, Named, Interp, Fwd, Pipe, eq, walk, build
)
from vlib.gen import Grammars, literal_texts, defined
from vlib.facts import FactRules, texts
from vlib.interp import ISpec, FactSpec
from vlib.common import text_of, morph_tokenizer, LETTERS, LITERALS
from vlib.observe import outcome, match_view, METHODS, call
from vlib import ref, words

RULE = (
    'A case is a rule, texts and a reference outcome of every call made alone. Then 3-6 threads '
    'run random calls at once (parsers from the shared rule, a shared parser, a shared tokenizer '
    'whose analysis cache is cold, taggers and compositions of them, facts of shared matches, BNF, pictures) while a trace function '
    'forces thread switches at random lines of yargy; every result must equal its reference. '
    'Switches are logged as (line left, line entered). Non trivial: case with 20+ forced switches.'
)
TECHNIQUE = 'runtime monitoring: differential monitor under stress threads with injected switches'
MINIMUMS = {'calls': 2000, 'switches': 5000, 'switch_pairs': 300, 'operations': 8, 'cold_caches': 20, 'pipelines': 40, 'taggers': 40}


class Scheduler(object):
    """Trace function that yields the GIL at random lines of yargy.

    focus: only functions of a random group are interrupted, nearly at every
    line: other threads meet the half done work of just these functions"""

    def __init__(self, seed, rate, focus=0):
        self.seed = seed
        self.rate = rate
        self.focus = focus
        self.groups = {}
        self.last = None
        self.switches = 0
        self.pairs = set()
        self.local = threading.local()

    def global_trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(YARGY):
            return self.trace

    def trace(self, frame, event, arg):
        if event == 'line':
            rng = self.local.rng
            here = (frame.f_code.co_name, frame.f_lineno)
            me = threading.get_ident()
            last = self.last
            if last is not None and last[0] != me:
                self.switches += 1
                self.pairs.add((last[1], here))
            self.last = (me, here)
            if self.focus:
                code = frame.f_code
                group = self.groups.get(code)
                if group is None:
                    name = '%s/%s/%d' % (code.co_filename, code.co_name, code.co_firstlineno)
                    group = self.groups[code] = random.Random('%s/%s' % (self.seed, name)).randrange(self.focus)
                if not group and rng.random() < 0.7:
                    time.sleep(rng.choice([0, 0.00005, 0.0002]))
            elif rng.random() < self.rate:
                time.sleep(rng.choice([0, 0, 0, 0.0001]))
        return self.trace

    def run(self, number, function):
        self.local.rng = random.Random('%s/%d' % (self.seed, number))
        sys.settrace(self.global_trace)
        try:
            function()
        finally:
            sys.settrace(None)


def stress(case, jobs, rate, focus=0):
    """jobs: list of lists of (name, function, expected) per thread"""
    scheduler = Scheduler('%s/%s' % (case.seed, case.i), rate, focus)
    errors = []
    barrier = threading.Barrier(len(jobs))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)

    def worker(number, items):
        def work():
            for name, function, expected in items:
                try:
                    actual = function()
                except Exception as error:
                    errors.append((name, error, None, through_yargy(error.__traceback__)))
                    return
                if actual != expected:
                    errors.append((name, actual, expected, True))
                    return
        barrier.wait()
        scheduler.run(number, work)

    threads = [
        threading.Thread(target=worker, args=(number, items), daemon=True)
        for number, items in enumerate(jobs)
    ]
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(old)
    for items in jobs:
        for name, _, _ in items:
            case.ok()
            case.count('calls')
            case.value('operations', name.split(' ')[0])
    case.count('switches', scheduler.switches)
    for pair in scheduler.pairs:
        case.value('switch_pairs', hash(pair))
    if scheduler.switches >= 20:
        case.seen(case.notes[:3], len(scheduler.pairs))
    for name, actual, expected, ours in errors:
        if isinstance(actual, Exception):
            if not ours:
                raise actual
            case.fail('%s raised %s: %s, alone it does not' % (name, type(actual).__name__, actual))
        case.fail('%s in parallel: got %s, alone %s' % (name, repr(actual)[:600], repr(expected)[:600]))


def view(parser, method, text, facts):
    return [match_view(_, facts) for _ in call(parser, method, text)]


def judge(case, root, items, facts, limit=400):
    from yargy import Parser, rule as seq, or_
    from yargy.tokenizer import MorphTokenizer
    if not defined(root) or not items:
        raise Skip
    rng = case.rng
    for text in items:
        Derivations(root, ref.tokenize(text), limit=150).load(limit)
    case.note(*describe(root))
    case.note('texts %r' % items)
    rule = build(root)
    tokenizer = MorphTokenizer() if case.i % 8 == 0 else morph_tokenizer()
    if case.i % 8 == 0:
        case.count('cold_caches')
    alone = Parser(build(root), morph_tokenizer())
    expected = {
        (method, text): view(alone, method, text, facts)
        for method in METHODS for text in items
    }
    tokens = {text: [ref.token_key(_) for _ in morph_tokenizer()(text)] for text in items}
    listing = list(alone.rule.as_bnf.source)
    dot = list(build(root).as_dot.source)
    has_pipes = any(isinstance(_, Pipe) for _ in walk(root))
    normal = None if has_pipes else list(build(root).normalized.as_bnf.source)
    shared = Parser(rule, tokenizer)
    matches = {text: list(shared.extract(text)) for text in items} if rng.random() < 0.5 else {}

    def interleave(keys):
        """Two result iterators of the shared parser by turns"""
        streams = [iter(shared.findall(text) if method == 'findall' else shared.extract(text)) for method, text in keys]
        got = [[] for _ in keys]
        alive = list(range(len(keys)))
        while alive:
            for index in list(alive):
                match = next(streams[index], None)
                if match is None:
                    alive.remove(index)
                else:
                    got[index].append(match_view(match, facts))
        return got

    def job():
        x = rng.random()
        text = rng.choice(items)
        method = rng.choice(METHODS)
        if x < 0.35:
            return 'shared %s(%r)' % (method, text), lambda: view(shared, method, text, facts), expected[method, text]
        if x < 0.55:
            return 'new parser %s(%r)' % (method, text), lambda: view(Parser(rule, tokenizer), method, text, facts), expected[method, text]
        if x < 0.62:
            keys = [(rng.choice(['findall', 'extract']), rng.choice(items)) for _ in range(2)]
            return 'iterators %r' % (keys,), lambda: interleave(keys), [expected[_] for _ in keys]
        if x < 0.7:
            return 'tokenizer %r' % text, lambda: [ref.token_key(_) for _ in tokenizer(text)], tokens[text]
        if x < 0.82 and matches:
            return ('facts of %r' % text, lambda: [match_view(_, facts) for _ in matches[text]],
                    expected['extract', text])
        if x < 0.88:
            return 'bnf', lambda: list(shared.rule.as_bnf.source), listing
        if x < 0.92:
            return 'dot', lambda: list(rule.as_dot.source), dot
        if x < 0.96 and normal is not None:
            return 'normalized bnf', lambda: list(rule.normalized.as_bnf.source), normal
        return ('embedded %r' % text,
                lambda: [(_.span.start, _.span.stop) for _ in Parser(seq(or_(rule, rule)), tokenizer).findall(text)],
                [_[0] for _ in expected['findall', text]])

    jobs = [[job() for _ in range(rng.randint(2, 4))] for _ in range(rng.randint(3, 6))]
    for number, job_list in enumerate(jobs):
        case.note('thread %d: %s' % (number, '; '.join(_[0] for _ in job_list)))
    stress(case, jobs, rng.choice([0.02, 0.05, 0.2]), rng.choice([0, 0, 8, 20]))
    case.sample({'rule': describe(root), 'texts': items, 'threads': [[_[0] for _ in job] for job in jobs]})


def annotated(case):
    rng = case.rng
    rules = FactRules(rng, relations=rng.choice([0, 0.25]))
    # user functions that log calls are not the subject
    root = rules.root(1)
    judge(case, root, texts(rng, root, 3, size=6), True)


def plain(case):
    rng = case.rng
    grammars = Grammars(rng, LITERALS[:2], depth=3, share=0.3, forward=0.2, named=0.2)
    root = grammars.root()
    judge(case, root, [text_of(_) for _ in literal_texts(rng, root, LETTERS, 3, 4)], False, limit=200)


def morphology(case):
    """One analyzer with a cold cache, the same words in every thread"""
    from yargy import Parser
    from yargy.tokenizer import MorphTokenizer
    rng = case.rng
    relation = RelSpec('gnc')
    F = FactSpec('F', [('a', None, False), ('b', None, False)])
    root = Interp(Seq([
        Interp(Rel(Term(Pred('gram', 'ADJF')), relation), ISpec('attr', F, 'a', [('normalized',)])),
        Interp(Rel(Term(Pred('gram', 'NOUN')), relation), ISpec('attr', F, 'b', [('inflected', frozenset({'nomn', 'plur'}))])),
    ]), ISpec('fact', F))
    items = [words.sentence(rng, 8, words.ADJECTIVES + words.NOUNS, tight=0) for _ in range(3)]
    case.note(*describe(root))
    case.note('texts %r' % items)
    alone = Parser(build(root), MorphTokenizer())
    expected = {text: view(alone, 'findall', text, True) for text in items}
    tokenizer = MorphTokenizer()
    case.count('cold_caches')
    rule = build(root)
    shared = Parser(rule, tokenizer)

    def job():
        text = rng.choice(items)
        if rng.random() < 0.5:
            return 'shared findall(%r)' % text, lambda: view(shared, 'findall', text, True), expected[text]
        return 'new parser findall(%r)' % text, lambda: view(Parser(rule, tokenizer), 'findall', text, True), expected[text]

    jobs = [[job() for _ in range(3)] for _ in range(4)]
    stress(case, jobs, 0.03)


def pipelines(case):
    """One pipeline, threads that read different lines of it"""
    from yargy import Parser
    rng = case.rng
    lines = ['дом', 'книга', 'стол', 'окно', 'красный дом', 'старая книга', 'стол у окна', 'новый', 'директор', 'директор школы', 'стали', 'сталь']
    kind = rng.choice(['', 'caseless', 'morph', 'morph'])
    pipe = Pipe(kind, rng.sample(lines, rng.randint(5, len(lines))))
    root = pipe if rng.random() < 0.5 else Rep(Seq([pipe]), max=2)
    pool = [_ for line in pipe.lines for _ in line.split()] + ['домом', 'книгу', 'стали', 'КРАСНЫЙ', 'новых', 'и']
    items = [' '.join(rng.choice(pool) for _ in range(rng.randint(3, 8))) for _ in range(4)]
    case.note(*describe(root))
    case.note('texts %r' % items)
    alone = Parser(build(root), morph_tokenizer())
    rule = build(root)
    shared = Parser(rule, morph_tokenizer())
    expected = {text: view(alone, 'findall', text, False) for text in items}

    def job(text):
        if rng.random() < 0.8:
            return 'shared findall(%r)' % text, lambda: view(shared, 'findall', text, False), expected[text]
        return 'new parser findall(%r)' % text, lambda: view(Parser(rule, morph_tokenizer()), 'findall', text, False), expected[text]

    jobs = [[job(text) for _ in range(4)] for text in items]
    stress(case, jobs, rng.choice([0.05, 0.1]), rng.choice([0, 4, 8]))
    case.count('pipelines')


def taggers(case):
    """One tagger or a composition of several, threads that read different texts"""
    from yargy import Parser
    from checks import c22
    rng = case.rng
    tags = rng.sample([_ for _ in c22.TAGS if c22.hashable([_])], rng.randint(1, 3))
    logs = [c22.Log(rng, tags, rng.choice(['stream', 'list', 'crf', 'set'])) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    root = c22.make_rule(rng, tags, True)
    if not defined(root):
        raise Skip
    pool = words.ADJECTIVES + words.NOUNS + words.LATIN + words.NUMBERS
    items = [words.sentence(rng, rng.randint(2, 5), pool) for _ in range(4)]
    case.note(*describe(root))
    case.note('texts %r' % items, 'taggers %r' % [(_.tags, _.shape, _.share) for _ in logs])
    for text in items:
        Derivations(root, c22.model(text, logs, True)[0], limit=150).load(600)
    tagger = c22.compose(rng, [_.build() for _ in logs])
    other = c22.compose(rng, [_.build() for _ in logs])
    alone = Parser(build(root), morph_tokenizer(), other)
    rule = build(root)
    shared = Parser(rule, morph_tokenizer(), tagger)
    expected = {(method, text): view(alone, method, text, False) for method in METHODS for text in items}

    def job(text):
        method = rng.choice(METHODS)
        if rng.random() < 0.8:
            return 'shared %s(%r)' % (method, text), lambda: view(shared, method, text, False), expected[method, text]
        return ('new parser %s(%r)' % (method, text),
                lambda: view(Parser(rule, morph_tokenizer(), tagger), method, text, False), expected[method, text])

    jobs = [[job(text) for _ in range(3)] for text in items]
    case.count('taggers')
    stress(case, jobs, rng.choice([0.02, 0.05, 0.2]), rng.choice([0, 0, 4, 8]))


def analyzer(case):
    """One analyzer, tokenizer: small operations, interrupted at most lines"""
    from yargy.tokenizer import MorphTokenizer, Tokenizer
    from yargy.morph import MorphAnalyzer, CachedMorphAnalyzer
    rng = case.rng
    pool = rng.sample(words.ADJECTIVES + words.NOUNS + words.NAMES + words.UNKNOWN, 6)
    single = MorphAnalyzer()
    cached = CachedMorphAnalyzer()
    tokenizers = [MorphTokenizer(morph=single), MorphTokenizer(), Tokenizer()]
    alone = MorphTokenizer(morph=MorphAnalyzer())
    plain = Tokenizer()

    def keys(forms):
        return [ref.form_key(_) for _ in forms]

    def inflected(form):
        return form.inflect({'gent', 'plur'})

    def job():
        word = rng.choice(pool)
        x = rng.random()
        if x < 0.3:
            return 'analyzer %r' % word, lambda: keys(single(word)), keys(alone.morph(word))
        if x < 0.4:
            return 'cached analyzer %r' % word, lambda: keys(cached(word)), keys(alone.morph(word))
        if x < 0.55:
            return 'normalized %r' % word, lambda: single.normalized(word), alone.morph.normalized(word)
        if x < 0.7:
            return ('inflected %r' % word, lambda: [inflected(_) for _ in single(word)],
                    [inflected(_) for _ in alone.morph(word)])
        text = words.sentence(rng, 4)
        index = rng.randrange(3)
        tokenizer = tokenizers[index]
        expected = [ref.token_key(_) for _ in (plain if index == 2 else alone)(text)]
        return 'tokens %r' % text, lambda: [ref.token_key(_) for _ in tokenizer(text)], expected

    jobs = [[job() for _ in range(5)] for _ in range(rng.randint(2, 4))]
    for number, job_list in enumerate(jobs):
        case.note('thread %d: %s' % (number, '; '.join(_[0] for _ in job_list)))
    stress(case, jobs, rng.choice([0.3, 0.6]))


WORKLOADS = [
    W('analyzer', analyzer, 120, 1500),
    W('annotated', annotated, 200, 3000),
    W('plain', plain, 150, 2000),
    W('morphology', morphology, 40, 600),
    W('pipelines', pipelines, 80, 1000),
    W('taggers', taggers, 100, 1500),
]
