"""C02: editing tokenizer rules does exactly what was asked, to that tokenizer."""
import re
from itertools import islice
from vlib.run import W, Skip
from vlib import ref, words

RULE = (
    'A case is a random history of add_rules / remove_types (valid and invalid) and tokenization '
    'over several tokenizers with and without morphology; after every step all of them, fresh '
    'ones, the shared default rules and tokens kept from before are compared with a model that '
    'tries the rules one by one at every position. Non trivial: distinct rule lists seen.'
)
QUICK = 3
MINIMUMS = {'edits': 1500, 'rejected_edits': 200, 'tokenized': 3000, 'same_rule_twice': 30, 'rule_lists': 500,
            'skipped_characters': 200, 'own_tokenizers': 60, 'own_rules_again': 100, 'emptied': 60, 'sources_of_rules': 150,
            'edits_while_reading': 500}

PATTERNS = [
    ('EMAIL', None), ('PHONE', None),
    ('FLOAT', r'\d+[.,]\d+'), ('CODE', r'[a-z]+\d+'), ('QUOTED', r'"[^"\n]*"'), ('YEAR', r'\d{4}'),
    ('ABBR', r'(?:[а-яё]\.)+'), ('KEY', 'ооо|abc|ип'), ('GROUP', r'(а|б)(в|г)?'), ('DATE', r'(\d\d?)\.(\d\d?)'),
    ('MARK', r'[%№€]+'), ('INT', r'\d'), ('RU', r'[а-яё]+(?:-[а-яё]+)+'), ('LATIN', r'[a-z]'),
    ('SPACE', r'[ \t]+'), ('PUNCT', r'\.\.\.'), ('WORD', r'([а-яё]{2,4})\w*'), ('HASH', r'#\w+'),
    ('OTHER', '[б-д]'), ('X', 'x'), ('RU', 'ё'),
    ('INTERVAL', r'\d+-\d+'), ('PUNCTUATION', '[,.]'), ('U', 'у+'), ('RURU', 'да'), ('EMAILS', 'x@y'), ('LATIN-1', '[a-c]'), ('N', '1'),
    ('', 'abv'), ('rule_0', 'q+'), ('ru', 'же'),
]
DEFAULT_PATTERNS = None


class Model(object):
    def __init__(self, rules):
        self.rules = list(rules)        # [(type, pattern)]
        self.compiled = {}

    @property
    def types(self):
        return {type for type, _ in self.rules}

    def __call__(self, text):
        result = []
        index = 0
        compiled = [(type, re.compile(pattern, re.UNICODE | re.IGNORECASE)) for type, pattern in self.rules]
        skipped = 0
        while index < len(text):
            for type, regexp in compiled:
                match = regexp.match(text, index)
                if match:
                    result.append((match.group(), index, match.end(), type))
                    index = match.end()
                    break
            else:
                skipped += not text[index].isspace()
                index += 1
        self.skipped = skipped
        return result


def text_of(rng):
    parts = []
    for _ in range(rng.randint(1, 10)):
        parts.append(rng.choice([
            lambda: words.word(rng, words.ANY), lambda: 'a1 b22', lambda: '3.14', lambda: '12,5', lambda: '"в кавычках"',
            lambda: 'mail@site.ru', lambda: '+7 (495) 123-45-67', lambda: 'ООО', lambda: 'т.е.', lambda: 'абв', lambda: '1999',
            lambda: 'иван-да-марья', lambda: '10-20', lambda: 'уж у да же', lambda: 'abv x@y q', lambda: '...', lambda: '#тег', lambda: '12.05', lambda: '€%№', lambda: 'ёж', lambda: 'xxx',
            lambda: '\n', lambda: '89161234567'
        ])())
        if rng.random() < 0.8:
            parts.append(rng.choice([' ', '  ', '\t']))
    return ''.join(parts)


def tokens_key(tokens):
    return [ref.token_key(_, False) for _ in tokens]


def check_tokens(case, tokenizer, model, text, morph, what):
    tokens = list(tokenizer(text))
    expected = model(text)
    case.equal(tokens_key(tokens), expected, what)
    case.count('skipped_characters', model.skipped)
    case.equal(tokenizer.split(text), [_[0] for _ in expected], 'split() of ' + what)
    for token in tokens:
        forms = getattr(token, 'forms', None)
        if morph and token.type == 'RU':
            case.equal([ref.form_key(_) for _ in forms], [_.key for _ in ref.analyses(token.value)], 'analyses')
        else:
            case.check(forms is None, 'analyses of %r' % token)
    case.count('tokenized')
    return tokens


def edits(case):
    from yargy import tokenizer as module
    from yargy.tokenizer import Tokenizer, MorphTokenizer, TokenRule
    from vlib.common import morph_tokenizer
    rng = case.rng
    default = [tuple(_) for _ in module.RULES]
    known = {'EMAIL': module.EMAIL_RULE, 'PHONE': module.PHONE_RULE}
    shared = [known.get(type) if pattern is None else TokenRule(type, pattern) for type, pattern in PATTERNS]
    custom_list = list(module.RULES[:rng.randint(2, 6)])
    custom_copy = list(custom_list)

    items = []      # (tokenizer, model, morph, name)

    def create():
        x = rng.random()
        if x < 0.4:
            items.append((Tokenizer(), Model(default), False, 'Tokenizer()'))
        elif x < 0.75:
            items.append((MorphTokenizer(morph=morph_tokenizer().morph), Model(default), True, 'MorphTokenizer()'))
        else:
            make = rng.choice([lambda _: _, tuple, iter, lambda _: (rule for rule in _), list])
            if rng.random() < 0.7:
                given = make(custom_list)
                items.append((Tokenizer(given), Model([tuple(_) for _ in custom_copy]), False,
                              'Tokenizer(%s of rules)' % given.__class__.__name__))
            else:
                # the list is changed by its owner later
                own = list(custom_list)
                items.append((Tokenizer(own), Model([tuple(_) for _ in custom_copy]), False, 'Tokenizer(list that is changed)'))
                change = rng.choice([own.clear, own.reverse, own.pop, lambda: own.insert(0, shared[0])])
                change()
            case.count('sources_of_rules')
        case.note('%d = %s' % (len(items) - 1, items[-1][3]))

    create()
    create()
    kept = []
    for _ in range(rng.randint(2, 8)):
        if rng.random() < 0.15:
            create()
        number = rng.randrange(len(items))
        tokenizer, model, morph, name = items[number]
        reading = None
        if rng.random() < 0.4:
            # tokens of a text are being read while rules change
            text = text_of(rng)
            stream = iter(tokenizer(text))
            expected = model(text)
            read = list(islice(stream, rng.randint(1, 3)))
            reading = repr(text), stream, read, expected
        action = rng.random()
        if action < 0.5:
            rules = [rng.choice(shared) for _ in range(rng.choice([1, 1, 2, 3]))]
            case.note('%d.add_rules(%s)' % (number, rules))
            result = tokenizer.add_rules(*rules)
            names = [tuple(_) for _ in rules]
            case.count('same_rule_twice', len(set(names + model.rules)) < len(names) + len(model.rules))
            model.rules = names + model.rules
            case.check(result is tokenizer, 'add_rules returned %r' % result)
            case.count('edits')
        elif action < 0.58 and model.rules:
            # rules it has already: some, all, in another order
            rules = [TokenRule(*_) for _ in model.rules]
            rules = rng.choice([rules, rules, list(tokenizer.rules), rng.sample(rules, rng.randint(1, len(rules)))])
            rng.shuffle(rules)
            rules = rules[:40]
            case.note('%d.add_rules(%s)' % (number, rules))
            names = [tuple(_) for _ in rules]
            tokenizer.add_rules(*rules)
            model.rules = names + model.rules
            case.count('edits')
            case.count('own_rules_again')
        elif action < 0.63:
            broken = rng.choice(['(', 'a**', '(?P<x', '*'])
            rules = [rng.choice(shared) for _ in range(rng.randint(0, 2))]
            rules.insert(rng.randint(0, len(rules)), TokenRule('BROKEN', broken))
            case.note('%d.add_rules(%s)' % (number, rules))
            try:
                tokenizer.add_rules(*rules)
            except (re.error, ValueError):
                case.ok()
                case.count('rejected_edits')
            else:
                case.fail('invalid pattern %r is accepted' % broken)
        elif action < 0.66 and model.rules:
            # everything
            types = sorted(model.types)
            rng.shuffle(types)
            case.note('%d.remove_types(%s)' % (number, types))
            tokenizer.remove_types(*types)
            model.rules = []
            case.count('edits')
            case.count('emptied')
        elif action < 0.86:
            types = sorted(model.types)
            if not types:
                continue
            removed = rng.sample(types, min(len(types), rng.choice([1, 1, 2])))
            case.note('%d.remove_types(%s)' % (number, removed))
            result = tokenizer.remove_types(*removed)
            model.rules = [_ for _ in model.rules if _[0] not in removed]
            case.check(result is tokenizer, 'remove_types returned %r' % result)
            case.count('edits')
        else:
            types = rng.sample(sorted(model.types), min(len(model.types), rng.randint(0, 2)))
            types.insert(rng.randrange(len(types) + 1), rng.choice(['NOPE', 'Ru', 'P', 'PHONE' if 'PHONE' not in model.types else 'X Y']))
            case.note('%d.remove_types(%s)' % (number, types))
            try:
                tokenizer.remove_types(*types)
            except ValueError:
                case.ok()
                case.count('rejected_edits')
            else:
                case.fail('unknown type removed')
        if reading:
            text, stream, read, expected = reading
            if read:
                read += stream
                case.equal(tokens_key(read), expected, 'tokens of %s that were being read during the edit' % text)
                case.count('edits_while_reading')
        case.value('rule_lists', tuple(model.rules))
        case.seen(tuple(model.rules))
        text = text_of(rng)
        case.notes.append('text %r' % text)
        for other, other_model, other_morph, other_name in items:
            tokens = check_tokens(case, other, other_model, text, other_morph, 'tokens of %s' % other_name)
            for type in {_[0] for _ in PATTERNS} | {_[0] for _ in default} | {'NOPE', 'BROKEN'}:
                try:
                    other.check_type(type)
                except ValueError:
                    known_type = False
                else:
                    known_type = True
                if known_type != (type in other_model.types):
                    case.fail('check_type(%s) is %s' % (type, known_type))
        kept.append((tokens, tokens_key(tokens)))
        case.notes.pop()
        for old, key in kept:
            case.equal(tokens_key(old), key, 'tokens produced before')
        case.equal([tuple(_) for _ in module.RULES], default, 'default rules')
        case.equal(custom_list, custom_copy, 'list given by the user')
        check_tokens(case, Tokenizer(), Model(default), text, False, 'tokens of a fresh tokenizer')


def users(case):
    """Parsers see the rules of their tokenizer"""
    from yargy import Parser, rule
    from yargy.predicates import type as type_, true
    from yargy.tokenizer import Tokenizer, TokenRule
    rng = case.rng
    tokenizer = Tokenizer()
    model = Model([tuple(_) for _ in tokenizer.rules])
    for _ in range(rng.randint(1, 3)):
        type, pattern = rng.choice([_ for _ in PATTERNS if _[1]])
        tokenizer.add_rules(TokenRule(type, pattern))
        model.rules.insert(0, (type, pattern))
    removed = rng.choice(sorted(model.types))
    tokenizer.remove_types(removed)
    model.rules = [_ for _ in model.rules if _[0] != removed]
    case.note(model.rules)
    text = text_of(rng)
    case.note(repr(text))
    for type in sorted(model.types):
        found = [ref.token_key(match.tokens[0], False) for match in Parser(rule(type_(type)), tokenizer).findall(text)]
        case.equal(found, [_ for _ in model(text) if _[3] == type], 'tokens of type %s' % type)
    try:
        Parser(rule(type_(removed)), tokenizer)
    except ValueError:
        case.ok()
    else:
        case.fail('removed type %s is accepted' % removed)
    Parser(rule(type_(removed)), Tokenizer()) if removed in 'RU LATIN INT PUNCT EOL OTHER'.split() else None


def defaults(case):
    """Every parser without a tokenizer has its own one"""
    from yargy import Parser, rule
    from yargy.predicates import type as type_
    from yargy.tokenizer import TokenRule, MorphTokenizer
    rng = case.rng
    default = Model([tuple(_) for _ in MorphTokenizer().rules])
    made = [(Parser(rule(type_('RU'))), Model(default.rules)) for _ in range(2)]
    for _ in range(4):
        if rng.random() < 0.3:
            made.append((Parser(rule(type_('RU'))), Model(default.rules)))
        parser, model = rng.choice(made)
        if rng.random() < 0.5 or len(model.types) < 2:
            type, pattern = rng.choice([_ for _ in PATTERNS if _[1]])
            parser.tokenizer.add_rules(TokenRule(type, pattern))
            model.rules.insert(0, (type, pattern))
        else:
            type = rng.choice(sorted(model.types))
            parser.tokenizer.remove_types(type)
            model.rules = [_ for _ in model.rules if _[0] != type]
        case.note('parser %d: %s' % ([_[0] for _ in made].index(parser), type))
        text = text_of(rng)
        for other, other_model in made:
            check_tokens(case, other.tokenizer, other_model, text, True, 'tokens of the tokenizer of a parser')
            found = [ref.token_key(match.tokens[0], False) for match in other.findall(text)]
            case.equal(found, [_ for _ in other_model(text) if _[3] == 'RU'], 'tokens of type RU')
            case.count('own_tokenizers')


WORKLOADS = [
    W('defaults', defaults, 16, 120),
    W('edits', edits, 1500, 20000),
    W('users', users, 300, 4000),
]
