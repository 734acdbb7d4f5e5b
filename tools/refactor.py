"""Applies edits that keep behaviour (EDITS below) to a scratch clone of /repo, all at once, and runs
every check there: they have to stay quiet.

    python tools/refactor.py [--checks C01,C02] [--tier quick]
"""
import argparse, json, os, shutil, subprocess, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EDITS = [
    ('yargy/parser.py', """        for match in self.findall(text):
            return match
""", """        return next(iter(self.findall(text)), None)
"""),
    ('yargy/parser.py', """        states = self.matches(text, all=False)
        trees = prepare_trees(states)
        trees = sorted(trees)
        for match in prepare_matches(trees):
            return match
""", """        candidates = list(prepare_trees(self.matches(text, all=False)))
        candidates.sort()
        for tree in candidates:
            match = prepare_match(tree)
            if match is not None:
                return match
        return None
"""),
    ('yargy/parser.py', """        tokens = self.tokenizer(text)
        tokens = self.tagger(tokens)
        chart = Chart(tokens)
        for column, next_column in chart:
            if column.first or all:
                self.predict(column, next_column, self.rule)
            for state in column:
                if state.completed:
                    self.complete(column, state)
                else:
                    next_term = state.next_term
                    if is_rule(next_term):
                        self.predict(column, next_column, next_term)
                        # Rule that matches an empty sequence could be
                        # already completed in this column
                        for empty in column.empty_index[id(next_term)]:
                            self.complete(column, empty)
                    elif next_column:
                        self.scan(next_column, next_term, state)
        return chart
""", """        chart = Chart(self.read(text))
        for column, following in chart:
            if all or column.first:
                self.predict(column, following, self.rule)
            for state in column:
                self.advance(column, following, state)
        return chart

    def read(self, text):
        return self.tagger(self.tokenizer(text))

    def advance(self, column, following, state):
        if state.completed:
            self.complete(column, state)
            return

        term = state.next_term
        if not is_rule(term):
            if following is not None:
                self.scan(following, term, state)
            return

        self.predict(column, following, term)
        for empty in column.empty_index[id(term)]:
            self.complete(column, empty)
"""),
    ('yargy/parser.py', """        for column in self.columns:
            for state in column.matches(rule):
                yield state

    def __iter__(self):
        size = len(self.columns)
        for index in range(size):
            column = self.columns[index]
            next_column = None
            if index + 1 < size:
                next_column = self.columns[index + 1]
            yield column, next_column
""", """        return (
            state
            for column in self.columns
            for state in column.matches(rule)
        )

    def __iter__(self):
        following = self.columns[1:] + [None]
        return zip(self.columns, following)
"""),
    ('yargy/span.py', """    nexts = list(get_nexts(spans))
    covers = [0] * len(spans)
    pointers = [None] * len(spans)
    size = len(spans)
    for index in reversed(range(size)):
        span = spans[index]
        if index == size - 1:
            covers[index] = span_size(span)
            pointers[index] = {index}
        else:
            previous = covers[index + 1]
            cover = span_size(span)
            indexes = {index}
            next = nexts[index]
            if next:
                cover += covers[next]
                indexes |= pointers[next]
            if cover < previous:
                cover = previous
                indexes = pointers[index + 1]
            covers[index] = cover
            pointers[index] = indexes

    indexes = pointers[0]
    for index in sorted(indexes):
        yield spans[index]
""", """    nexts = list(get_nexts(spans))
    size = len(spans)
    covers = [0] * (size + 1)
    for index in range(size - 1, -1, -1):
        covers[index] = max(with_span(spans, nexts, covers, index), covers[index + 1])

    index = 0
    while index < size:
        if with_span(spans, nexts, covers, index) < covers[index + 1]:
            index += 1
            continue
        yield spans[index]
        index = nexts[index] or size


def with_span(spans, nexts, covers, index):
    after = nexts[index]
    return span_size(spans[index]) + (covers[after] if after else 0)
"""),
    ('yargy/tree/constructors.py', """            for a, b in zip(self.children, other.children):
                if is_leaf(a):  # b is also leaf
                    continue
                if id(a) == id(b):
                    continue
                if a.rank < b.rank:
                    return True
                elif a.rank > b.rank:
                    return False
                elif a.rank == b.rank:
                    return a < b
            return False
        return self.rank < other.rank
""", """            pairs = [
                (a, b) for a, b in zip(self.children, other.children)
                if not is_leaf(a) and a is not b
            ]
            if not pairs:
                return False
            a, b = pairs[0]
            if a.rank != b.rank:
                return a.rank < b.rank
            return a < b
        return self.rank < other.rank
"""),
    ('yargy/tree/constructors.py', """def dfs_tree(root):
    queue = [root]
    while queue:
        item = queue.pop()
        yield item
        queue.extend(reversed(item.children))
""", """def dfs_tree(root):
    stack = [root]
    while stack:
        item = stack.pop()
        stack.extend(item.children[::-1])
        yield item
"""),
    ('yargy/relations/graph.py', """            checked_first_forms = []
            checked_second_forms = []
            for first_form in first_forms:
                for second_form in second_forms:
                    if relation(first_form, second_form):
                        if first_form not in checked_first_forms:
                            checked_first_forms.append(first_form)
                        if second_form not in checked_second_forms:
                            checked_second_forms.append(second_form)
            self.token_forms[first_id] = checked_first_forms
            self.token_forms[second_id] = checked_second_forms
""", """            self.token_forms[first_id] = [
                a for a in first_forms
                if any(relation(a, b) for b in second_forms)
            ]
            self.token_forms[second_id] = [
                b for b in second_forms
                if any(relation(a, b) for a in first_forms)
            ]
"""),
    ('yargy/relations/graph.py', """        for token_id in self.tokens:
            if not self.token_forms[token_id]:
                return False
        return True
""", """        return all(self.token_forms[_] for _ in self.tokens)
"""),
    ('yargy/tokenizer.py', """        for match in re.finditer(regexp, text):
            name = match.lastgroup
            value = match.group(0)
            start, stop = match.span()
            type = mapping[name]
            token = Token(value, Span(start, stop), type)
            yield token
""", """        scanner = regexp.scanner(text)
        match = scanner.search()
        while match:
            yield self.make_token(match, mapping)
            match = scanner.search()

    def make_token(self, match, mapping):
        start, stop = match.span()
        return Token(
            match.string[start:stop],
            Span(start, stop),
            mapping[match.lastgroup]
        )
"""),
    ('yargy/token.py', """    previous = None
    for token in tokens:
        if previous:
            _, stop = previous.span
            start, _ = token.span
            if start - stop > 0:
                yield ' '
        previous = token
        yield token.value
""", """    last = None
    for token in tokens:
        if last is not None and token.span.start > last:
            yield ' '
        last = token.span.stop
        yield token.value
"""),
    ('yargy/pipelines.py', """        index = defaultdict(list)
        for production in productions:
            term = production.terms[0]
            index[term.value].append(production)
        return dict(index)

    def predict(self, token):
        if token.value in self.index:
            for production in self.index[token.value]:
                yield production
""", """        index = {}
        for production in productions:
            first = production.terms[0].value
            index.setdefault(first, []).append(production)
        return index

    def predict(self, token):
        return iter(self.index.get(token.value, ()))
"""),
    ('yargy/pipelines.py', """        value = token.value.lower()
        if value in self.index:
            for production in self.index[value]:
                yield production
""", """        return iter(self.index.get(token.value.lower(), ()))
"""),
    ('yargy/interpretation/fact.py', """        for key in kwargs:
            if key not in self.__attributes__:
                raise KeyError(key)

        for key in self.__attributes__:
            if key in kwargs:
                value = kwargs[key]
            else:
                attribute = getattr(self, key)
                if isinstance(attribute, RepeatableAttribute):
                    value = []
                else:
                    value = attribute.default
            setattr(self, key, value)
""", """        for key in kwargs:
            if key not in self.__attributes__:
                raise KeyError(key)

        for key in self.__attributes__:
            setattr(
                self, key,
                kwargs[key] if key in kwargs else default_value(getattr(self, key))
            )
"""),
    ('yargy/interpretation/fact.py', """def prepare_attribute(item):
""", """def default_value(attribute):
    if isinstance(attribute, RepeatableAttribute):
        return []
    return attribute.default


def prepare_attribute(item):
"""),
    ('yargy/interpretation/fact.py', """            attribute = getattr(self.scheme, key)
            if isinstance(attribute, RepeatableAttribute):
                self.repeatable.add(key)
                value = []
            else:
                value = attribute.default
            self.attributes[key] = value
""", """            attribute = getattr(self.scheme, key)
            if isinstance(attribute, RepeatableAttribute):
                self.repeatable.add(key)
            self.attributes[key] = default_value(attribute)
"""),
    ('yargy/interpretation/fact.py', """        for key, value in self.attributes.items():
            if key in self.repeatable:
                for item in value:
                    for span in item.spans:
                        yield span
            elif key in self.modified:
                for span in value.spans:
                    yield span
""", """        for key, value in self.attributes.items():
            items = []
            if key in self.repeatable:
                items = value
            elif key in self.modified:
                items = [value]
            for item in items:
                for span in item.spans:
                    yield span
"""),
    ('yargy/interpretation/interpretator.py', """        for item in input.items:
            if isinstance(item, AttributeResult) and issubclass(self.fact, item.attribute.fact):
                fact.set(
                    item.attribute.name,
                    item.value
                )
            elif isinstance(item, FactResult) and issubclass(item.fact.scheme, self.fact):
                fact.merge(item.fact)
        return FactResult(fact)
""", """        for item in input.items:
            self.update(fact, item)
        return FactResult(fact)

    def update(self, fact, item):
        if isinstance(item, AttributeResult):
            if issubclass(self.fact, item.attribute.fact):
                fact.set(item.attribute.name, item.value)
        elif isinstance(item, FactResult):
            if issubclass(item.fact.scheme, self.fact):
                fact.merge(item.fact)
"""),
    ('yargy/rule/transformators.py', """    temp = forward()
    a = rule(item, temp)
    b = item
    if reverse:
        a, b = b, a
    return temp.define(
        or_(
            a,
            b
        )
    )
""", """    loop = forward()
    choices = [rule(item, loop), item]
    if reverse:
        choices.reverse()
    loop.define(or_(*choices))
    return loop
"""),
    ('yargy/rule/transformators.py', """    if count == 1:
        return item
    else:
        a = rule(
            item,
            max_bound(item, count - 1, reverse)
        )
        b = item
        if reverse:
            a, b = b, a
        return or_(a, b)
""", """    result = item
    for _ in range(count - 1):
        longer = rule(item, result)
        result = or_(item, longer) if reverse else or_(longer, item)
    return result
"""),
    ('yargy/rule/bnf.py', """    count = 0
    for rule in rules:
        if not rule.name:
            rule.name = 'R%d' % count
            count += 1
        yield rule
""", """    numbers = iter(range(10 ** 9))
    for rule in rules:
        rule.name = rule.name or 'R%d' % next(numbers)
        yield rule
"""),
    ('yargy/predicates/bank.py', """        return token.constrained([
            _ for _ in token.forms
            if self.value in _.grams
        ])
""", """        forms = list(filter(self.fits, token.forms))
        return token.constrained(forms)

    def fits(self, form):
        return self.value in form.grams
"""),
    ('yargy/predicates/constructors.py', """        return self.__class__(
            _.activate(context)
            for _ in self.predicates
        )
""", """        predicates = [_.activate(context) for _ in self.predicates]
        return type(self)(predicates)
"""),
    ('yargy/record.py', """        return (
            type(self) == type(other)
            and all(
                (getattr(self, _) == getattr(other, _))
                for _ in self.__attributes__
            )
        )
""", """        if type(self) is not type(other):
            return False
        for name in self.__attributes__:
            if not getattr(self, name) == getattr(other, name):
                return False
        return True
"""),
    ('yargy/dot.py', """        item_id = id(item)
        if item_id not in self.ids:
            self.ids[item_id] = len(self.ids)
        return self.ids[item_id]
""", """        return self.ids.setdefault(id(item), len(self.ids))
"""),
    ('yargy/morph.py', """        self.male = 'masc' in grams
        self.female = 'femn' in grams
        self.neutral = 'neut' in grams
""", """        for name, gram in [('neutral', 'neut'), ('female', 'femn'), ('male', 'masc')]:
            setattr(self, name, gram in grams)
"""),
    ('yargy/visitor.py', """        for cls in item.__class__.__mro__:
            name = 'visit_' + cls.__name__
            method = getattr(self, name, None)
            if method:
                return method
""", """        names = ('visit_' + _.__name__ for _ in type(item).__mro__)
        for name in names:
            if hasattr(self, name):
                return getattr(self, name)
"""),
    ('yargy/tagger.py', """        for tagger in self.taggers:
            tokens = tagger(tokens)
        return tokens
""", """        stream = tokens
        for tagger in self.taggers:
            stream = tagger(stream)
        return stream
"""),
]


# second set, of other places
MORE = [
    ('yargy/api.py', """def prepare_production_item(item):
    if not isinstance(item, (Predicate, Rule, Main)):
        return eq(item)
    else:
        return item
""", """def is_term(item):
    return isinstance(item, (Predicate, Rule, Main))


def prepare_production_item(item):
    return item if is_term(item) else eq(item)
"""),
    ('yargy/api.py', """    if all(is_predicate(_) for _ in items):
        return OrPredicate(items)
    elif all(is_relation(_) for _ in items):
        return OrRelation(items)
    elif all(is_rule(_) for _ in items):
        return OrRule(items)
    else:
        types = [type(_) for _ in items]
        raise TypeError('mixed types: %r' % types)
""", """    kinds = [
        (is_predicate, OrPredicate),
        (is_relation, OrRelation),
        (is_rule, OrRule)
    ]
    for check, cls in kinds:
        if all(map(check, items)):
            return cls(items)
    raise TypeError('mixed types: %r' % [type(_) for _ in items])
"""),
    ('yargy/rule/constructors.py', """    main = None
    terms = []
    for index, item in enumerate(items):
        assert_type(item, (Predicate, Rule, Main))
        if isinstance(item, Main):
            if main is not None:
                raise ValueError('>1 main')
            main = index
            item = item.term
        terms.append(item)
    if main is None:
        main = 0
    return terms, main
""", """    items = list(items)
    for item in items:
        assert_type(item, (Predicate, Rule, Main))
    mains = [index for index, item in enumerate(items) if isinstance(item, Main)]
    if len(mains) > 1:
        raise ValueError('>1 main')
    terms = [item.term if isinstance(item, Main) else item for item in items]
    return terms, mains[0] if mains else 0
"""),
    ('yargy/rule/constructors.py', """        if min is not None and max is not None:
            return MinMaxBoundedRule(self, min, max, reverse)
        elif min is not None:
            return MinBoundedRule(self, min, reverse)
        elif max is not None:
            return MaxBoundedRule(self, max, reverse)
        else:
            return RepeatableRule(self, reverse)
""", """        if min is None and max is None:
            return RepeatableRule(self, reverse)
        if max is None:
            return MinBoundedRule(self, min, reverse)
        if min is None:
            return MaxBoundedRule(self, max, reverse)
        return MinMaxBoundedRule(self, min, max, reverse)
"""),
    ('yargy/rule/constructors.py', """    queue = [rule]
    visited = {id(rule)}
    while queue:
        item = queue.pop(0)
        yield item
        for child in item.children:
            if id(child) not in visited:
                visited.add(id(child))
                queue.append(child)
""", """    from collections import deque

    queue = deque([rule])
    visited = {id(rule)}
    while queue:
        item = queue.popleft()
        yield item
        fresh = []
        for child in item.children:
            if id(child) in visited:
                continue
            visited.add(id(child))
            fresh.append(child)
        queue.extend(fresh)
"""),
    ('yargy/rule/constructors.py', """        if not items and is_rule(item):
            if isinstance(item, ForwardRule):
                raise ValueError('forward(forward(...)) not allowed')
            self.rule = item
        else:
            self.rule = rule(item, *items)
        return self
""", """        if items or not is_rule(item):
            item = rule(item, *items)
        elif isinstance(item, ForwardRule):
            raise ValueError('forward(forward(...)) not allowed')
        self.rule = item
        return self
"""),
    ('yargy/rule/constructors.py', """        labels = []
        for index, term in enumerate(self.terms):
            label = term.label
            if self.main > 0 and self.main == index:
                label = '^' + label
            labels.append(label)
        # rule() without terms is an empty sequence too
        return ' '.join(labels) or 'e'
""", """        return ' '.join(
            self.term_label(index, term)
            for index, term in enumerate(self.terms)
        ) or 'e'

    def term_label(self, index, term):
        if index > 0 and index == self.main:
            return '^' + term.label
        return term.label
"""),
    ('yargy/rule/transformators.py', """        child = item.rule
        if isinstance(child, RepeatableRule):
            return self.visit(RepeatableOptionalRule(
                child.rule,
                child.reverse,
                item.reverse
            ))
        elif isinstance(child, RepeatableOptionalRule):
            return self.visit(RepeatableOptionalRule(
                child.rule,
                child.reverse_repeatable,
                item.reverse
            ))
        elif isinstance(child, OptionalRule):
            return self.visit(OptionalRule(child.rule, item.reverse))
        else:
            return OptionalRule(self.visit(child), item.reverse)
""", """        child = item.rule
        if isinstance(child, RepeatableRule):
            squashed = RepeatableOptionalRule(
                child.rule, child.reverse, item.reverse
            )
        elif isinstance(child, OptionalRule):
            squashed = OptionalRule(child.rule, item.reverse)
        else:
            return OptionalRule(self.visit(child), item.reverse)
        return self.visit(squashed)
"""),
    ('yargy/rule/transformators.py', """        child = self.visit(item.rule)
        items = repeat(child, item.min - 1)
        items.append(repeatable(child, item.reverse))

        from yargy.api import rule
        return rule(*items)
""", """        from yargy.api import rule

        child = self.visit(item.rule)
        required = [child] * (item.min - 1)
        return rule(*(required + [repeatable(child, item.reverse)]))
"""),
    ('yargy/rule/transformators.py', """        rule, min, max, reverse = item
        child = self.visit(rule)
        items = repeat(child, min - 1)
        items.append(max_bound(child, max - min + 1, reverse))

        from yargy.api import rule
        return rule(*items)
""", """        from yargy.api import rule

        child = self.visit(item.rule)
        tail = max_bound(child, item.max - item.min + 1, item.reverse)
        return rule(*(repeat(child, item.min - 1) + [tail]))
"""),
    ('yargy/rule/transformators.py', """        if type(item) is Rule:
            productions = item.productions
            if len(productions) == 1:
                terms = productions[0].terms
                if len(terms) == 1:
                    term = terms[0]
                    return self.visit_term(term)
        return super(FlattenTransformator, self).visit_term(item)
""", """        while type(item) is Rule and len(item.productions) == 1:
            terms = item.productions[0].terms
            if len(terms) != 1:
                break
            item, = terms
        return super(FlattenTransformator, self).visit_term(item)
"""),
    ('yargy/rule/transformators.py', """        terms = item.terms
        if len(terms) == 1:
            term = terms[0]
            if type(term) is Rule:
                productions = term.productions
                if len(productions) == 1:
                    production = productions[0]
                    return self.visit(production)
        return super(FlattenTransformator, self).visit_Production(item)
""", """        if len(item.terms) == 1 and type(item.terms[0]) is Rule:
            nested = item.terms[0].productions
            if len(nested) == 1:
                return self.visit(nested[0])
        return super(FlattenTransformator, self).visit_Production(item)
"""),
    ('yargy/rule/transformators.py', """    temp = forward()
    a = empty()
    b = rule(item, temp)
    c = item
    if reverse_repeatable:
        b, c = c, b
    if reverse_optional:
        a, b, c = b, c, a
    return temp.define(
        or_(
            a,
            b,
            c
        )
    )
""", """    temp = forward()
    choices = [rule(item, temp), item]
    if reverse_repeatable:
        choices = choices[::-1]
    if reverse_optional:
        choices = choices + [empty()]
    else:
        choices = [empty()] + choices
    temp.define(or_(*choices))
    return temp
"""),
    ('yargy/rule/bnf.py', """        for item in root.walk():
            for child in item.children:
                child_id = id(child)
                count = self.parents.get(child_id, 0)
                self.parents[child_id] = count + 1
        return super(BNFTransformator, self).__call__(root)
""", """        from collections import Counter

        self.parents = Counter(
            id(child)
            for item in root.walk()
            for child in item.children
        )
        return super(BNFTransformator, self).__call__(root)
"""),
    ('yargy/rule/bnf.py', """        name = self.name
        if self.interpretator:
            name = self.interpretator.label
        if self.relation:
            name = '{name}^{relation}'.format(
                name=name,
                relation=self.relation.label
            )
        return name
""", """        label = self.interpretator.label if self.interpretator else self.name
        if not self.relation:
            return label
        return '%s^%s' % (label, self.relation.label)
"""),
    ('yargy/interpretation/interpretator.py', """        if all(is_token(_) for _ in self.items):
            yield get_tokens_span(self.items)
        else:
            for item in self.items:
                if is_token(item):
                    yield item.span
                else:
                    for span in item.spans:
                        yield span
""", """        if all(is_token(_) for _ in self.items):
            yield get_tokens_span(self.items)
            return
        for item in self.items:
            yield from [item.span] if is_token(item) else item.spans
"""),
    ('yargy/interpretation/interpretator.py', """        if isinstance(self.normalizer, ConstNormalizer):
            value = self.normalizer.value
        else:
            items = input.items
            if all(is_token(_) for _ in items):
                input = Chain(items, input.key)
            elif len(items) == 1:
                input = items[0]
            else:
                raise TypeError('{normalizer!r} -> {types!r}'.format(
                    normalizer=self,
                    types=[type(_) for _ in items]
                ))
            value = self.normalizer(input)
        return NormalizerResult(value, input)
""", """        if isinstance(self.normalizer, ConstNormalizer):
            return NormalizerResult(self.normalizer.value, input)
        source = self.get_source(input)
        return NormalizerResult(self.normalizer(source), source)

    def get_source(self, input):
        items = input.items
        if all(is_token(_) for _ in items):
            return Chain(items, input.key)
        if len(items) != 1:
            raise TypeError('{normalizer!r} -> {types!r}'.format(
                normalizer=self,
                types=[type(_) for _ in items]
            ))
        return items[0]
"""),
    ('yargy/interpretation/fact.py', """        for key in fact.modified:
            value = fact.attributes[key]
            if key in self.repeatable:
                value = self.attributes[key] + value
            self.attributes[key] = value
            self.modified.add(key)
""", """        for key in fact.modified:
            if key in self.repeatable:
                self.attributes[key].extend(fact.attributes[key])
            else:
                self.attributes[key] = fact.attributes[key]
        self.modified |= fact.modified
"""),
    ('yargy/interpretation/fact.py', """        data = OrderedDict()
        for key in self.scheme.__attributes__:
            value = self.attributes[key]
            if key in self.repeatable:
                value = [_.as_json for _ in value]
            elif key in self.modified:
                value = value.as_json
            if value is not None:
                data[key] = value
        return data
""", """        pairs = [(_, self.value_json(_)) for _ in self.scheme.__attributes__]
        return OrderedDict(_ for _ in pairs if _[1] is not None)

    def value_json(self, key):
        value = self.attributes[key]
        if key in self.repeatable:
            return [_.as_json for _ in value]
        return value.as_json if key in self.modified else value
"""),
    ('yargy/interpretation/fact.py', """        return sorted(
            self._raw.spans,
            key=lambda _: _.start
        )
""", """        spans = list(self._raw.spans)
        spans.sort(key=get_start)
        return spans
"""),
    ('yargy/interpretation/fact.py', """def prepare_attribute(item):
""", """def get_start(span):
    return span.start


def prepare_attribute(item):
"""),
    ('yargy/interpretation/normalizer.py', """        assert_type(item, Chain)
        if item.key:
            return item.key
        else:
            return join_normalized_tokens(item.tokens)
""", """        assert_type(item, Chain)
        return item.key or join_normalized_tokens(item.tokens)
"""),
    ('yargy/parser.py', """        value = hash(state)
        if value not in self.hashes:
            self.hashes.add(value)
            self.states.append(state)
            self.update_index(state)
""", """        value = hash(state)
        if value in self.hashes:
            return
        self.hashes.add(value)
        self.update_index(state)
        self.states.append(state)
"""),
    ('yargy/parser.py', """        for parent in completed.parents:
            state = State(
                parent.rule, parent.production,
                dot_index=parent.dot_index + 1,
                start_column=parent.start_column,
                stop_column=column,
                node=parent.node.attached(completed.node),
                parts=(parent, completed)
            )
            if not state.loop:
                column.append(state)
""", """        for parent in completed.parents:
            state = self.moved(parent, column, completed.node, (parent, completed))
            if state.loop:
                continue
            column.append(state)

    def moved(self, state, column, node, parts=()):
        return State(
            state.rule, state.production, state.dot_index + 1,
            state.start_column, column,
            state.node.attached(node), parts
        )
"""),
    ('yargy/parser.py', """        token = column.token
        if predicate(token):
            leaf = Leaf(predicate, predicate.constrain(token))
            state = State(
                state.rule, state.production,
                dot_index=state.dot_index + 1,
                start_column=state.start_column,
                stop_column=column,
                node=state.node.attached(leaf)
            )
            column.append(state)
""", """        token = column.token
        if not predicate(token):
            return
        leaf = Leaf(predicate, predicate.constrain(token))
        column.append(self.moved(state, column, leaf))
"""),
    ('yargy/parser.py', """    spans = []
    span_matches = {}
    for tree in trees:
        span = tree.range
        if span not in span_matches:
            match = prepare_match(tree)
            if match:
                spans.append(span)
                span_matches[span] = match

    for span in resolve_spans(spans):
        yield span_matches[span]
""", """    matches = {}
    for tree in trees:
        if tree.range in matches:
            continue
        match = prepare_match(tree)
        if match is not None:
            matches[tree.range] = match

    for span in resolve_spans(list(matches)):
        yield matches[span]
"""),
    ('yargy/tree/constructors.py', """        if self.range == other.range:
            return self.root < other.root

        start, stop = self.range
        other_start, other_stop = other.range

        if start == other_start:
            return stop > other_stop

        return start < other_start
""", """        if self.range == other.range:
            return self.root < other.root
        return self.order < other.order

    @property
    def order(self):
        start, stop = self.range
        return start, -stop
"""),
    ('yargy/tree/transformators.py', """        children = []
        main_index = 0
        for index, child in enumerate(item.children):
            child = self.visit(child)
            if child:
                if index == item.main_index:
                    main_index = len(children)
                children.append(child)
        if children:
            return Node(
                item.rule,
                item.production,
                item.rank,
                children,
                main_index
            )
""", """        visited = [self.visit(_) for _ in item.children]
        children = [_ for _ in visited if _]
        if not children:
            return None

        main_index = 0
        if visited[item.main_index]:
            before = visited[:item.main_index]
            main_index = sum(1 for _ in before if _)
        return Node(item.rule, item.production, item.rank, children, main_index)
"""),
    ('yargy/relations/graph.py', """        token_id = id(token)
        if token_id in self.tokens:
            token = self.tokens[token_id]
            forms = self.token_forms[token_id]
            return token.constrained(forms)
        return token
""", """        if id(token) not in self.tokens:
            return token
        return token.constrained(self.token_forms[id(token)])
"""),
    ('yargy/relations/graph.py', """        relation_id = id(relation)
        self.relations[relation_id] = relation
        self.relation_items[relation_id].append(item)
""", """        key = id(relation)
        self.relation_items[key].append(item)
        self.relations.setdefault(key, relation)
"""),
    ('yargy/relations/bank.py', """        return (
            (form_single and other_single)
            or (form_plural and other_plural)
            or (form_only_single and other_single)
            or (form_only_plural and other_plural)
            or (other_only_single and form_single)
            or (other_only_plural and form_plural)
        )
""", """        pairs = [
            (form_single, other_single),
            (form_plural, other_plural),
            (form_only_single, other_single),
            (form_only_plural, other_plural),
            (form_single, other_only_single),
            (form_plural, other_only_plural),
        ]
        return any(a and b for a, b in pairs)
"""),
    ('yargy/relations/bank.py', """        return (
            form_mask == other_mask
            or form_fixed
            or other_fixed
        )
""", """        if form_fixed or other_fixed:
            return True
        return form_mask == other_mask
"""),
    ('yargy/pipelines.py', """        if is_morph_token(token):
            # most probable form first, set has random order
            normalized = OrderedDict.fromkeys(
                _.normalized for _ in token.forms
            )
            for value in normalized:
                if value in self.index:
                    for production in self.index[value]:
                        yield production
        else:
            value = token.normalized
            if value in self.index:
                for production in self.index[value]:
                    yield production
""", """        for value in self.token_values(token):
            for production in self.index.get(value, []):
                yield production

    def token_values(self, token):
        if not is_morph_token(token):
            return [token.normalized]
        # most probable form first, set has random order
        return OrderedDict.fromkeys(_.normalized for _ in token.forms)
"""),
    ('yargy/pipelines.py', """        for key in self.keys:
            yield PipelineProduction(
                key.value,
                [self.predicate(_) for _ in key.terms]
            )
""", """        for value, terms in self.keys:
            predicates = list(map(self.predicate, terms))
            yield PipelineProduction(value, predicates)
"""),
    ('yargy/morph.py', """        record = self.raw.inflect(grams)
        if not record:
            return self.normalized
        return record.word
""", """        record = self.raw.inflect(grams)
        return record.word if record else self.normalized
"""),
    ('yargy/morph.py', """    parse = lru_cache(CACHE_SIZE)(MorphAnalyzer.__call__)

    def __call__(self, word):
        # cached list is shared, caller may change the one it gets
        return list(self.parse(word))
""", """        self.parse = lru_cache(CACHE_SIZE)(super(CachedMorphAnalyzer, self).__call__)

    def __call__(self, word):
        # cached list is shared, caller may change the one it gets
        return self.parse(word)[:]
"""),
    ('yargy/tokenizer.py', """        for type in types:
            self.check_type(type)
        self.reset([
            _ for _ in self.rules
            if _.type not in types
        ])
        return self
""", """        for type in types:
            self.check_type(type)
        removed = set(types)
        self.reset([_ for _ in self.rules if not _.type in removed])
        return self
"""),
    ('yargy/predicates/bank.py', """        if is_morph_token(token):
            return any(
                _.normalized in self.value
                for _ in token.forms
            )
        else:
            value = token.normalized
            return value in self.value
""", """        if not is_morph_token(token):
            return token.normalized in self.value
        for form in token.forms:
            if form.normalized in self.value:
                return True
        return False
"""),
    ('yargy/predicates/bank.py', """        if self.types and token.type not in self.types:
            return False
        return self.function(token.value)
""", """        allowed = not self.types or token.type in self.types
        return self.function(token.value) if allowed else False
"""),
    ('yargy/predicates/bank.py', """        normalized = set()
        for item in self.value:
            normalized.update(context.tokenizer.morph.normalized(item))
        return DictionaryPredicate(normalized)
""", """        morph = context.tokenizer.morph
        return DictionaryPredicate({
            value
            for item in self.value
            for value in morph.normalized(item)
        })
"""),
    ('yargy/dot.py', """        for node in self.nodes:
            pattern = (
                '{index} [{style}];'
                if node.style
                else '{index}'
            )
            yield pattern.format(
                index=self.id(node.item),
                style=str(node.style)
            )
        for edge in self.edges:
            pattern = (
                '{source} -> {target} [{style}];'
                if edge.style
                else '{source} -> {target};'
            )
            yield pattern.format(
                source=self.id(edge.source),
                target=self.id(edge.target),
                style=str(edge.style)
            )
        yield '}'
""", """        for item, style in self.nodes:
            yield '%d [%s];' % (self.id(item), style)
        for edge in self.edges:
            yield self.edge_line(edge)
        yield '}'

    def edge_line(self, edge):
        line = '%d -> %d' % (self.id(edge.source), self.id(edge.target))
        if edge.style:
            line += ' [%s]' % edge.style
        return line + ';'
"""),
    ('yargy/dot.py', """        value = str(value)
        replace = {
            '\\\\': r'\\\\',
            '"': r'\\"',
            '\\n': r'\\n',
            '\\r': r'\\r'
        }
        for a, b in replace.items():
            value = value.replace(a, b)
        return '"' + value + '"'
""", """        replace = {
            ord('\\\\'): r'\\\\',
            ord('"'): r'\\"',
            ord('\\n'): r'\\n',
            ord('\\r'): r'\\r'
        }
        return '"%s"' % str(value).translate(replace)
"""),
    ('yargy/record.py', """        return hash(tuple(self))
""", """        return hash(tuple(getattr(self, _) for _ in self.__attributes__))
"""),
    ('yargy/token.py', """    head, tail = tokens[0], tokens[-1]
    return Span(head.span.start, tail.span.stop)
""", """    start, _ = tokens[0].span
    _, stop = tokens[-1].span
    return Span(start, stop)
"""),
]

THIRD = [
    ('yargy/parser.py', """        self.hashes = set()
""", """        self.known = set()
"""),
    ('yargy/parser.py', """        value = hash(state)
        if value not in self.hashes:
            self.hashes.add(value)
            self.states.append(state)
            self.update_index(state)
""", """        key = state.key
        if key in self.known:
            return
        self.known.add(key)
        self.states.append(state)
        self.update_index(state)
"""),
    ('yargy/parser.py', """    def __hash__(self):
        return hash((
            id(self.rule), id(self.production), self.dot_index,
            self.start_column.index, self.stop_column.index,
            tuple(id(_) for _ in self.node.children)
        ))
""", """    @property
    def key(self):
        return (
            id(self.rule), id(self.production), self.dot_index,
            self.start_column.index, self.stop_column.index,
            tuple(id(_) for _ in self.node.children)
        )

    def __hash__(self):
        return hash(self.key)
"""),
    ('yargy/parser.py', """    spans = []
    span_matches = {}
    for tree in trees:
        span = tree.range
        if span not in span_matches:
            match = prepare_match(tree)
            if match:
                spans.append(span)
                span_matches[span] = match

    for span in resolve_spans(spans):
        yield span_matches[span]
""", """    best = best_matches(trees)
    for span in resolve_spans(list(best)):
        yield best[span]


def best_matches(trees):
    best = {}
    for tree in trees:
        if tree.range in best:
            continue
        match = prepare_match(tree)
        if match is not None:
            best[tree.range] = match
    return best
"""),
    ('yargy/parser.py', """    return prepare_matches(trees)

    def findall(self, text):
        states = self.matches(text)
        trees = prepare_trees(states)
        trees = sorted(trees)
        return prepare_resolved_matches(trees)
""", """    return prepare_matches(trees)

    def trees(self, text, all=True):
        return sorted(prepare_trees(self.matches(text, all=all)))

    def findall(self, text):
        return prepare_resolved_matches(self.trees(text))
"""),
    ('yargy/span.py', """    for _, stop in spans:
        for index, (start, _) in enumerate(spans):
            if start >= stop:
                yield index
                break
        else:
            yield
""", """    starts = [start for start, _ in spans]
    for _, stop in spans:
        index = bisect_left(starts, stop)
        yield index if index < len(spans) else None
"""),
    ('yargy/span.py', """from yargy.record import Record
""", """from bisect import bisect_left

from yargy.record import Record
"""),
    ('yargy/rule/transformators.py', """    if count == 1:
        return item
    else:
        a = rule(
            item,
            max_bound(item, count - 1, reverse)
        )
        b = item
        if reverse:
            a, b = b, a
        return or_(a, b)
""", """    result = item
    for _ in range(count - 1):
        variants = [rule(item, result), item]
        if reverse:
            variants.reverse()
        result = or_(*variants)
    return result
"""),
    ('yargy/rule/transformators.py', """    a = empty()
    b = item
    if reverse:
        a, b = b, a
    return or_(a, b)
""", """    if reverse:
        return or_(item, empty())
    return or_(empty(), item)
"""),
    ('yargy/rule/transformators.py', """    return temp.define(
        or_(
            a,
            b,
            c
        )
    )
""", """    variants = or_(a, b, c)
    return temp.define(variants)
"""),
    ('yargy/rule/transformators.py', """    def visit_OrRule(self, item):
        return Rule([Production([self.visit(_)]) for _ in item.rules])
""", """    def visit_OrRule(self, item):
        productions = []
        for child in item.rules:
            child = self.visit(child)
            productions.append(Production([child]))
        return Rule(productions)
"""),
    ('yargy/rule/constructors.py', """    queue = [rule]
    visited = {id(rule)}
    while queue:
        item = queue.pop(0)
        yield item
        for child in item.children:
            if id(child) not in visited:
                visited.add(id(child))
                queue.append(child)
""", """    queue = deque([rule])
    visited = {id(rule)}
    while queue:
        item = queue.popleft()
        yield item
        fresh = [_ for _ in item.children]
        for child in fresh:
            if id(child) in visited:
                continue
            visited.add(id(child))
            queue.append(child)
"""),
    ('yargy/rule/constructors.py', """from yargy.record import Record
from yargy.check import (
""", """from collections import deque

from yargy.record import Record
from yargy.check import (
"""),
    ('yargy/rule/bnf.py', """    count = 0
    for rule in rules:
        if not rule.name:
            rule.name = 'R%d' % count
            count += 1
        yield rule
""", """    numbers = count()
    for rule in rules:
        rule.name = rule.name or 'R{}'.format(next(numbers))
        yield rule
"""),
    ('yargy/rule/bnf.py', """from yargy.record import Record

""", """from itertools import count

from yargy.record import Record

"""),
    ('yargy/rule/bnf.py', """        name = self.name
        if self.interpretator:
            name = self.interpretator.label
        if self.relation:
            name = '{name}^{relation}'.format(
                name=name,
                relation=self.relation.label
            )
        return name
""", """        parts = [self.interpretator.label if self.interpretator else self.name]
        if self.relation:
            parts.append(self.relation.label)
        if len(parts) == 1:
            return parts[0]
        return '^'.join(str(_) for _ in parts)
"""),
    ('yargy/tree/constructors.py', """    queue = [root]
    while queue:
        item = queue.pop()
        yield item
        queue.extend(reversed(item.children))
""", """    stack = [root]
    while stack:
        node = stack.pop()
        yield node
        stack += node.children[::-1]
"""),
    ('yargy/tree/constructors.py', """        start, stop = self.range
        other_start, other_stop = other.range

        if start == other_start:
            return stop > other_stop

        return start < other_start
""", """        (start, stop), (other_start, other_stop) = self.range, other.range
        return (start, -stop) < (other_start, -other_stop)
"""),
    ('yargy/interpretation/fact.py', """        for key in kwargs:
            if key not in self.__attributes__:
                raise KeyError(key)

        for key in self.__attributes__:
            if key in kwargs:
                value = kwargs[key]
            else:
                attribute = getattr(self, key)
                if isinstance(attribute, RepeatableAttribute):
                    value = []
                else:
                    value = attribute.default
            setattr(self, key, value)
""", """        unknown = [_ for _ in kwargs if _ not in self.__attributes__]
        if unknown:
            raise KeyError(unknown[0])
        for key in self.__attributes__:
            setattr(self, key, kwargs[key] if key in kwargs else self.initial(key))

    def initial(self, key):
        attribute = getattr(type(self), key)
        if isinstance(attribute, RepeatableAttribute):
            return []
        return attribute.default
"""),
    ('yargy/interpretation/interpretator.py', """        if all(is_token(_) for _ in self.items):
            yield get_tokens_span(self.items)
        else:
            for item in self.items:
                if is_token(item):
                    yield item.span
                else:
                    for span in item.spans:
                        yield span
""", """        if not any(not is_token(_) for _ in self.items):
            yield get_tokens_span(self.items)
            return
        for item in self.items:
            spans = [item.span] if is_token(item) else item.spans
            yield from spans
"""),
    ('yargy/pipelines.py', """        if is_morph_token(token):
            # most probable form first, set has random order
            normalized = OrderedDict.fromkeys(
                _.normalized for _ in token.forms
            )
            for value in normalized:
                if value in self.index:
                    for production in self.index[value]:
                        yield production
        else:
            value = token.normalized
            if value in self.index:
                for production in self.index[value]:
                    yield production
""", """        values = [token.normalized]
        if is_morph_token(token):
            values = list(OrderedDict.fromkeys(_.normalized for _ in token.forms))
        for value in values:
            yield from self.index.get(value, ())
"""),
    ('yargy/relations/graph.py', """        sizes = sum(len(_) for _ in self.token_forms.values())
        for relation, first, second in self.edges:
""", """        sizes = sum(map(len, self.token_forms.values()))
        for relation, first, second in list(self.edges):
"""),
    ('yargy/token.py', """    previous = None
    for token in tokens:
        if previous:
            _, stop = previous.span
            start, _ = token.span
            if start - stop > 0:
                yield ' '
        previous = token
        yield token.value
""", """    stop = None
    for token in tokens:
        start = token.span.start
        if stop is not None and start > stop:
            yield ' '
        stop = token.span.stop
        yield token.value
"""),
    ('yargy/predicates/bank.py', """    def __call__(self, token):
        if is_morph_token(token):
            return any(
                _.normalized in self.value
                for _ in token.forms
            )
        else:
            value = token.normalized
            return value in self.value
""", """    def __call__(self, token):
        if not is_morph_token(token):
            return token.normalized in self.value
        for form in token.forms:
            if form.normalized in self.value:
                return True
        return False
"""),
    ('yargy/morph.py', """class Number(Record):
    __attributes__ = ['single', 'plural', 'only_single', 'only_plural']

    def __init__(self, grams):
        self.single = 'sing' in grams
        self.plural = 'plur' in grams
        self.only_single = 'Sgtm' in grams
        self.only_plural = 'Pltm' in grams
""", """NUMBERS = dict(single='sing', plural='plur', only_single='Sgtm', only_plural='Pltm')


class Number(Record):
    __attributes__ = ['single', 'plural', 'only_single', 'only_plural']

    def __init__(self, grams):
        for name, gram in NUMBERS.items():
            setattr(self, name, gram in grams)
"""),
    ('yargy/tokenizer.py', """            pattern = r'(?P<{name}>{pattern})'.format(
                name=name,
                pattern=pattern
            )
            mapping[name] = type
            types.add(type)
            patterns.append(pattern)
""", """            mapping[name] = type
            types.add(type)
            patterns.append('(?P<%s>%s)' % (name, pattern))
"""),
]

SETS = {'first': EDITS, 'more': MORE, 'third': THIRD}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--checks', default='')
    ap.add_argument('--set', default='more')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    a = ap.parse_args()
    checks = a.checks.split(',') if a.checks else [
        c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
    scratch = tempfile.mkdtemp(prefix='refactor-', dir='/tmp')
    try:
        tree = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
        for file, old, new in SETS[a.set]:
            path = os.path.join(tree, file)
            text = open(path).read()
            assert text.count(old) == 1, (file, text.count(old), old)
            open(path, 'w').write(text.replace(old, new))
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                            '--doctest-modules', 'yargy', 'tests'], cwd=tree, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        print(r.stdout.splitlines()[-1])
        if r.returncode:
            print(r.stdout[-3000:])
            return
        env = dict(os.environ, YARGY_REPO=tree, VERIF_EVIDENCE=os.path.join(scratch, 'evidence'))
        for c in checks:
            r = subprocess.run(['./check', c, '--tier', a.tier, '--seed', a.seed], cwd=ROOT, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            lines = r.stdout.splitlines()
            print(c, r.returncode, lines[-1][:150] if lines else '')
            if r.returncode:
                print('\n'.join(_[:300] for _ in lines[:25]))
    finally:
        shutil.rmtree(scratch)


if __name__ == '__main__':
    main()
