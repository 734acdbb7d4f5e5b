"""Writes /verif/properties.jsonl (source of truth of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    assert len(statement.split('. ')) <= 4, id
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in (state or [])],
            'observe_at': observe or ['public API'],
            'hook_needed': None,
        },
    })


prop('C01', 'Tokenizing a text is an exact, typed, lossless segmentation',
     'For every text the tokenizer yields tokens left to right, without overlap, each carrying exactly the characters text[start:stop] of its span, and together they cover every non-whitespace character and every line break while no other whitespace is inside a token. '
     'With the default rules each token is a maximal run of one class - Russian letters (RU), Latin letters (LATIN), decimal digits (INT), line breaks (EOL) - or exactly one punctuation mark (PUNCT) or one other character (OTHER), and its type names that class; split() gives the same values.',
     ['inputs'], 'every Unicode string, including mixed scripts, control characters, emoji, exotic digits and spaces, quotes, empty text',
     'Tests tokenize about ten short strings; any character class boundary or span arithmetic error outside them goes unseen.',
     ['yargy/tokenizer.py', 'yargy/token.py', 'yargy/span.py'],
     [('ordered alternation of named groups, finditer', 'yargy/tokenizer.py:Tokenizer.__call__'), ('RULES', 'yargy/tokenizer.py')],
     ['list(Tokenizer()(text))', 'list(MorphTokenizer()(text))', 'Tokenizer().split(text)'])

prop('C02', 'Editing tokenizer rules does exactly what was asked, to that tokenizer',
     'Rules added to a tokenizer take precedence over the ones it had (and among themselves in the order given), removed types never occur again and free their characters for the remaining rules, and characters no rule matches are skipped. '
     'Edits are visible on that tokenizer only - never on other tokenizers, on the shared default rules, on tokens already produced or on a text whose tokens are being read - and both edit calls return the tokenizer itself. The first rules may be given as any iterable, and a list of them stays its owner\'s: changing it changes no tokenizer. Removing or naming an unknown type raises ValueError, and an edit that raises changes nothing; a tokenizer whose rules were all removed yields no tokens.',
     ['inputs', 'histories'], 'every sequence of rule additions and removals, interleaved over several tokenizers, and every text',
     'Tests add one rule once and remove one type once, on a fresh tokenizer.',
     ['yargy/tokenizer.py'],
     [('add_rules / remove_types / reset recompile the whole alternation', 'yargy/tokenizer.py'), ('check_type', 'yargy/tokenizer.py')],
     ['token streams after every edit'])

prop('C03', 'Word analyses are the dictionary\'s; the analysis cache is invisible',
     'Every Russian-word token carries exactly the analyses the morphological dictionary gives for its text - same normal forms, same grammemes, most probable first - and no other token carries any. '
     'Whatever was analysed or parsed before, and however many words, the analyses of a word stay the same: caching, parsing, agreement, interpretation and changes a caller makes to the analyses of one token never alter or lose analyses of another occurrence of the word, and inflecting a word equals inflecting the dictionary analysis (falling back to its normal form).',
     ['inputs', 'histories'], 'every word and every sequence of tokenizations, parses and analyses (including more distinct words than the cache holds)',
     'Tests look at a couple of words in a fresh process; cache eviction, reuse and aliasing only show over long histories.',
     ['yargy/morph.py', 'yargy/tokenizer.py', 'yargy/token.py', 'yargy/relations/graph.py'],
     [('lru_cache over analyses', 'yargy/morph.py:CachedMorphAnalyzer'), ('constrained() copies tokens', 'yargy/token.py')],
     ['token.forms before and after workloads'])

prop('C04', 'Predicates decide exactly their documented condition on every token',
     'For every token, each built-in predicate (eq, caseless, in_, in_caseless, length_eq, gte, lte, normalized, dictionary, gram, type, tag, custom, true, is_lower, is_upper, is_title, is_capitalized, is_single) used in a rule accepts it exactly when its documented condition holds: number comparisons only accept integer tokens, grammatical ones only words with a dictionary analysis that has the property, custom() only receives tokens of the requested types; collections may be given as any iterable. '
     'and_, or_ and not_ of predicates are their Boolean combinations, in any nesting; and_ and or_ ask their operands left to right and stop at the first that decides, so an operand guards those after it; and no predicate raises on any token.',
     ['inputs', 'programs'], 'every predicate expression over the bank and every token of every type',
     'Doctests show one or two tokens per predicate; combinations and unusual tokens are untested.',
     ['yargy/predicates/bank.py', 'yargy/predicates/constructors.py', 'yargy/api.py'],
     [('int_required / morph_required', 'yargy/predicates/bank.py'), ('PredicatesComposition, activation of nested predicates', 'yargy/predicates/constructors.py')],
     ['Parser(rule(p)).match(token text)', 'Parser(rule(p)).findall(text)'])

prop('C05', 'match() accepts a text exactly when the rule derives all of its tokens',
     'For every rule built from sequences, alternatives, optional, repeatable, empty and forward (recursive, including left, mutual and nullable recursion) rules and every text, match() returns a match covering all tokens of the text if and only if the whole token sequence can be derived from the rule, and None otherwise. '
     'A rule that derives only the empty sequence yields no match rather than an error.',
     ['programs', 'inputs'], 'every grammar expressible with the rule constructors, every token sequence',
     'Tests run a few dozen fixed grammars on one or two accepted strings each; nullable and recursive combinations are unsampled.',
     ['yargy/parser.py', 'yargy/rule/transformators.py', 'yargy/rule/bnf.py'],
     [('Earley predict/scan/complete', 'yargy/parser.py:Parser.chart'), ('normalisation to BNF', 'yargy/rule/transformators.py')],
     ['Parser(rule).match(text)'])

prop('C06', 'findall() returns ordered, disjoint, valid matches of maximal coverage',
     'findall() returns non-empty matches ordered by position that never share a token, each spanning a contiguous run of tokens that the rule (including its agreement constraints) really matches, with match.span equal to the text range from the first to the last token. '
     'No other set of disjoint matches of the rule covers more tokens of the text (a text has no match only when no run of its tokens matches), and find() is the first element of findall(), or None.',
     ['programs', 'inputs'], 'every rule and text, in particular with overlapping, nested and adjacent candidate matches',
     'Tests never exercise findall on overlapping candidates; resolution of overlaps is a dynamic programme whose errors need particular overlap patterns.',
     ['yargy/parser.py', 'yargy/span.py'],
     [('resolve_spans weighted interval scheduling', 'yargy/span.py'), ('prepare_resolved_matches', 'yargy/parser.py')],
     ['list(Parser(rule).findall(text))', 'Parser(rule).find(text)'])

prop('C07', 'Ambiguity is resolved to the preferred derivation, reading left to right',
     'When a rule derives the same run of tokens in several ways, match() and findall() report the first valid one in this order: derivations are compared from the root down and left to right, and at the first choice where they differ an earlier alternative of or_ wins, optional() prefers the empty reading and repeatable() (any bounds) prefers to continue, each inverted by reverse=True. '
     'A less preferred derivation is used only when the more preferred ones violate agreement.',
     ['programs', 'inputs'], 'every ambiguous rule and text; every position of reverse flags',
     'The order is a comparison over whole derivation trees; tests check it on no ambiguous interpretation beyond trivial ones.',
     ['yargy/tree/constructors.py', 'yargy/parser.py', 'yargy/rule/transformators.py'],
     [('Node.__lt__ / Tree.__lt__', 'yargy/tree/constructors.py'), ('production order produced by optional/repeatable/bounded expansion', 'yargy/rule/transformators.py')],
     ['facts and trees of match()/findall()'])

prop('C08', 'Optional and repeatable rules accept exactly the counts their bounds allow',
     'rule.optional() accepts zero or one occurrence, repeatable() one or more, repeatable(min=, max=) between min and max (a missing bound means 1, respectively unlimited), regardless of reverse flags, of what the repeated rule is, of where the quantified rule is used and of how often. '
     'Nested quantifiers compose the same way and accept the counts obtained by composing them - except that bounds applied directly to an unlimited repetition are ignored. optional() and repeatable() of a predicate take the same arguments and mean those of the rule of that one term.',
     ['programs', 'inputs'], 'every nesting of optional/repeatable with every combination of min, max and reverse, over every base rule; every number of repetitions',
     'Tests compare the BNF text of a dozen nestings; the simplification of nested quantifiers has dozens more cases.',
     ['yargy/rule/transformators.py', 'yargy/rule/constructors.py'],
     [('SquashExtendedTransformator', 'yargy/rule/transformators.py'), ('ReplaceExtendedTransformator', 'yargy/rule/transformators.py')],
     ['Parser(rule).match("a " * n)'])

prop('C09', 'Using a rule never changes it: rules can be shared and reused freely',
     'Building parsers from a rule, parsing, asking for its normalized form, BNF or picture, embedding it in other rules, naming, quantifying, annotating or interpreting it leaves the rule (and every rule it refers to, including forward rules) meaning what it meant before, also when a forward it refers to is defined later. '
     'Parsers built from a shared rule - in any order, with the same or different tokenizers and taggers, before or after other uses - behave as if each had been built from a private fresh copy of the rule.',
     ['histories', 'programs'], 'every sequence of uses of a rule and its sub-rules, including parsers with different tokenizers, morphological dictionaries and taggers',
     'Each test builds a rule, uses it once and drops it.',
     ['yargy/rule/transformators.py', 'yargy/rule/bnf.py', 'yargy/parser.py', 'yargy/pipelines.py'],
     [('RuleTransformator copies instead of modifying', 'yargy/rule/transformators.py'), ('activation binds a copy to the tokenizer and tagger', 'yargy/rule/transformators.py:ActivateTransformator')],
     ['match results of parsers built before and after other uses'])

prop('C10', 'Pipelines match exactly their dictionary phrases',
     'pipeline(lines) matches exactly the token sequences of its lines, caseless_pipeline ignoring letter case, morph_pipeline comparing every word by its normal forms (a word matches if it shares one with the line\'s word at that place; other tokens literally up to case). '
     'This holds for any lines, given as a list (which stays the caller\'s) or any iterable - lines that are prefixes of one another, repeated, sharing first words, with punctuation, digits or inflected words - and wherever the pipeline is used in a rule.',
     ['inputs', 'programs'], 'every list of lines, every text, every place of use of a pipeline',
     'Tests use three pipelines of two lines; the index by first word is only exercised on a hit.',
     ['yargy/pipelines.py', 'yargy/predicates/bank.py'],
     [('index by first term and predict()', 'yargy/pipelines.py:PipelineBNFRule'), ('get_key tokenizes lines with the parser tokenizer', 'yargy/pipelines.py:PipelineScheme')],
     ['match()/findall() of a pipeline'])

prop('C11', 'The normalized value of a pipeline is the dictionary line that matched',
     'When interpretation with normalized() is attached to a pipeline (directly, through a name, an agreement mark or a rule made of the pipeline alone, and however many times the pipeline is used in the grammar), the value is verbatim a line of that pipeline that matches the text at this place. '
     'If several lines match, it is the first line for the literal kinds, and for morph pipelines the line reached by the most probable reading of the first word, then list order.',
     ['inputs', 'programs'], 'every list of lines, text and placement of the pipeline',
     'One test checks one value of one pipeline used once.',
     ['yargy/pipelines.py', 'yargy/tree/transformators.py', 'yargy/interpretation/normalizer.py'],
     [('PipelineProduction.value -> interpretation key', 'yargy/tree/transformators.py:InterpretationTransformator')],
     ['match.fact'])

prop('C12', 'A fact holds exactly what the annotations of its derivation assign',
     'match.fact is an instance of the fact class of the rule in which each attribute annotated inside that rule\'s derivation, at any depth not hidden by another fact, has the value of its annotated part: for a plain attribute the last one left to right, for a repeatable attribute the list of all of them in text order, otherwise the declared default (None, or an empty list). '
     'Facts of the same class nested inside are merged by the same rules, facts given as value of an attribute are nested, an attribute of another fact class is ignored, and a part whose annotations cannot be combined raises TypeError instead of yielding a wrong value.',
     ['programs', 'inputs'], 'every arrangement of fact, attribute and normalizer annotations over every rule shape (or, optional, repeatable, recursive, shared rules)',
     'Tests check some twenty fixed annotation patterns over flat rules.',
     ['yargy/interpretation/interpretator.py', 'yargy/interpretation/fact.py', 'yargy/interpretation/attribute.py', 'yargy/tree/transformators.py', 'yargy/rule/bnf.py'],
     [('FactInterpretator / InterpretatorFact.set, merge', 'yargy/interpretation/fact.py'), ('KeepInterpretationNodesTransformator', 'yargy/tree/transformators.py')],
     ['match.fact'])

prop('C13', 'Attribute values are the text, lemma, inflection or function value asked for',
     'An attribute annotated without a normalizer is the matched text with one space exactly where the source has whitespace between tokens; normalized() replaces every word by the normal form of its first remaining analysis (other tokens lower-cased), inflected(grams) by that analysis inflected to grams (its normal form when impossible). '
     'const(v) is v itself, custom(f) is f of the value it is chained on (raw text when it comes first), chains apply left to right, and user functions are called with exactly those values.',
     ['inputs', 'programs'], 'every normalizer chain, every matched run of words, numbers, punctuation with any spacing',
     'Tests cover one or two words per normalizer.',
     ['yargy/interpretation/normalizer.py', 'yargy/interpretation/attribute.py', 'yargy/token.py'],
     [('join_tokens / join_normalized_tokens / join_inflected_tokens', 'yargy/token.py'), ('FunctionFunctionNormalizer, MorphFunctionNormalizer', 'yargy/interpretation/normalizer.py')],
     ['match.fact attributes', 'calls of user functions'])

prop('C14', 'fact.spans are the text ranges its values were taken from',
     'For every fact, spans is the list, ordered by start, of the text ranges of the parts that gave the values it holds (including nested facts and all items of repeatable attributes, constants included, overwritten values excluded). '
     'Every such range lies inside the match, starts and ends on token boundaries, and reading spans never fails or changes the fact; every reading gives a new list.',
     ['programs', 'inputs'], 'every interpreted match, with every kind of attribute value and nesting',
     'Tests check spans on one fact with plain attributes.',
     ['yargy/interpretation/fact.py', 'yargy/interpretation/interpretator.py'],
     [('spans of interpretation results', 'yargy/interpretation/interpretator.py')],
     ['match.fact.spans'])

prop('C15', 'as_json mirrors the fact and survives JSON serialisation',
     'match.fact.as_json is a mapping in declaration order of exactly those attributes whose value is not None, to the same values the fact\'s attributes hold, nested facts as nested mappings and repeatable attributes as lists, at every depth (values made by user functions appear as they are). '
     'It is built anew from the fact, so changing the returned mapping does not change the fact or later results.',
     ['programs', 'inputs'], 'every interpreted match',
     'Tests check as_json of one small fact.',
     ['yargy/interpretation/fact.py', 'yargy/interpretation/interpretator.py'],
     [('InterpretatorFact.as_json', 'yargy/interpretation/fact.py')],
     ['match.fact.as_json, json.dumps'])

prop('C16', 'Words linked by one relation agree; exactly the agreeing analyses remain',
     'In every match, the main words of all parts marked with the same relation object agree pairwise: each analysis a linked word keeps is compatible with some kept analysis of every other word of that relation, and the kept analyses are the largest such sets (several relations over shared words are satisfied together). '
     'A derivation is reported only if every marked word keeps at least one analysis, and it is rejected only if some word would keep none; words not marked and relations that are distinct objects do not influence each other.',
     ['programs', 'inputs'], 'every placement of relations over every rule shape, every sentence, relations from the bank, custom relations and their combinations',
     'Tests check five sentences with at most three linked words.',
     ['yargy/relations/graph.py', 'yargy/parser.py', 'yargy/tree/transformators.py'],
     [('TokenRelationsGraph.validate/prune', 'yargy/relations/graph.py'), ('prepare_match', 'yargy/parser.py')],
     ['match is None or not', 'token.forms of match.tokens'])

prop('C17', 'gender, number, case and gnc relations follow Russian agreement',
     'number_relation holds when both analyses are singular or both plural (singular-only and plural-only words counting as their number), case_relation when cases are equal (second genitive, accusative and locative being genitive, accusative and locative) or one word is indeclinable, gender_relation when both are plural or genders coincide, with words of common gender fitting masculine, feminine and each other and words of general gender fitting all; gnc_relation is their conjunction. '
     'All are symmetric and and_, or_, not_ over relations are the Boolean combinations of their operands.',
     ['inputs', 'programs'], 'every pair of dictionary analyses and every Boolean combination of relations',
     'Tests use a handful of name and adjective pairs.',
     ['yargy/relations/bank.py', 'yargy/relations/constructors.py', 'yargy/morph.py'],
     [('gender_relation / number_relation / case_relation', 'yargy/relations/bank.py'), ('Gender, Number, Case', 'yargy/morph.py')],
     ['relation(form, other)', 'acceptance of two-word phrases'])

prop('C18', 'The main word of a phrase is the marked term, whatever else is present',
     'A relation attached to a phrase constrains the phrase\'s main word: following, from the phrase down, the term marked main() in each sequence (the first non-empty term when none is marked or the marked one matched nothing), through names, alternatives, optional and repeated parts, no matter which optional terms around it are present. '
     'Marking two terms of one sequence is rejected with ValueError.',
     ['programs', 'inputs'], 'every phrase structure with main() marks at any position and depth, with optional terms before and after',
     'One test has one main() in a two-word phrase without optional terms.',
     ['yargy/tree/constructors.py', 'yargy/tree/transformators.py', 'yargy/rule/constructors.py', 'yargy/relations/constructors.py'],
     [('Node.main', 'yargy/tree/constructors.py'), ('Production.main', 'yargy/rule/constructors.py')],
     ['acceptance of phrases whose main word (dis)agrees', 'token.forms'])

prop('C19', 'A parser keeps no history: results depend only on the text',
     'For one parser, the result of match, find, findall or extract on a text does not depend on what was parsed before, on whether earlier result iterators were consumed fully, partly or interleaved, or on what the caller did with earlier matches and facts, changing them, their tokens and lists included. '
     'Matches of one call are independent of one another as well: reading or interpreting one in any order, repeatedly, always gives the same tokens, tree and fact, and never affects another.',
     ['histories', 'inputs'], 'every sequence of calls on one parser and every consumption order of their results',
     'Tests call a parser once or twice and read each match once.',
     ['yargy/parser.py', 'yargy/tree/transformators.py', 'yargy/interpretation/fact.py', 'yargy/relations/graph.py'],
     [('chart built per call', 'yargy/parser.py:Parser.chart'), ('tree transformations copy nodes and leaves', 'yargy/tree/transformators.py')],
     ['results of every call compared with a fresh parser'])

prop('C20', 'Results are deterministic across processes, hash seeds and object ids',
     'The same program run on the same texts gives the same matches, spans, facts, JSON, BNF and graph listings in every process: results do not depend on the hash seed, on object addresses or garbage collection, on the order in which unrelated objects were created, or on the iteration order of sets.',
     ['configurations', 'histories'], 'every hash seed, process and heap history',
     'The test run uses one process and one hash seed, and each test compares with an expectation that holds there.',
     ['yargy/pipelines.py', 'yargy/parser.py', 'yargy/rule/transformators.py', 'yargy/relations/graph.py', 'yargy/dot.py', 'yargy/tokenizer.py'],
     [('id-keyed dictionaries keep their keys alive', 'yargy/rule/transformators.py'), ('ordered iteration over forms and lines', 'yargy/pipelines.py')],
     ['digest of all results in many child processes'])

prop('C21', 'Parsers and rules can be used from several threads at once',
     'Several threads may build parsers from shared rules, parse with a shared parser, tokenizer or morphological analyzer and interpret matches at the same time, and several result iterators of one parser may be advanced alternately; every call returns what it returns when run alone.',
     ['schedules', 'histories'], 'every interleaving of calls on shared parsers, rules, tokenizers and analyzers',
     'No test uses threads or interleaves iterators.',
     ['yargy/parser.py', 'yargy/tokenizer.py', 'yargy/morph.py', 'yargy/rule/transformators.py'],
     [('no state on Parser or rules is written while parsing', 'yargy/parser.py'), ('lru_cache', 'yargy/morph.py')],
     ['results of every thread compared with sequential results'])

prop('C22', 'Tags reach tag() exactly as the tagger set them',
     'tag(x) accepts exactly the tokens to which the parser\'s tagger gave tag x, the tagger seeing the tokenizer\'s tokens once per call in text order; a tagged token keeps its text, span, type and analyses, also through agreement and in the reported match. '
     'A composition of taggers, given as any iterable (a list stays the caller\'s), applies them in order and knows the tags of all of them, and without a tagger tokens pass unchanged.',
     ['inputs', 'configurations'], 'every tagger (stateless, stateful, dropping or reordering nothing), composition and text',
     'One test uses one tagger on one sentence.',
     ['yargy/tagger.py', 'yargy/token.py', 'yargy/predicates/bank.py', 'yargy/parser.py'],
     [('tagged()', 'yargy/token.py'), ('TaggersComposition', 'yargy/tagger.py'), ('TagPredicate', 'yargy/predicates/bank.py')],
     ['Parser(rule, tagger=...).findall(text)'])

prop('C23', 'Misuse is reported when a rule or parser is built, not by wrong results',
     'A grammeme, token type or tag that a predicate asks for and the parser\'s tokenizer or tagger does not know, wherever it occurs in the rule (nested in combinations, forward or quantified rules, under names, annotations or relations), raises ValueError when the parser is built; invalid bounds (below 1, or max below min), two main() terms, forward(forward) and defaults on repeatable attributes raise ValueError, and arguments of the wrong kind (mixed or_/and_, non-rules, non-facts, undefined forward, wrong tokenizer, unknown attributes as KeyError) raise TypeError or KeyError at construction.',
     ['programs'], 'every ill-formed construction, at every nesting depth inside otherwise valid rules',
     'Tests check unknown grammeme and type at top level only.',
     ['yargy/check.py', 'yargy/api.py', 'yargy/rule/constructors.py', 'yargy/predicates/bank.py', 'yargy/interpretation/fact.py', 'yargy/tokenizer.py', 'yargy/parser.py', 'yargy/relations/constructors.py'],
     [('assert_type and friends', 'yargy/check.py'), ('check_gram/check_type/check_tag at activation', 'yargy/predicates/bank.py')],
     ['exceptions raised by constructors'])

prop('C24', 'The BNF listing of a rule denotes the language its parser accepts',
     'For every rule whose names and annotations are distinct, the lines of rule.normalized.as_bnf.source form a complete grammar - the first line is the start symbol, every symbol used is defined exactly once (those without a user name are numbered R0, R1, ... in order), "e" is the empty sequence - that derives exactly the token sequences the parser of that rule matches, agreement aside. '
     'A named part is listed under its name, or under the label of its fact or attribute if it is annotated, followed by the labels of its relations after "^"; a term marked main() that is not the first one is marked with "^"; a pipeline is listed as such.',
     ['programs'], 'every rule built from predicates, pipelines, sequences, alternatives, quantifiers, names, forwards, relations and annotations',
     'Tests compare the listing of thirty rules with fixed text.',
     ['yargy/rule/bnf.py', 'yargy/rule/transformators.py', 'yargy/rule/constructors.py'],
     [('BNFTransformator, generate_names', 'yargy/rule/bnf.py'), ('FlattenTransformator', 'yargy/rule/transformators.py')],
     ['rule.normalized.as_bnf.source'])

prop('C25', 'Pictures of rules and parse trees are well formed and faithful',
     'The graph of a rule or of a match\'s tree is valid Graphviz source for any names and token texts (quotes, backslashes, line breaks), its labelled nodes are exactly the nodes of the rule or tree, each once, with the labels of their names, attributes, relations or token texts, and its solid edges are exactly the parent-child links in order; its dashed edges join the parts of a tree that are marked with the same relation, labelled by it. '
     'Drawing changes nothing.',
     ['programs', 'inputs'], 'every rule and every parse tree, with hostile label characters',
     'No test renders a graph.',
     ['yargy/dot.py', 'yargy/rule/transformators.py', 'yargy/tree/transformators.py'],
     [('style.quote, Graph.source', 'yargy/dot.py'), ('DotRuleTransformator / DotTreeTransformator', 'yargy/rule/transformators.py')],
     ['rule.as_dot.source, match.tree.as_dot.source, dot(1)'])

prop('C26', 'Every text is processed: no exception, no endless parse',
     'For every valid rule and every text whatsoever - empty, blank, control characters, surrogates, unknown words, repeated, mixed scripts - tokenizing, match, find, findall, extract and interpretation return normally after finitely many steps, for every rule shape including recursion through optional and empty rules. '
     'A text without tokens has no matches.',
     ['inputs', 'programs'], 'every text and every valid rule',
     'Tests use well-formed Russian phrases and no rule with cyclic empty derivations.',
     ['yargy/parser.py', 'yargy/tokenizer.py', 'yargy/predicates/bank.py', 'yargy/tree/transformators.py', 'yargy/interpretation/interpretator.py'],
     [('loop detection for rules that derive themselves', 'yargy/parser.py:State'), ('empty matches are dropped', 'yargy/parser.py:prepare_match')],
     ['exceptions, step counts'])

prop('C27', 'Facts, tokens, spans and forms are plain values',
     'Objects of one class are equal exactly when all their declared fields are equal (different classes never are), != is its negation, hashable ones that are equal hash alike, iterating gives the fields in declared order, repr shows class and fields; a span also equals the (start, stop) pair and spans order by position. '
     'A fact class is its own type: instances of two fact classes with the same attributes differ, keyword arguments set attributes, missing ones take the declared default and every instance has its own list for a repeatable attribute.',
     ['inputs', 'programs'], 'every pair of value objects and every fact declaration',
     'Tests only compare expected facts with actual ones for equality.',
     ['yargy/record.py', 'yargy/span.py', 'yargy/interpretation/fact.py', 'yargy/token.py', 'yargy/morph.py'],
     [('Record.__eq__/__hash__/__iter__', 'yargy/record.py'), ('fact()', 'yargy/interpretation/fact.py')],
     ['==, hash, repr, iter'])

prop('C28', 'extract() enumerates every derivation once; each tree is a real derivation',
     'extract() yields one match for every way the rule derives a run of tokens (satisfying agreement; readings that derive a part from itself without consuming anything are not counted), each exactly once, with all=False only for derivations of the whole text. '
     'In every match the leaves of the tree, left to right, are match.tokens, a contiguous run of the text\'s tokens each accepted by the predicate it is attached to, and each inner node\'s children spell out one alternative of its rule with parts that matched nothing left out.',
     ['programs', 'inputs'], 'every rule (ambiguous ones included) and text',
     'No test calls extract or inspects a tree.',
     ['yargy/parser.py', 'yargy/tree/transformators.py', 'yargy/tree/constructors.py'],
     [('state deduplication', 'yargy/parser.py:Column.append'), ('PropogateEmptyTransformator', 'yargy/tree/transformators.py')],
     ['Parser(rule).extract(text, all=...)', 'match.tree'])

prop('C29', 'User-supplied tokenizers and tokens are used as they are',
     'A parser works with any tokenizer derived from the library\'s ones: it calls it once per text, matches on exactly the tokens it yields (any values, types, spans, order, with or without analyses, already tokenized input included) and reports those very token texts and spans, with values joined by their spans. '
     'Predicates that need dictionary data ask that tokenizer\'s own analyzer and types, pipelines and dictionaries split their lines with that tokenizer.',
     ['configurations', 'inputs'], 'every tokenizer subclass (pre-tokenized input, filtered, merged or retyped tokens, custom dictionaries)',
     'One test passes a tokenizer with one extra rule.',
     ['yargy/parser.py', 'yargy/pipelines.py', 'yargy/predicates/bank.py', 'yargy/tokenizer.py'],
     [('Context(tokenizer, tagger) at activation', 'yargy/parser.py')],
     ['match.tokens versus tokens produced'])

prop('C30', 'Parsing work stays polynomial and nothing of a text is retained',
     'A predicate is asked about a token at most once per way the rule can reach it from one start - for a sequence of single terms at most once per term and token - so for an unambiguous rule predicate evaluations grow at most quadratically with the number of tokens, in findall and match alike (match only tries the text\'s beginning as a start). '
     'Once the results are dropped, neither the parser nor the rules keep tokens, trees or facts of a parsed text alive.',
     ['inputs', 'histories'], 'every unambiguous rule, text length and sequence of parses',
     'Tests use texts of a few tokens and never count work or memory.',
     ['yargy/parser.py'],
     [('Column.append deduplication, predict once per column', 'yargy/parser.py'), ('chart local to a call', 'yargy/parser.py:Parser.chart')],
     ['calls of user predicates per token', 'weak references to tokens'])

prop('C31', 'Naming, grouping, sharing and annotating do not change what matches',
     'Wrapping any part of a rule in named(), in a one-term rule() or one-alternative or_(), in a forward, in interpretation() or (for words) in a relation used only there, or replacing shared sub-rules by equal separate copies (or the reverse), changes neither which token runs match nor which matches findall() chooses - bounds put directly on an unlimited repetition aside. '
     'Likewise the values of existing annotations are unchanged by adding names, groupings or forwards around or between annotated parts inside the rule. '
     'A forward may be defined through the name, annotation, relation or quantifier put on it: define() gives the rule it was called on, so defining in the same expression or in a later statement is the same.',
     ['programs', 'inputs'], 'every rule and every set of places where wrappers are added or copies made',
     'Tests compare a few BNF listings; interplay of wrappers with sharing decides where extra symbols appear.',
     ['yargy/rule/bnf.py', 'yargy/rule/transformators.py', 'yargy/tree/transformators.py'],
     [('lift / is_shared', 'yargy/rule/bnf.py:BNFTransformator'), ('FlattenTransformator', 'yargy/rule/transformators.py')],
     ['findall() spans and facts of the original and the rewritten rule'])

prop('C32', 'A word matched by gram() or is_single() keeps only the analyses that fit',
     'In a match, the token attached to a gram(g) term keeps exactly the analyses that have g, and to an is_single() term exactly the singular ones, in their original order; every other built-in term keeps all analyses. '
     'Values derived from the token (normalized, inflected, agreement) use the remaining analyses, and other readings of the same word - elsewhere in the text, in other matches or in other alternatives - are not affected.',
     ['inputs', 'programs'], 'every ambiguous word, predicate and combination of overlapping readings',
     'A test checks one inflected surname; sharing of tokens between readings is never observed.',
     ['yargy/predicates/bank.py', 'yargy/parser.py', 'yargy/token.py'],
     [('constrain()', 'yargy/predicates/bank.py'), ('scan builds a constrained leaf', 'yargy/parser.py:Parser.scan')],
     ['token.forms of match.tokens', 'match.fact'])

prop('C33', 'A match depends only on the tokens it covers',
     'For every rule of built-in predicates and pipelines and every text: if findall() reports a match, match() of exactly that part of the text, alone or between blanks, gives the same tree, tokens, analyses, value, JSON and fact spans, shifted. '
     'Rewriting white space between tokens without joining or splitting any changes only spans and the spaces inside of text values. '
     'Texts joined by a token that no term of the rule accepts give, in one document of any length, exactly the matches of findall(), and the derivations of extract(), each text gives alone, in order and shifted.',
     ['inputs', 'programs'], 'every rule, text, split of a text into parts and document length',
     'Tests give one short text to each rule and compare it with a fixed result; no test relates results on different texts.',
     ['yargy/parser.py', 'yargy/span.py', 'yargy/tokenizer.py', 'yargy/interpretation/interpretator.py'],
     [('every column predicts the start rule', 'yargy/parser.py:Parser.chart'), ('select_span_indexes', 'yargy/span.py'), ('join by spans', 'yargy/tokenizer.py')],
     ['findall(), extract() and match() of parts and of documents'])

prop('C34', 'Labels name what the user wrote, and everything can be displayed',
     'In listings, pictures, trees and printed charts the label of a part is what the user wrote: \'value\' of a literal, the constructor of another predicate with its argument (collections as "..."), and_, or_, not_ with their operands in order, Fact, Fact.attribute and the normalizers applied with their arguments, the name given, and after "^" the relation. '
     'repr(), str() and notebook display of every object - rules, also recursive and unfinished ones, their forms and listings, predicates, relations, attributes, tokens, matches, trees, facts, charts, pictures - never fail, are the same when repeated, and change neither the object nor any later result. '
     'The completed entries of the first symbol in a printed chart are exactly the token runs the rule matches, agreement aside.',
     ['programs', 'inputs'], 'every object of every rule and parse',
     'Tests compare a few labels inside of thirty listings; nothing is displayed by any test.',
     ['yargy/record.py', 'yargy/predicates/constructors.py', 'yargy/predicates/bank.py', 'yargy/interpretation/normalizer.py', 'yargy/relations/constructors.py', 'yargy/parser.py', 'yargy/rule/bnf.py'],
     [('label of predicates, normalizers, relations', 'yargy/predicates/constructors.py'), ('Record.__repr__, _repr_pretty_', 'yargy/record.py'), ('Chart.source, State.__str__', 'yargy/parser.py')],
     ['rule.normalized.as_bnf.source, label, repr(), pretty printing'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
