"""The properties, and for each the functions whose specification decides it.

`keys` are regular expressions over "Type|Trait|name"; `rules` are further analyses (engine/rules.py).
This file is the only source of properties.jsonl and MANIFEST.json (gen.py writes both)."""

ADV = r"IProduction\|advance_(fltr_ptr|token_ptr|ptr)$"
COMPOSITES = ["Concat", "Union", "Suffixes", "List", "SeparatedList", "Nullable", "Lookahead", "Hidden", "Node", "Validator", "Cacheable", "Structural", "NonStructural"]
TERMINALS = ["TokenField", "TokenFieldSet", "ConstantField", "ConstantFieldSet", "PunctuationsField", "RegexField", "EOFProd", "NullProd"]
PRODS = COMPOSITES + TERMINALS
STREAM = [r"^TokenStream\|", r"^(TokenPtr|FltrPtr)\|"]
SUCCESS = [r"^SuccessData\|\|(new|hidden|tree)$", r"^ASTNode\|\|(new|leaf|null)$"]
ERRS = [r"^ProductionError\|\|is_"]


def any_of(l):
    return "(" + "|".join(l) + ")"


def adv(*l):
    return [r"^%s\|%s" % (any_of(l), ADV)]


LEXEMES = ["Pattern", "Punctuations", "Constants", "Mapper", "ThunkMapper", "Middleware", "StateMixin", "ThunkStateMixin"]
PARSERS = [r"^DefaultParser\|\|(parse|parse_stream|tokenize|tokenize_n_parse)$", r"^LexerlessParser\|\|parse$"]
NULLS = r"IProduction\|(is_nullable|is_nullable_n_hidden|obtain_nullability)$"

P = []


def prop(id, title, statement, over, quant, why, files, mech, keys=(), rules=(), obs=None, note="", **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, keys=list(keys), rules=list(rules), obs=obs, note=note, **kw))


LEXF = ["src/tokenization.rs", "src/lexeme/"]
INPUTS = "every byte string and every configuration of tokenizer and lexemes"
GRAM = "every grammar built from the production utilities, every input and every position in it"

# ------------------------------------------------------------------ tokenizing
prop("T01", "Tokens tile the input and end with exactly one end token",
     "A successful tokenization is lossless: the first token starts at byte 0, each token starts where the previous one ended, the last one ends at the end of the input and is followed by exactly one end-of-file token there. This holds for the empty input too.",
     ["inputs", "configurations"], INPUTS,
     "The tests tokenize a dozen short texts; tiling must hold for every text, every set of lexemes and every sequence of state changes.",
     LEXF, [("tokenization loops", "src/tokenization.rs: Tokenizer::tokenize, CombinedTokenizer::tokenize"), ("what a lexeme reports as consumed", "src/lexeme/: consume of each lexeme")],
     [r"^(Tokenizer|CombinedTokenizer)\|ITokenization\|tokenize$", r"^(Tokenizer|CombinedTokenizer)\|\|new$", r"\|ILexeme\|consume$", r"^FieldTree\|", r"^Lex\|\|new$", r"^Action\|"])
prop("T02", "A token covers exactly what its lexeme matches there",
     "The text under a token is what the lexeme that made it matches at that point: a match of its regular expression beginning there, one of its constants, or one of its punctuations, and the token carries the kind that was configured for that text.",
     ["inputs", "configurations"], INPUTS,
     "Tests look at a few tokens; an off-by-one in what is sliced or reported shows only at particular offsets and lengths.",
     ["src/lexeme/", "src/field_tree.rs"], [("lexeme matching", "src/lexeme/pattern.rs, punctuations.rs, constants.rs"), ("prefix tree", "src/field_tree.rs")],
     [r"^(Pattern|Punctuations|Constants|Mapper|ThunkMapper|Middleware|StateMixin|ThunkStateMixin)\|ILexeme\|consume$", r"^(Pattern|Punctuations|Constants|Mapper)\|\|", r"^FieldTree\|", r"^Lex\|\|new$"])
prop("T03", "Punctuations and constants take the longest entry that matches",
     "Among the configured values that the input goes on with, punctuations and constants choose the longest one, whatever the order in which the values were given; a value is taken even if a longer one that shares its beginning does not match.",
     ["inputs", "configurations"], "every set of values, every input and position",
     "The tests configure values whose prefixes happen to be values too; a tree that loses the fallback or a wrong order of values shows only for other sets.",
     ["src/field_tree.rs", "src/lexeme/punctuations.rs", "src/lexeme/constants.rs", "src/production/terminals/punctuation.rs", "src/production/terminals/constant_field.rs"],
     [("prefix tree search and insertion", "src/field_tree.rs: FieldTree::find, insert"), ("values sorted by length", "src/lexeme/constants.rs: Constants::new")],
     [r"^FieldTree\|", r"^(Punctuations|Constants)\|", r"^(PunctuationsField|ConstantFieldSet)\|\|new$", r"^(PunctuationsField|ConstantFieldSet|ConstantField)\|IProduction\|advance_ptr$"])
prop("T04", "No lexeme yields an empty token, so tokenizing always makes progress",
     "A lexeme that takes something takes at least one byte: expressions that match nothing are refused or yield no token, and empty punctuations and constants never match. Tokenizing therefore ends for every input.",
     ["inputs", "configurations"], INPUTS,
     "Termination is a statement about every input; tests that hang are never written down.",
     LEXF, [("refusal of empty matches", "src/lexeme/pattern.rs: Pattern::new, consume; src/lexeme/punctuations.rs: Punctuations::new"), ("pointer advance", "src/tokenization.rs")],
     [r"^(Pattern|Punctuations|Constants)\|", r"\|ILexeme\|consume$", r"^FieldTree\|", r"^(Tokenizer|CombinedTokenizer)\|ITokenization\|tokenize$"])
prop("T05", "The first lexeme of the active state that matches makes the token",
     "At every point the lexemes of the state on top of the state stack (of the default state while the stack is empty) are tried in the order given, and the first that yields a token makes the next one.",
     ["inputs", "configurations", "histories"], "every sequence of state changes, every order of lexemes, every input",
     "State histories are unbounded; tests drive two states through a handful of switches.",
     ["src/tokenization.rs"], [("choice of lexemes", "src/tokenization.rs: CombinedTokenizer::tokenize, add_state; Tokenizer::tokenize")],
     [r"^(Tokenizer|CombinedTokenizer)\|", r"^(StateMixin|ThunkStateMixin|Middleware)\|"])
prop("T06", "A state action does to the state stack exactly what it says",
     "When a lexeme with an action yields the token the action is for, the state stack changes as the action says (append on top, remove the top, replace the top, or nothing) and the token is dropped exactly when the action says so; no other lexeme changes the stack.",
     ["inputs", "configurations", "histories"], "every table of actions, every token and every stack",
     "A handful of scripted stack changes say nothing about other tokens, other stacks or an empty stack.",
     ["src/lexeme/"], [("state actions", "src/lexeme/state_mixin.rs, thunk_state_mixin.rs; Action in src/lexeme/mod.rs")],
     [r"^(StateMixin|ThunkStateMixin)\|", r"^Action\|", r"\|ILexeme\|consume$", r"\|LexemeBuilder\|(state_mixin|thunk_mixin)$"])
prop("T07", "Wrapping a lexeme never moves the token it makes",
     "A mapping changes only the kind of a token (to the kind listed for exactly its text, or the kind its function gives), a middleware only decides whether the lexeme is asked at all, and a state action never changes the token: begin and end stay those of the wrapped lexeme.",
     ["inputs", "configurations"], INPUTS,
     "Tests map a few identifiers; what happens to unlisted texts, to near matches and to other lexemes' tokens is not sampled.",
     ["src/lexeme/"], [("wrapping lexemes", "src/lexeme/mapper.rs, thunk_mapper.rs, middleware.rs, state_mixin.rs, thunk_state_mixin.rs")],
     [r"^(Mapper|ThunkMapper|Middleware|StateMixin|ThunkStateMixin)\|(ILexeme)?\|(consume|new|extend_fields)$", r"\|LexemeBuilder\|", r"^Lex\|\|new$"])
prop("T08", "A text that cannot be tokenized is reported at the byte where it fails",
     "Tokenizing fails exactly when no lexeme of the active state yields a token before the end of the input; the error then points at the first byte that no token covers and tells that position as line and column.",
     ["inputs", "configurations"], INPUTS,
     "The tests hold no failing tokenization at all.",
     ["src/tokenization.rs", "src/code.rs", "src/error.rs"], [("failure branch of the loops", "src/tokenization.rs"), ("line and column", "src/code.rs: obtain_position")],
     [r"^(Tokenizer|CombinedTokenizer)\|ITokenization\|tokenize$", r"\|ILexeme\|consume$", r"^Code\|", r"^ParseError\|\|new$", r"^DefaultParser\|\|(tokenize|parse|tokenize_n_parse)$"])
prop("T09", "Ambiguous or empty lexical entries are refused when the lexeme is built",
     "Building a lexeme or a lexerless terminal fails with an error when a value is listed twice, when a punctuation is empty, or when an expression matches the empty text; what is accepted is kept complete.",
     ["configurations"], "every list of values and every expression",
     "Tests build valid tables only.",
     ["src/lexeme/", "src/field_tree.rs", "src/production/terminals/"], [("constructors", "src/lexeme/: Pattern::new, Punctuations::new, Mapper::new"), ("duplicates in the prefix tree", "src/field_tree.rs: insert")],
     [r"^(Pattern|Punctuations|Constants|Mapper)\|\|", r"^FieldTree\|", r"^(PunctuationsField|ConstantField|ConstantFieldSet|RegexField|TokenFieldSet)\|\|(new|with_value)$", r"\|LexemeBuilder\|mapping$"])

# ------------------------------------------------------------------ parsing
PR = "src/production/"
prop("P01", "A sequence parses all its symbols one after another, or not at all",
     "A concatenation succeeds exactly when each of its symbols succeeds in order, each from the position where the one before it stopped; it then stops where the last one stopped and yields the children of all symbols in order, and otherwise fails with the first failure.",
     ["inputs", "programs"], GRAM,
     "The tests run a few grammars on a few texts; order, positions and children must be right for every sequence.",
     [PR + "non_terminals/concat.rs"], [("sequencing", PR + "non_terminals/concat.rs: advance_*")],
     adv("Concat") + [r"^Concat\|\|(new|init|set_symbols)$"] + SUCCESS)
prop("P02", "A choice takes the first alternative that parses",
     "A choice tries its candidate alternatives in the order they were given and succeeds with the result of the first that parses; a failure that is not a validation error moves on to the next one, and when none parses the choice fails.",
     ["inputs", "programs"], GRAM,
     "Order matters only when two alternatives match the same input, which the example grammars avoid.",
     [PR + "non_terminals/union.rs"], [("ordered choice", PR + "non_terminals/union.rs: advance_*, obtain_first_set")],
     adv("Union") + [r"^Union\|\|(new|init|set_symbols)$"] + ERRS)
prop("P03", "Looking at the next token never rules out an alternative that begins with it",
     "The set of tokens a production is said to begin with contains every token one of its parses can begin with, and a choice or a suffix with structural alternatives considers, in order, every alternative that begins with the next token or may be empty.",
     ["inputs", "programs"], GRAM,
     "Pruning goes wrong only for particular combinations of empty alternatives and shared tokens.",
     [PR], [("first sets", PR + ": impl_first_set of each production"), ("candidate lookup", PR + "non_terminals/union.rs: obtain_first_set; suffixes.rs: obtain_suffixes_set")],
     [r"\|IProduction\|impl_first_set$", r"^(Union|Suffixes)\|" + ADV, r"^%s\|%s" % (any_of(PRODS), NULLS), r"^TokenFieldSet\|\|", r"^TokenStream\|(Index)?\|(index|get_token_ptr)$"])
prop("P04", "A list is greedy, needs one item and always ends",
     "A list parses its symbol as often as it succeeds, at least once, and stops at the first failure or when a repetition consumes nothing; it yields the children of every repetition in order and stops where the last one stopped.",
     ["inputs", "programs"], GRAM,
     "Lists of empty items, of one item and of many differ in edge cases no sampled input reaches.",
     [PR + "non_terminals/list.rs"], [("repetition", PR + ": List::advance_*")],
     adv("List") + [r"^List\|\|", r"\|ProductionBuilder\|into_list$"] + SUCCESS)
prop("P05", "A separated list parses item (separator item)* and handles a trailing separator",
     "A separated list parses an item and then, as long as both succeed, a separator and an item; a separator that no item follows is consumed only by a list that includes it, otherwise the list stops before it. It always ends, and yields the children of items and separators in order.",
     ["inputs", "programs"], GRAM,
     "Trailing separators, empty items and empty separators are a handful of interacting cases in three entry points each.",
     [PR + "non_terminals/separated_list.rs"], [("separated repetition", PR + ": SeparatedList::advance_*")],
     adv("SeparatedList") + [r"^SeparatedList\|\|", r"\|ProductionBuilder\|into_separated_list$"] + SUCCESS)
prop("P06", "Optional, lookahead, empty and end productions consume nothing of their own",
     "An optional production that does not parse succeeds without moving, a lookahead succeeds exactly when its symbol does and never moves, the empty production always succeeds without moving, and the end production succeeds exactly at the end of the input without moving; the node they were given, if any, is empty there.",
     ["inputs", "programs"], GRAM,
     "Tests check the tree for one or two inputs, hardly ever the position these productions leave behind.",
     [PR + "wrappers/", PR + "terminals/"], [("zero-width productions", PR + ": Nullable, Lookahead, NullProd, EOFProd advance_*")],
     adv("Nullable", "Lookahead", "NullProd", "EOFProd") + [r"^(Nullable|Lookahead|NullProd|EOFProd)\|\|(new|hidden)$", r"\|ProductionBuilder\|into_(nullable|null_hidden|lookahead)$", r"^TokenStream\|(Index)?\|(index|eos_pointer|is_eos|is_eos_segment|pointer|get_token_ptr)$", r"^[iu](8|16|32|64|size)\|(TokenImpl|NodeImpl)\|", r"^ASTNode\|\|null$"])
prop("P07", "Suffixes parse the left part and the first suffix that follows",
     "Suffixes parse their left part once and then the first suffix, in order, that parses where the left part stopped, under one node of that suffix's kind spanning both; without a matching suffix the left result stands alone if that was allowed, and otherwise the production fails.",
     ["inputs", "programs"], GRAM,
     "Order and choice of suffixes, empty suffixes and the stand-alone case combine with three entry points.",
     [PR + "non_terminals/suffixes.rs"], [("suffix choice", PR + "non_terminals/suffixes.rs: advance_*, obtain_suffixes_set, obtain_first_null_suffix")],
     adv("Suffixes") + [r"^Suffixes\|\|(new|init|set_suffixes)$", r"\|ProductionBuilder\|into_suffixes$"] + SUCCESS + ERRS)
prop("P08", "A terminal matches exactly its own token or text and consumes exactly that",
     "A token terminal succeeds exactly when the token at the position is (one of) its own, and moves one token on; a text terminal succeeds exactly when the input goes on with (one of) its values or a match of its expression, and moves to the end of it. The node it yields, if any, covers exactly what it consumed.",
     ["inputs", "programs"], GRAM,
     "A terminal is called at every position of every input; tests see a few of them.",
     [PR + "terminals/"], [("terminals", PR + "terminals/: advance_*")],
     adv("TokenField", "TokenFieldSet", "ConstantField", "ConstantFieldSet", "PunctuationsField", "RegexField") + [r"^(TokenField|TokenFieldSet|ConstantField|ConstantFieldSet|PunctuationsField|RegexField)\|\|(new|with_value)$", r"^FieldTree\|", r"^(TokenPtr|FltrPtr)\|(Add|Sub)\|", r"^TokenStream\|(Index)?\|(index|get_token_ptr)$"])
prop("P09", "Switching between all tokens and structural tokens keeps the place in the input",
     "A structural production inside a non-structural one starts at the first structural token at or after the position and goes on right after the last one consumed; a non-structural production sees exactly the tokens between two structural ones, does not move the structural position, and with a range to fill must consume all of them.",
     ["inputs", "programs"], GRAM,
     "Needs inputs with white space at particular places, at the start and at the end, in nested switches.",
     [PR + "wrappers/", "src/filtered_stream.rs"], [("mode switches", PR + ": Structural, NonStructural advance_*"), ("token domains", "src/filtered_stream.rs: find_filter_ptr, get_token_ptr")],
     adv("Structural", "NonStructural") + [r"^(Structural|NonStructural)\|\|(new)$"] + STREAM)
prop("P10", "Hiding, naming and validating a production change the tree, never the language",
     "Hiding a production drops its children, naming it puts them under one node, validating it passes them on or fails: in each case the production consumes exactly what the one it wraps consumes, and fails whenever that fails.",
     ["inputs", "programs"], GRAM,
     "Tests compare whole trees of accepted inputs; failures and positions behind wrappers are not looked at.",
     [PR + "wrappers/"], [("wrappers", PR + ": Hidden, Node, Validator advance_*")],
     adv("Hidden", "Node", "Validator") + [r"^(Hidden|Node|Validator)\|\|(new|hidden)$", r"\|ProductionBuilder\|(into_hidden|into_node|validate_with)$"] + SUCCESS + [r"^TokenStream\|\|create_node$"])
prop("P11", "Remembering results never changes them",
     "A production with remembered results gives at every position exactly what it gave there first in the same parse, failure or success; results are kept apart by production and position, and nothing is remembered from one parse to the next.",
     ["inputs", "programs", "histories"], "every grammar, every input and every order in which positions are visited and revisited",
     "Memo errors need two visits of one position on different ways through the grammar.",
     ["src/cache.rs", PR + "wrappers/"], [("memo table", "src/cache.rs: find, insert"), ("remembering production", PR + ": Cacheable::advance_*"), ("fresh table per parse", "src/parsing.rs, src/impl_default.rs")],
     adv("Cacheable") + [r"^Cacheable\|\|", r"^Cache\|\|(find|insert|contains|root|update_index|get_index)$", r"^CacheKey\|"] + PARSERS,
     rules=["memo_fresh"])
prop("P12", "A validation error ends the parse and is never swallowed",
     "Once a validator reports an error, no surrounding production tries another alternative, repetition, suffix or optional case: the error reaches the caller unchanged, from every production and every way of parsing. A lookahead and a remembered result pass it on as well.",
     ["inputs", "programs"], GRAM,
     "Needs a validator below each kind of production, in each position and entry point; the tests have one.",
     [PR], [("propagation", PR + ": advance_* of each production"), ("kinds of errors", "src/error.rs: is_invalid, is_unparsed")],
     adv(*COMPOSITES) + ERRS + PARSERS, obs="validation")
prop("P13", "Every node spans exactly what was parsed below it",
     "The byte range of a node runs from where its production began to where it stopped, its token range says the same in tokens, and its children are the nodes parsed below it in input order; a terminal's node covers its token, an empty node covers nothing at its position.",
     ["inputs", "programs"], GRAM,
     "Spans are hardly asserted in the tests, and white space makes begin and end differ from the tokens'.",
     [PR, "src/ast_node.rs"], [("nodes", PR + ": advance_* that build nodes"), ("node constructors", "src/ast_node.rs, src/filtered_stream.rs: create_node")],
     adv("Node", "Suffixes", "Nullable", "Lookahead", "Concat", "List", "SeparatedList", *TERMINALS) + SUCCESS + [r"^SuccessData\|\|range$", r"^TokenStream\|(Index)?\|(pointer|create_node|get_token_ptr|index|eos_pointer)$", r"^(TokenPtr|FltrPtr)\|(Add|Sub)\|", r"^[iu](8|16|32|64|size)\|NodeImpl\|", r"\|ProductionBuilder\|into_node$"])
prop("P14", "A production means the same over structural tokens, all tokens and bytes",
     "Parsing structural tokens, parsing all tokens and parsing bytes directly follow one definition per production: the same success or failure, the same order of attempts and the same tree shape, up to the unit in which positions are counted.",
     ["inputs", "programs"], GRAM,
     "Three copies of each algorithm exist; the tests drive mostly one of them.",
     [PR], [("three entry points", PR + ": advance_fltr_ptr, advance_token_ptr, advance_ptr")],
     adv(*PRODS) + SUCCESS + ERRS)
prop("P15", "A parse depends on the grammar and the input only, and parsers can be reused",
     "Parsing changes nothing that outlives it but facts derived from the grammar alone: no tokenizer, lexeme or production keeps anything of an input, and each parse starts with an empty record. Parsing the same input again, after any other inputs, therefore gives the same result.",
     ["inputs", "histories", "programs"], "every sequence of parses with one parser",
     "Leaked state shows only in a later parse with particular earlier inputs; the tests parse once per parser.",
     ["src/parsing.rs", "src/cache.rs", PR, "src/lexeme/"], [("record of one parse", "src/parsing.rs: parse"), ("memo cells", PR + "non_terminals/: OnceCell fields")],
     PARSERS + [r"^Cache\|\|root$", r"^(Union|Suffixes)\|" + ADV, r"^Cacheable\|" + ADV] , rules=["purity", "memo_fresh"])
prop("P16", "The furthest point that a parse reached is tracked exactly",
     "Every terminal that matches moves the recorded furthest point to the end of what it matched if that is further, nothing ever moves it back, and productions without input of their own leave it as their parts left it.",
     ["inputs", "programs"], GRAM,
     "The record matters only for error messages on failing inputs, which the tests do not sample.",
     [PR + "terminals/", "src/cache.rs"], [("furthest point", "src/cache.rs: update_index; terminals")],
     adv(*PRODS) + [r"^Cache\|\|(update_index|get_index|insert|root)$"], obs="state")
prop("P17", "A production that is tried by itself parses as it does in place",
     "In debug builds, a production that was registered under a name can be parsed at a byte position: the text is tokenized as always, the production starts at the first structural token that does not begin before that byte (or at the byte itself without a tokenizer) with nothing remembered, and its trees, or the error with the furthest point counted from there, are what the caller gets; an unknown name is an error, not an abort.",
     ["inputs", "programs"], "every registered production, input and position (debug builds)",
     "The tests try two productions at two positions, both of which lie on a token.",
     ["src/parsing.rs"], [("entry points for one production", "src/parsing.rs: add_debug_production, get_production, debug_production_at, debug_parser_at")],
     [r"^(DefaultParser|LexerlessParser)\|\|(add_debug_production|get_production|debug_production_at|debug_parser_at|new)$", r"^Cache\|\|(debug_new|update_index|create_error)$", r"^TokenStream\|\|filtered_index_at$", r"^TokenStream\|From\|"])

# ------------------------------------------------------------------ grammars
prop("V01", "A left-recursive grammar is rejected before it can parse",
     "When a production can come back to itself without consuming anything, through any chain of alternatives, sequences whose earlier symbols may be empty, suffixes or wrappers, validating the grammar fails; a grammar that recurses only after consuming something is accepted.",
     ["programs"], "every grammar, recursive through any number of productions",
     "There are infinitely many shapes of left recursion; the tests hold two.",
     [PR], [("left-edge traversal", PR + ": validate, obtain_nullability"), ("visited symbols", PR + "non_terminals/mod.rs")],
     [r"^%s\|IProduction\|(validate|obtain_nullability|is_nullable)$" % any_of(PRODS), r"^(DefaultParser|LexerlessParser)\|\|(new|validate)$"], rules=["zero_width"])
prop("V02", "A grammar with an undefined symbol is rejected",
     "When a production that was declared but never given its symbols is reachable from the root, in whatever position, validating the grammar fails with an error instead of a later abort.",
     ["programs"], "every grammar and every place for the undefined symbol",
     "Places for an undefined symbol are unbounded; it must be found below every kind of production.",
     [PR], [("traversal of all productions", PR + ": validate"), ("undefined symbols", PR + "non_terminals/")],
     [r"^%s\|IProduction\|(validate|obtain_nullability)$" % any_of(PRODS), r"^(DefaultParser|LexerlessParser)\|\|(new|validate)$", r"^(Concat|Union|Suffixes)\|\|(init|new|set_symbols|set_suffixes)$"])
prop("V03", "A parser can only be had for a validated grammar",
     "Both constructors of parsers validate the grammar from its root before a parser exists, hand back the validation error if there is one, and keep the tokenizer and the root as given.",
     ["programs"], "every grammar",
     "Tests construct parsers for valid grammars.",
     ["src/parsing.rs", "src/impl_default.rs"], [("constructors", "src/parsing.rs: DefaultParser::new, LexerlessParser::new")],
     [r"^(DefaultParser|LexerlessParser)\|\|(new|validate)$"], rules=["sealed"])
prop("V04", "Whether a production may be empty is computed the same way everywhere",
     "A production is held to be possibly empty exactly when its parts make it so: a sequence when all of its symbols may be, a choice when one alternative may be, a list when its item may be, and so on; the answer given while parsing agrees with the one given while validating, and is remembered unchanged.",
     ["programs"], "every grammar",
     "Wrong answers show only where a choice, suffix or list relies on them.",
     [PR], [("nullability", PR + ": obtain_nullability, is_nullable, is_nullable_n_hidden")],
     [r"^%s\|%s" % (any_of(PRODS), NULLS)])
prop("V05", "Builders make the production they name, and settings are set once",
     "Each builder wraps the production it is called on with the given node, separator or function and nothing else; constructors keep their arguments in order, start with everything else unset, and a second attempt to set symbols, a rule name or a log is refused and leaves the first in place.",
     ["programs", "configurations"], "every use of constructors, builders and setters",
     "A builder that swaps two arguments of the same type compiles and passes any test that does not use it.",
     [PR, "src/lexeme/"], [("builders", PR + "builder.rs; src/lexeme/"), ("set-once cells", "set_symbols, set_suffixes, set_log, set_rule_name")],
     [r"\|(ProductionBuilder|LexemeBuilder)\|", r"^%s\|\|(new|init|hidden|with_value|set_.*|assign_debugger)$" % any_of(PRODS + LEXEMES + ["CombinedTokenizer", "Tokenizer"]), r"^(Code|ParseError|Lex|Position|SuccessData|ASTNode)\|\|(new|hidden|tree|leaf)$", r"^(Code|TokenPtr)\|From\|", r"\|(Default|TokenImpl|NodeImpl)\|", r"^NTHelper\|"])
prop("V06", "A refused grammar is told which productions are at fault",
     "When validation refuses a grammar, the error that reaches the caller names the production at fault: for an undefined symbol that symbol, for left recursion the recursive production followed by the productions through which it comes back to itself, from the last one entered to itself. No production on the way replaces or swallows the message.",
     ["programs"], "every grammar, undefined or left recursive at any depth",
     "The tests look at whether validation fails, not at what it says; the chain can be of any length.",
     [PR, "src/parsing.rs", "src/error.rs"], [("the message", PR + "non_terminals/mod.rs"), ("propagation", PR + ": validate, obtain_nullability")],
     [r"^%s\|IProduction\|(validate|obtain_nullability)$" % any_of(PRODS), r"^(DefaultParser|LexerlessParser)\|\|(new|validate)$"], obs="names")
prop("G01", "The exported grammar covers every production, alternative and lexeme",
     "Exporting a grammar writes one rule for every named production reachable from the root, each exactly once, with all of its symbols, alternatives or suffixes in order, and one entry for every lexeme of every tokenizer state. Each rule is its name, the mark ':', its alternatives with '|' between them, and ';'; nodes, separators and patterns stand in the notation that belongs to them.",
     ["programs"], "every grammar",
     "The one test prints a grammar without comparing it.",
     [PR, "src/tokenization.rs", "src/lexeme/"], [("grammar export", PR + ": impl_grammar, build_grammar; get_grammar_field; tokenizers' build_grammar")],
     [r"\|IProduction\|impl_grammar$", r"build_grammar$", r"\|ILexeme\|get_grammar_field$", r"^(DefaultParser|LexerlessParser)\|\|grammar$"])
prop("G02", "Productions, positions and errors print what they stand for",
     "Wherever a production is printed (in a grammar, a message or a log) it shows its own name or its rule name if it has one, and otherwise its parts in the notation of its kind, all of them and in order: 'x+' for a list, '(x)?' for an optional one, 'x (s x)*' with '(s)?' if a separator may end it, alternatives between '|', values and nodes as '[value; node]'. Positions print their line and column, tokens their kind and extent, nodes of a tree their value, extent and all of their children in order, errors their message.",
     ["programs", "inputs"], "every production, tree, position and error",
     "What is printed is compared nowhere in the tests.",
     [PR, "src/position.rs", "src/error.rs", "src/lex.rs", "src/logger.rs"], [("Display", PR + "; src/position.rs; src/error.rs; src/lex.rs; src/logger.rs; src/wrapper_index.rs; src/ast_node.rs")],
     [r"\|Display\|fmt$", r"^ASTNode\|(Debug|TreeItem)\|"])

# ------------------------------------------------------------------ errors
prop("E01", "A syntax error points at the furthest token that could not be parsed",
     "When parsing fails without a validation error, the error points at the token (or byte) at which the furthest attempt of the whole parse stopped, or at the end of the input if everything was consumed, and its message tells that token and position.",
     ["inputs", "programs"], GRAM,
     "Error positions are checked for no input at all in the tests.",
     ["src/cache.rs", "src/parsing.rs", PR], [("error from the record", "src/cache.rs: create_error"), ("furthest point", PR + "terminals/")],
     [r"^Cache\|", r"^TokenStream\|\|(filtered_index_at|get|from)$"] + PARSERS + adv(*TERMINALS) + [r"^Code\|", r"^ParseError\|\|new$"])
prop("E02", "A validation error reaches the user with its own position and message",
     "When a validator rejects, the reported error points at the position the validator gave and contains its message together with the line and column of that position.",
     ["inputs", "programs"], GRAM,
     "One test exercises one validator at one position.",
     ["src/cache.rs", "src/parsing.rs"], [("error from the record", "src/cache.rs: create_error"), ("propagation", PR)],
     [r"^Cache\|\|create_error$", r"^Code\|", r"^ParseError\|"] + PARSERS + adv("Validator") + ERRS)
prop("E03", "Line and column are those of the byte offset",
     "For every offset into every text, the line is one more than the number of line breaks before it and the column is one more than the number of bytes since the last of them; a line break belongs to the line it ends.",
     ["inputs"], "every text and every offset",
     "Tests never ask for positions at line breaks, at the end or in the last line.",
     ["src/code.rs", "src/position.rs"], [("positions", "src/code.rs: obtain_position, obtain_line_breaks; src/position.rs")],
     [r"^Code\|", r"^Position\|"])

# ------------------------------------------------------------------ streams and trees
prop("S01", "The structural stream is the input tokens minus the non-structural ones",
     "The structural view of a token stream lists exactly the structural tokens, in order, each knowing its place in the full stream; every accessor answers in the domain it is asked in, and looking up a token or byte offset finds its place among the structural tokens or the place where it would be.",
     ["inputs"], "every token stream and every pointer or offset",
     "The index domains differ only when non-structural tokens come first, last or in runs.",
     ["src/filtered_stream.rs", "src/wrapper_index.rs"], [("filtering", "src/filtered_stream.rs: From, accessors"), ("index types", "src/wrapper_index.rs")],
     STREAM)
prop("S02", "Searching a tree visits nodes in reading order and finds all or the first",
     "Searches in a syntax tree visit a node before its children and children in order: a search for one node gives the first match in that order, a search for all gives every match in that order, and a chain of nodes is searched step by step below the previous match.",
     ["inputs"], "every tree and every predicate",
     "Search order matters only in trees with several matches at different depths.",
     ["src/ast_node.rs"], [("searches", "src/ast_node.rs")],
     [r"^ASTNode\|\|"])
prop("S03", "Positions in the two token views cannot be confused",
     "A position among the structural tokens and a position among all tokens are different types: neither can stand for the other, be computed with it or be compared with it, and only the stream converts between them. A program that mixes them does not compile.",
     ["programs"], "every program using the library",
     "That a program does not compile cannot be a unit test of the library.",
     ["src/wrapper_index.rs", "src/filtered_stream.rs"], [("index types", "src/wrapper_index.rs")],
     [r"^(TokenPtr|FltrPtr)\|", r"^TokenStream\|(Index)?\|(index|get_token_ptr|find_filter_ptr|find_filtered_index|last_segment_index)$"], rules=["witness"])
prop("S04", "Input bytes are never trusted to be text",
     "No input, whatever its bytes, leads to undefined behaviour: input bytes are turned into text only with a check or a replacement of what is not text, and no memory is accessed without a bounds check.",
     ["inputs"], "every byte string",
     "Undefined behaviour on invalid text shows in no test with valid text.",
     ["src/"], [("conversions of input bytes", "src/cache.rs, src/lexeme/"), ("absence of unsafe code", "src/")],
     [r"^Cache\|\|create_error$", r"^Code\|", r"^Mapper\|ILexeme\|"], rules=["unsafe"])
prop("S05", "Debug and release builds parse alike, and nothing is printed unless asked",
     "Whatever is logged, with debug assertions on or off every lexeme, tokenizer, production and query gives the same result and leaves the same record behind, unless an assertion stops it; nothing is written to the standard streams unless a log level was set.",
     ["configurations", "inputs", "programs"], GRAM + ", in both builds",
     "The tests run in one build and do not look at what is printed.",
     ["src/"], [("code under debug assertions", "src/production/, src/lexeme/, src/tokenization.rs"), ("logging", "src/production/mod.rs: ProductionLogger; src/lexeme/mod.rs: LexemeLogger")],
     [r"\|(IProduction|ILexeme|ITokenization)\|", r"^(Cache|Code|TokenStream|DefaultParser|LexerlessParser|FieldTree|TokenPtr|FltrPtr)\|"], rules=["prints"])
prop("S06", "Tokenizing and parsing abort only for mistakes in the grammar",
     "No input makes tokenizing or parsing abort beyond what the grammar itself asks for: the only aborts left are a missing definition, a state without lexemes, removing a state that was never added, a token terminal used without tokens, and a position outside the stream.",
     ["inputs", "programs"], GRAM,
     "An abort on unusual input is found by chance in tests.",
     ["src/"], [("explicit aborts and index checks", "src/production/, src/tokenization.rs, src/lexeme/, src/cache.rs")],
     [r"^%s\|%s" % (any_of(PRODS), ADV), r"\|(ILexeme\|consume|ITokenization\|tokenize)$", r"^Cache\|", r"^Code\|", r"^TokenStream\|", r"^FieldTree\|"] + PARSERS, obs="panics")

NA = [
    ("N01", "Every accepted input can be rebuilt from its tree", "Needs the concrete grammar: what a tree keeps depends on which productions the user hides; no property of the library's own source decides it for all grammars.",
     "The concatenation of the texts under a parse result's leaves, with the tokens between them, is the input for every grammar that hides nothing.", ["inputs", "programs"]),
    ("N02", "Parsing takes time linear in the input when results are remembered", "A bound on running time over runtime quantities (visits per position and production); no sound static argument in reach bounds it for arbitrary grammars.",
     "With results remembered for every production, the number of productions attempted is proportional to the length of the input.", ["inputs", "programs"]),
    ("N03", "The JSON and JavaScript examples accept exactly their languages", "Equality of the accepted language with an external standard quantifies over all texts through regular expressions and recursion; static analysis of the source cannot decide it.",
     "The example grammars accept a text exactly when the language standard they implement does, and the tokenized and lexerless JSON parsers accept the same texts.", ["inputs"]),
    ("N04", "Regular expressions match as their documentation says", "The matching engine is a dependency outside this repository; here it is trusted.",
     "A match of a configured expression is the leftmost-first match of that expression at the given position.", ["inputs"]),
]
