"""What the specification of each property says: the text that DESIGN.md has for it."""
HOW = {
 "T01": "`tokenize`: the cursor starts at 0, a token is pushed exactly when a lexeme answers with one, the cursor then is that token's end, nothing else moves it; the loop ends only at the end of the input, where one end token is pushed. Each `consume`: the token starts where the lexeme was asked, its end is start plus what was matched.",
 "T02": "Each `consume`: text matched at the position asked (expression match from there, tree search there, equality with the slice of a value's own length), the kind configured for that text, nothing when there is no match.",
 "T03": "`FieldTree::insert/find` as a recursive definition (deepest entry on the matching path, falling back when a longer one fails); `Constants::new` sorts by length, longest first; the lexerless terminals build and ask the same structures.",
 "T04": "Constructors refuse empty values; `Pattern::consume` drops an empty match; `tokenize` moves only on by a token.",
 "T05": "`tokenize` asks the lexemes of the state on top of the stack, in order, and takes the first answer; `add_state` keeps the first lexemes given for a state; middleware may turn down its token and then the next lexeme is asked.",
 "T06": "Each action, case by case, as its effect on the stack; nothing on the stack changes when the wrapped lexeme fails.",
 "T07": "Wrappers ask the wrapped lexeme at the same place with the same stack and return its token unchanged except for the kind (mapped by the token's own text, exactly).",
 "T08": "`tokenize`'s error carries the cursor at which no lexeme matched; its message tells that position's line and column.",
 "T09": "Constructors as a whole: which values they refuse and what they build from the others.",
 "P01": "`Concat::advance_*` over an arbitrary number of symbols: each is entered where the previous one ended, the first failure is the result and nothing is kept; children are joined in order.",
 "P02": "`Union::advance_*` over any number of alternatives: the first one that parses is the result, a validation error ends it, failure if none does; which may be skipped is P03.",
 "P03": "First sets and what is skipped by them: an alternative is only skipped if the next structural token is not in its first set and it cannot be empty; first sets per production.",
 "P04": "`List::advance_*`: the loop asks for items at the last end until one fails or consumes nothing, fails only if the first does.",
 "P05": "`SeparatedList::advance_*`: item, then separator and item, back to before a separator that no item follows (or keep it where a trailing one is allowed), ends when a round consumes nothing.",
 "P06": "The position in the result is the position asked (Nullable: only when its symbol failed).",
 "P07": "`Suffixes::advance_*`: left, then the first suffix that parses, else the left alone if allowed; node around both.",
 "P08": "The terminals' `advance_*`: match exactly the token kind or text, one token (or its length) further, failure otherwise.",
 "P09": "Conversion of the position on entry and exit of `Structural`/`NonStructural`, and the stream's conversions.",
 "P10": "Wrappers ask their symbol once at the same place, change nothing but the tree.",
 "P11": "`Cacheable`: what is looked up is what would be computed: key (production, position), value the symbol's own result at that position; the record is created inside a parse and never outlives it (rule `memo_fresh`).",
 "P12": "As P01-P10, but only whether and with what a validation error comes out is observed.",
 "P13": "Start and end of every node a production makes.",
 "P14": "The three `advance_*` of a production are held against one generic specification (a `Mode` trait in model/prods.rs); a mismatch counts if another of the three meets it.",
 "P15": "Effects on anything that outlives a parse (rule `purity`): only write-once cells whose value is a function of the grammar; fresh record per parse.",
 "P16": "The record after the call: raised to the position of each failure and never lowered.",
 "V01": "`validate`/`obtain_nullability`: each production hands the left edges on exactly to the parts that can be reached without consuming, and a production met twice on such a path is an error; rule `zero_width` holds what each production may consume against the emptiness it claims.",
 "V02": "`validate` asks every part, whatever the others answered, and propagates every error; an unset symbol is an error.",
 "V03": "Constructors validate before they return; rule `sealed`: their fields are private, every function that hands one out has had its root validated, nothing exchanges root or tokenizer later.",
 "V04": "`is_nullable`, `is_nullable_n_hidden`, `obtain_nullability` against the recursive definition.",
 "V05": "Each builder method as the constructor it stands for; `set_*`/`assign_*` set once and refuse a second time.",
 "V06": "`validate`/`obtain_nullability` and both constructors, with the message of a refusal as the only observable: the sequence of values it names, the words between them left out.",
 "G01": "`impl_grammar`, `build_grammar`, `get_grammar_field`: every part is visited once, every alternative, suffix and lexeme is written. A text is followed as the sequence of the values and visible characters written to it (format strings are decoded from the compiled template), so marks, their order and their places are compared; white space is not.",
 "G02": "Every `Display` implementation as the text it writes, in the same representation; `debug_struct`/`debug_tuple` are followed field by field.",
 "P17": "`debug_production_at`, `debug_parser_at` and the register they use, in the debug build (they do not exist in the other), against the same description as an ordinary parse with another start.",
 "E01": "`Cache::update_index/create_error`, parsers, and where terminals record a failure.",
 "E02": "`create_error` for a validation error and its way through validators and parsers.",
 "E03": "`Code` positions: binary search over the line breaks, line and column arithmetic.",
 "S01": "Every accessor of the stream: `From` retains positions of structural tokens in order; lookups as searches in that list.",
 "S02": "Searches as recursive definitions over any tree.",
 "S03": "Index types' operators; compile-fail witnesses for mixing them, each with a twin that compiles.",
 "S04": "No `unsafe` outside what is listed, no unchecked conversion of bytes (rule `unsafe`), and the conversions that are made.",
 "S05": "Every function against the *same* specification in both builds; a mismatch in one build only counts. Output calls must be guarded by a log level that was set (rule `prints`).",
 "S06": "Aborts as observables: explicit panics, unwraps, index and slice bounds, subtraction below zero (debug). A path to an abort whose facts, together with the contracts of engine/contracts.py, do not contradict each other must be one the specification has.",
}
