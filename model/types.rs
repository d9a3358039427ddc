//! The vocabulary the specifications are written in: the shapes of the crate's data, nothing of its code.
use std::cell::OnceCell;
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Display, Write};
use std::hash::Hash;
use std::marker::PhantomData;
use std::rc::Rc;

pub trait TokenImpl: Copy + Debug + Eq + Hash + Ord {
    fn eof() -> Self;
    fn is_structural(&self) -> bool;
}
pub trait NodeImpl: Debug + Clone {
    fn null() -> Self;
}
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct TokenPtr(pub usize);
#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct FltrPtr(pub usize);
#[derive(Hash, PartialEq, Eq, Clone, Copy, PartialOrd, Ord)]
pub struct CacheKey(pub usize);

#[derive(Clone)]
pub struct ASTNode<TNode> {
    pub node: TNode,
    pub bound: Option<(TokenPtr, TokenPtr)>,
    pub start: usize,
    pub end: usize,
    pub children: Vec<ASTNode<TNode>>,
}
#[derive(Debug, Hash, Clone, PartialEq, Eq)]
pub struct Lex<TToken> {
    pub token: TToken,
    pub start: usize,
    pub end: usize,
}
pub struct TokenStream<'lex, TNode> {
    pub filtered_stream: Vec<TokenPtr>,
    pub original_stream: &'lex Vec<Lex<TNode>>,
}
#[derive(Clone)]
pub struct SuccessData<I, TNode> {
    pub consumed_index: I,
    pub children: Vec<ASTNode<TNode>>,
}
#[derive(Debug, Clone)]
pub enum ProductionError {
    Unparsed,
    Validation(usize, String),
}
#[derive(Debug)]
pub struct ImplementationError {
    pub message: String,
    pub what: String,
}
#[derive(Debug)]
pub struct ParseError {
    pub pointer: usize,
    pub message: String,
}
pub type ParsedResult<I, T> = Result<SuccessData<I, T>, ProductionError>;
pub struct Cache<TP, TToken> {
    pub parsed_result_cache: HashMap<(CacheKey, usize), ParsedResult<TP, TToken>>,
    pub max_parsed_point: usize,
}
pub struct Position {
    pub line: usize,
    pub column: usize,
}
pub struct Code<'c> {
    pub value: &'c [u8],
    pub line_breaks: OnceCell<Vec<usize>>,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Log<T> {
    None,
    Default(T),
    Success(T),
    Result(T),
    Verbose(T),
}
#[derive(Clone, Debug)]
pub struct FieldTree<T> {
    pub token: Option<T>,
    pub children: Vec<(u8, FieldTree<T>)>,
}
/// types of other crates: their operations stay uninterpreted
pub mod ext {
    pub struct Regex;
    pub struct Match;
    impl Regex {
        pub fn find<'a>(&self, _s: &'a [u8]) -> Option<Match> { loop {} }
        pub fn is_match(&self, _s: &[u8]) -> bool { loop {} }
        pub fn new(_s: &str) -> Result<Regex, String> { loop {} }
        pub fn as_str(&self) -> &str { loop {} }
    }
    impl Match {
        pub fn start(&self) -> usize { loop {} }
        pub fn end(&self) -> usize { loop {} }
    }
}
pub use ext::*;
/// how the printer of trees (another crate) asks for the parts
pub struct Style;
pub trait TreeItem: Clone {
    type Child: TreeItem;
    fn write_self<W: std::io::Write>(&self, f: &mut W, style: &Style) -> std::io::Result<()>;
    fn children(&self) -> std::borrow::Cow<[Self::Child]>;
}

#[derive(Clone, Copy)]
pub enum Action<T> {
    Pop { discard: bool },
    Append { state: T, discard: bool },
    Switch { state: T, discard: bool },
    None { discard: bool },
}
pub trait ILexeme {
    type Token: Copy + Debug + Eq + Ord;
    type State: Copy + Debug + Eq + Ord;
    fn consume(&self, code: &Code, pointer: usize, tokenized_stream: &Vec<Lex<Self::Token>>, state_stack: &mut Vec<Self::State>) -> Option<Lex<Self::Token>>;
    fn get_grammar_field(&self) -> Vec<(Self::Token, String)>;
}
pub trait ITokenization {
    type Token;
    fn tokenize(&self, code: &Code) -> Result<Vec<Lex<Self::Token>>, ParseError>;
    fn build_grammar(&self) -> Result<String, std::fmt::Error>;
}
pub type DynLex<TT, TS> = Rc<dyn ILexeme<Token = TT, State = TS>>;
pub struct Tokenizer<TToken, TState> { pub lexers: Vec<DynLex<TToken, TState>> }
pub struct CombinedTokenizer<TT, TS> { pub analyzers: Vec<(TS, Vec<DynLex<TT, TS>>)>, pub default_state: TS, pub debug: Tag }
pub struct Pattern<TToken, TState> { pub token: TToken, pub regexp: Regex, pub log: Tag, pub _state: PhantomData<TState> }
pub struct Punctuations<TToken, TState> { pub field_tree: FieldTree<TToken>, pub punctuations: Vec<(String, TToken)>, pub log: Tag, pub _state: PhantomData<TState> }
pub struct Constants<TToken, TState> { pub values: Vec<(String, TToken)>, pub log: Tag, pub _state: PhantomData<TState> }
pub struct Mapper<TL: ILexeme> { pub lexeme: TL, pub log: Tag, pub fields: HashMap<Vec<u8>, TL::Token> }
pub struct ThunkMapper<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Option<TL::Token>> { pub lexeme: TL, pub log: Tag, pub thunk: TF }
pub struct Middleware<TL: ILexeme, TM: Fn(&[u8], &Vec<Lex<TL::Token>>) -> bool> { pub lexeme: TL, pub log_label: Tag, pub middleware: TM }
pub struct StateMixin<TL: ILexeme> { pub lexeme: TL, pub log: Tag, pub actions: Vec<(TL::Token, Action<TL::State>)> }
pub struct ThunkStateMixin<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action<TL::State>> { pub lexeme: TL, pub log: Tag, pub thunk_action: TF }
pub struct DefaultParser<TN: NodeImpl, TL: TokenImpl> { pub tokenizer: Rc<dyn ITokenization<Token = TL>>, pub root: Dyn<TN, TL>, pub debug_production_map: HashMap<&'static str, Dyn<TN, TL>> }
pub struct LexerlessParser<TN: NodeImpl, TL: TokenImpl> { pub root: Dyn<TN, TL>, pub debug_production_map: HashMap<&'static str, Dyn<TN, TL>> }

pub trait IProduction: Display {
    type Node: NodeImpl;
    type Token: TokenImpl;
    fn is_nullable(&self) -> bool;
    fn is_nullable_n_hidden(&self) -> bool;
    fn obtain_nullability<'id>(&'id self, visited: HashMap<&'id str, usize>) -> Result<bool, ImplementationError>;
    fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>);
    fn impl_grammar(&self, writer: &mut dyn Write, added_rules: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error>;
    fn validate<'id>(&'id self, connected_sets: HashMap<&'id str, usize>, visited_prod: &mut HashSet<&'id str>) -> Result<(), ImplementationError>;
    fn advance_fltr_ptr(&self, code: &Code, index: FltrPtr, token_stream: &TokenStream<Self::Token>, cache: &mut Cache<FltrPtr, Self::Node>) -> ParsedResult<FltrPtr, Self::Node>;
    fn advance_token_ptr(&self, code: &Code, index: TokenPtr, token_stream: &TokenStream<Self::Token>, cache: &mut Cache<FltrPtr, Self::Node>) -> ParsedResult<TokenPtr, Self::Node>;
    fn advance_ptr(&self, code: &Code, index: usize, cache: &mut Cache<usize, Self::Node>) -> ParsedResult<usize, Self::Node>;
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        let mut w = String::new();
        write!(w, "{}", self)?;
        self.impl_grammar(&mut w, &mut HashSet::new())?;
        Ok(w)
    }
}
pub type Dyn<TN, TL> = Rc<dyn IProduction<Node = TN, Token = TL>>;
pub type Tag = OnceCell<Log<&'static str>>;

pub struct NTHelper {
    pub identifier: &'static str,
    pub nullability: OnceCell<bool>,
    pub null_hidden: OnceCell<bool>,
    pub debugger: Tag,
}
pub struct Concat<TN: NodeImpl, TL: TokenImpl> {
    pub symbols: OnceCell<Vec<Dyn<TN, TL>>>,
    pub nt_helper: NTHelper,
}
pub struct Union<TN: NodeImpl, TL: TokenImpl> {
    pub symbols: OnceCell<Vec<Dyn<TN, TL>>>,
    pub nt_helper: NTHelper,
    pub first_set: OnceCell<(bool, Vec<(TL, Vec<usize>)>)>,
}
pub struct Suffixes<TP: IProduction> {
    pub left: Rc<TP>,
    pub standalone: bool,
    pub suffixes: OnceCell<Vec<(Dyn<TP::Node, TP::Token>, TP::Node)>>,
    pub nt_helper: NTHelper,
    pub suffix_first_set: OnceCell<(bool, Vec<(TP::Token, Vec<usize>)>)>,
    pub null_suffix_index: OnceCell<Option<usize>>,
}
pub struct List<TP: IProduction> { pub symbol: Rc<TP>, pub debugger: Tag }
pub struct SeparatedList<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> {
    pub rule_name: OnceCell<&'static str>,
    pub production: Rc<TP>,
    pub separator: Rc<TS>,
    pub inclusive: bool,
    pub debugger: Tag,
}
pub struct Nullable<TP: IProduction> { pub symbol: Rc<TP>, pub node_value: Option<TP::Node>, pub debugger: Tag }
pub struct Node<TP: IProduction> { pub rule_name: OnceCell<&'static str>, pub production: Rc<TP>, pub node_value: TP::Node, pub debugger: Tag }
pub struct Hidden<TP: IProduction> { pub rule_name: OnceCell<&'static str>, pub production: Rc<TP>, pub debugger: Tag }
pub struct Validator<TP: IProduction, TF: Fn(&Vec<ASTNode<TP::Node>>, &[u8]) -> Result<(), ProductionError>> {
    pub validation_fn: TF,
    pub production: Rc<TP>,
    pub debugger: Tag,
}
pub struct Lookahead<TP: IProduction> { pub production: Rc<TP>, pub node_value: Option<TP::Node>, pub debugger: Tag }
pub struct NonStructural<TP: IProduction> { pub production: Rc<TP>, pub fill_range: bool, pub debugger: Tag }
pub struct Structural<TP: IProduction> { pub production: Rc<TP>, pub debugger: Tag }
pub struct Cacheable<TP: IProduction> { pub cache_key: CacheKey, pub production: Rc<TP>, pub debugger: Tag }

pub struct TokenField<TN: NodeImpl, TL: TokenImpl> { pub token: TL, pub node_value: Option<TN>, pub debugger: Tag }
pub struct TokenFieldSet<TN: NodeImpl, TL: TokenImpl> { pub token_set: Vec<(TL, Option<TN>)>, pub debugger: Tag, pub rule_name: OnceCell<&'static str> }
pub struct RegexField<TN: NodeImpl, TT> { pub regexp: Regex, pub node_value: Option<TN>, pub _token: PhantomData<TT>, pub debugger: Tag, pub rule_name: OnceCell<&'static str> }
pub struct ConstantField<TN: NodeImpl, TT> { pub value: Vec<u8>, pub node_value: Option<TN>, pub _phantom_data: PhantomData<TT>, pub debugger: Tag }
pub struct PunctuationsField<TN: NodeImpl, TT> { pub tree: FieldTree<Option<TN>>, pub rule_name: OnceCell<&'static str>, pub values: Vec<(String, Option<TN>)>, pub _phantom_data: PhantomData<TT>, pub debugger: Tag }
pub struct ConstantFieldSet<TN: NodeImpl, TT> { pub fields: Vec<(Vec<u8>, Option<TN>)>, pub rule_name: OnceCell<&'static str>, pub debugger: Tag, pub _token: PhantomData<TT> }
pub struct NullProd<TN: NodeImpl, TL> { pub debugger: Tag, pub node_value: Option<TN>, pub _token: PhantomData<TL> }
pub struct EOFProd<TN: NodeImpl, TL> { pub node_value: Option<TN>, pub debugger: Tag, pub _token: PhantomData<TL> }

/// what a caller has to see to; where it does not hold nothing is asked of the code
pub fn given(holds: bool) {
    if !holds { None::<()>.unwrap(); }
}
