//! How productions and lexemes are put together: nothing is lost, nothing is assigned twice.
use crate::types::*;
use std::cell::OnceCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::rc::Rc;

/// a second assignment is refused and changes nothing
fn once<T>(cell: &OnceCell<T>, value: T) -> Result<(), String> {
    match cell.set(value) { Ok(()) => Ok(()), Err(_) => Err(format!("")) }
}
fn filled<T>(value: T) -> OnceCell<T> {
    let c = OnceCell::new();
    if let Err(_) = c.set(value) { panic!() }
    c
}
fn helper(identifier: &'static str) -> NTHelper {
    NTHelper { identifier, nullability: OnceCell::new(), null_hidden: OnceCell::new(), debugger: OnceCell::new() }
}
macro_rules! tagged {
    ([$($g:tt)*] $t:ty [$($w:tt)*], $f:ident, $field:ident) => {
        impl<$($g)*> $t $($w)* { pub fn $f(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.$field, label) } }
    };
}
macro_rules! ruled {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> $t { pub fn set_rule_name(&self, s: &'static str) -> Result<(), String> { once(&self.rule_name, s) } }
    };
}
impl NTHelper { fn assign_debugger(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.debugger, label) } }

impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> {
    pub fn init(identifier: &'static str) -> Self { Concat { symbols: OnceCell::new(), nt_helper: helper(identifier) } }
    pub fn new(identifier: &'static str, symbols: Vec<Dyn<TN, TL>>) -> Self { Concat { symbols: filled(symbols), nt_helper: helper(identifier) } }
    pub fn set_symbols(&self, symbols: Vec<Dyn<TN, TL>>) -> Result<(), String> { once(&self.symbols, symbols) }
    pub fn set_log(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.nt_helper.debugger, label) }
}
impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
    pub fn init(identifier: &'static str) -> Self { Union { symbols: OnceCell::new(), nt_helper: helper(identifier), first_set: OnceCell::new() } }
    pub fn new(identifier: &'static str, symbols: Vec<Dyn<TN, TL>>) -> Self { Union { symbols: filled(symbols), nt_helper: helper(identifier), first_set: OnceCell::new() } }
    pub fn set_symbols(&self, symbols: Vec<Dyn<TN, TL>>) -> Result<(), String> { once(&self.symbols, symbols) }
    pub fn set_log(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.nt_helper.debugger, label) }
}
impl<TP: IProduction> Suffixes<TP> {
    pub fn init(identifier: &'static str, left: &Rc<TP>, standalone: bool) -> Self {
        Suffixes { left: left.clone(), standalone, suffixes: OnceCell::new(), nt_helper: helper(identifier), suffix_first_set: OnceCell::new(), null_suffix_index: OnceCell::new() }
    }
    pub fn new(identifier: &'static str, left: &Rc<TP>, standalone: bool, suffixes: Vec<(Dyn<TP::Node, TP::Token>, TP::Node)>) -> Self {
        Suffixes { left: left.clone(), standalone, suffixes: filled(suffixes), nt_helper: helper(identifier), suffix_first_set: OnceCell::new(), null_suffix_index: OnceCell::new() }
    }
    pub fn set_suffixes(&self, suffixes: Vec<(Dyn<TP::Node, TP::Token>, TP::Node)>) -> Result<(), String> { once(&self.suffixes, suffixes) }
    pub fn set_log(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.nt_helper.debugger, label) }
}
impl<TP: IProduction> List<TP> {
    pub fn new(symbol: &Rc<TP>) -> Self { List { symbol: symbol.clone(), debugger: OnceCell::new() } }
    pub fn get_symbol(&self) -> &TP { &self.symbol }
}
impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> SeparatedList<TP, TS> {
    pub fn new(production: &Rc<TP>, separator: &Rc<TS>, inclusive: bool) -> Self {
        SeparatedList { rule_name: OnceCell::new(), production: production.clone(), separator: separator.clone(), inclusive, debugger: OnceCell::new() }
    }
    pub fn get_production(&self) -> &TP { &self.production }
    pub fn get_separator(&self) -> &TS { &self.separator }
    pub fn set_rule_name(&self, s: &'static str) -> Result<(), String> { once(&self.rule_name, s) }
    pub fn assign_debugger(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.debugger, label) }
}
impl<TP: IProduction> Nullable<TP> {
    pub fn new(symbol: &Rc<TP>) -> Self { Nullable { symbol: symbol.clone(), node_value: Some(TP::Node::null()), debugger: OnceCell::new() } }
    pub fn hidden(symbol: &Rc<TP>) -> Self { Nullable { symbol: symbol.clone(), node_value: None, debugger: OnceCell::new() } }
    pub fn get_production(&self) -> &TP { &self.symbol }
}
impl<TP: IProduction> Node<TP> {
    pub fn new(production: &Rc<TP>, node_value: TP::Node) -> Self { Node { rule_name: OnceCell::new(), production: production.clone(), node_value, debugger: OnceCell::new() } }
    pub fn get_production(&self) -> &TP { &self.production }
}
impl<TP: IProduction> Hidden<TP> {
    pub fn new(production: &Rc<TP>) -> Self { Hidden { rule_name: OnceCell::new(), production: production.clone(), debugger: OnceCell::new() } }
    pub fn hidden(production: &Rc<TP>) -> Self { Hidden { rule_name: OnceCell::new(), production: production.clone(), debugger: OnceCell::new() } }
    pub fn get_production(&self) -> &TP { &self.production }
}
impl<TP: IProduction, TF: Fn(&Vec<ASTNode<TP::Node>>, &[u8]) -> Result<(), ProductionError>> Validator<TP, TF> {
    pub fn new(production: &Rc<TP>, validation_fn: TF) -> Self { Validator { validation_fn, production: production.clone(), debugger: OnceCell::new() } }
    pub fn get_production(&self) -> &TP { &self.production }
    pub fn assign_debugger(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.debugger, label) }
}
impl<TP: IProduction> Lookahead<TP> {
    pub fn new(production: &Rc<TP>, node_value: Option<TP::Node>) -> Self { Lookahead { production: production.clone(), node_value, debugger: OnceCell::new() } }
    pub fn get_production(&self) -> &TP { &self.production }
}
impl<TP: IProduction> NonStructural<TP> {
    pub fn new(production: &Rc<TP>, fill_range: bool) -> Self { NonStructural { production: production.clone(), fill_range, debugger: OnceCell::new() } }
    pub fn get_symbol(&self) -> &TP { &self.production }
}
impl<TP: IProduction> Structural<TP> {
    pub fn new(production: &Rc<TP>) -> Self { Structural { production: production.clone(), debugger: OnceCell::new() } }
    pub fn get_symbol(&self) -> &TP { &self.production }
}
impl<TP: IProduction> Cacheable<TP> {
    pub fn new(cache_key: CacheKey, production: &Rc<TP>) -> Self { Cacheable { cache_key, production: production.clone(), debugger: OnceCell::new() } }
    pub fn get_production(&self) -> &Rc<TP> { &self.production }
}
ruled!([TP: IProduction] Node<TP>);
ruled!([TP: IProduction] Hidden<TP>);
ruled!([TN: NodeImpl, TL: TokenImpl] TokenFieldSet<TN, TL>);
ruled!([TN: NodeImpl, TL: TokenImpl] RegexField<TN, TL>);
ruled!([TN: NodeImpl, TL: TokenImpl] ConstantFieldSet<TN, TL>);
ruled!([TN: NodeImpl, TL: TokenImpl] PunctuationsField<TN, TL>);
tagged!([TP: IProduction] List<TP> [], assign_debugger, debugger);
tagged!([TP: IProduction] Nullable<TP> [], set_log, debugger);
tagged!([TP: IProduction] Node<TP> [], set_log, debugger);
tagged!([TP: IProduction] Hidden<TP> [], set_log, debugger);
tagged!([TP: IProduction] Lookahead<TP> [], assign_debugger, debugger);
tagged!([TP: IProduction] NonStructural<TP> [], set_log, debugger);
tagged!([TP: IProduction] Structural<TP> [], set_log, debugger);
tagged!([TP: IProduction] Cacheable<TP> [], assign_debugger, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] TokenField<TN, TL> [], set_log, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] TokenFieldSet<TN, TL> [], assign_debugger, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] RegexField<TN, TL> [], assign_debugger, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] ConstantField<TN, TL> [], assign_debugger, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] ConstantFieldSet<TN, TL> [], assign_debugger, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] PunctuationsField<TN, TL> [], assign_debugger, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] NullProd<TN, TL> [], set_log, debugger);
tagged!([TN: NodeImpl, TL: TokenImpl] EOFProd<TN, TL> [], assign_debugger, debugger);

impl<TN: NodeImpl, TL: TokenImpl> TokenField<TN, TL> {
    pub fn new(token: TL, node_value: Option<TN>) -> Self { TokenField { token, node_value, debugger: OnceCell::new() } }
}
impl<TN: NodeImpl, TL: TokenImpl> EOFProd<TN, TL> {
    pub fn new(node_value: Option<TN>) -> Self { EOFProd { node_value, debugger: OnceCell::new(), _token: PhantomData } }
}
impl<TN: NodeImpl, TL: TokenImpl> NullProd<TN, TL> {
    pub fn new() -> Self { NullProd { debugger: OnceCell::new(), node_value: Some(TN::null()), _token: PhantomData } }
    pub fn hidden() -> Self { NullProd { debugger: OnceCell::new(), node_value: None, _token: PhantomData } }
}
impl<TN: NodeImpl> ConstantField<TN, i8> {
    pub fn new(value: &str, node_value: Option<TN>) -> Self {
        if value.len() == 0 { panic!() }
        ConstantField { value: value.bytes().collect(), node_value, _phantom_data: PhantomData, debugger: OnceCell::new() }
    }
}
impl<TN: NodeImpl> ConstantFieldSet<TN, i8> {
    /// kept by length, so that going through them backwards meets the longest first
    pub fn new(mut values: Vec<(&str, Option<TN>)>) -> Self {
        values.sort_by_key(|v| v.0.len());
        let mut fields = Vec::new();
        for (s, v) in values { fields.push((s.bytes().collect(), v)); }
        ConstantFieldSet { fields, rule_name: OnceCell::new(), debugger: OnceCell::new(), _token: PhantomData }
    }
}
impl<TN: NodeImpl> PunctuationsField<TN, i8> {
    /// neither an empty set nor a value twice
    pub fn new(values: Vec<(&str, Option<TN>)>) -> Result<Self, String> {
        if values.len() == 0 { return Err(format!("")); }
        let mut tree = FieldTree::new();
        for (s, v) in &values {
            if let Err(_) = tree.insert(s.as_bytes(), v.clone()) { return Err(format!("")); }
        }
        let mut list: Vec<(String, Option<TN>)> = Vec::new();
        for (s, v) in values { list.push((s.to_string(), v)); }
        list.sort_by_key(|v| v.0.len());
        Ok(PunctuationsField { tree, rule_name: OnceCell::new(), values: list, _phantom_data: PhantomData, debugger: OnceCell::new() })
    }
}
impl<TN: NodeImpl> RegexField<TN, i8> {
    pub fn new(text: &str, node_value: Option<TN>) -> Result<Self, String> {
        match Regex::new(text) {
            Ok(regexp) => Ok(RegexField { regexp, node_value, _token: PhantomData, debugger: OnceCell::new(), rule_name: OnceCell::new() }),
            Err(e) => Err(format!("")),
        }
    }
}

pub trait ProductionBuilder: IProduction + Sized {
    fn into_list(self) -> List<Self>;
    fn into_node(self, node_value: Self::Node) -> Node<Self>;
    fn into_hidden(self) -> Hidden<Self>;
    fn into_lookahead(self, node_value: Option<Self::Node>) -> Lookahead<Self>;
    fn into_separated_list<TS: IProduction<Node = Self::Node, Token = Self::Token>>(self, sep: &Rc<TS>, inclusive: bool) -> SeparatedList<Self, TS>;
    fn into_suffixes(self, id: &'static str, standalone: bool) -> Suffixes<Self>;
    fn into_nullable(self) -> Nullable<Self>;
    fn into_null_hidden(self) -> Nullable<Self>;
    fn validate_with<TF: Fn(&Vec<ASTNode<Self::Node>>, &[u8]) -> Result<(), ProductionError>>(self, f: TF) -> Validator<Self, TF>;
}
impl<T: IProduction> ProductionBuilder for T {
    fn into_list(self) -> List<Self> { List::new(&Rc::new(self)) }
    fn into_node(self, node_value: Self::Node) -> Node<Self> { Node::new(&Rc::new(self), node_value) }
    fn into_hidden(self) -> Hidden<Self> { Hidden::new(&Rc::new(self)) }
    fn into_lookahead(self, node_value: Option<Self::Node>) -> Lookahead<Self> { Lookahead::new(&Rc::new(self), node_value) }
    fn into_separated_list<TS: IProduction<Node = Self::Node, Token = Self::Token>>(self, sep: &Rc<TS>, inclusive: bool) -> SeparatedList<Self, TS> { SeparatedList::new(&Rc::new(self), sep, inclusive) }
    fn into_suffixes(self, id: &'static str, standalone: bool) -> Suffixes<Self> { Suffixes::init(id, &Rc::new(self), standalone) }
    fn into_nullable(self) -> Nullable<Self> { Nullable::new(&Rc::new(self)) }
    fn into_null_hidden(self) -> Nullable<Self> { Nullable::hidden(&Rc::new(self)) }
    fn validate_with<TF: Fn(&Vec<ASTNode<Self::Node>>, &[u8]) -> Result<(), ProductionError>>(self, f: TF) -> Validator<Self, TF> { Validator::new(&Rc::new(self), f) }
}

// ------------------------------------------------------------------ defaults for plain numbers
macro_rules! numbers {
    ($($t:ty)*) => { $(impl TokenImpl for $t {
        fn eof() -> Self { <$t>::MAX }
        fn is_structural(&self) -> bool { *self >= 0 }
    })* };
}
numbers!(i8 i16 isize);
macro_rules! nodes { ($($t:ty)*) => { $(impl NodeImpl for $t { fn null() -> Self { 0 } })* }; }
nodes!(u8 u16 usize);

impl<T> Lex<T> { pub fn new(token: T, start: usize, end: usize) -> Self { Lex { token, start, end } } }

// ------------------------------------------------------------------ labels of lexers
macro_rules! logged {
    ([$($g:tt)*] $t:ty, $field:ident) => { impl<$($g)*> $t { pub fn set_log(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.$field, label) } } };
}
logged!([TT, TS] Pattern<TT, TS>, log);
logged!([TT, TS] Punctuations<TT, TS>, log);
logged!([TT, TS] Constants<TT, TS>, log);
logged!([TL: ILexeme] Mapper<TL>, log);
logged!([TL: ILexeme, TM: Fn(&[u8], &Vec<Lex<TL::Token>>) -> bool] Middleware<TL, TM>, log_label);
logged!([TL: ILexeme] StateMixin<TL>, log);
logged!([TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Option<TL::Token>] ThunkMapper<TL, TF>, log);
logged!([TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action<TL::State>] ThunkStateMixin<TL, TF>, log);
impl<TT, TS> CombinedTokenizer<TT, TS> { pub fn set_log(&self, label: Log<&'static str>) -> Result<(), String> { once(&self.debug, label) } }
