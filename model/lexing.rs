//! What tokenizing means.
use crate::types::*;
use std::cell::OnceCell;
use std::collections::HashMap;
use std::fmt::{Debug, Write};
use std::marker::PhantomData;

fn lex<T>(token: T, start: usize, end: usize) -> Lex<T> { Lex { token, start, end } }
fn no_token(code: &Code, at: usize) -> ParseError { ParseError { pointer: at, message: format!("{}", position(code, at)) } }
pub struct Shown;
pub fn position(code: &Code, at: usize) -> Position { code.obtain_position(at) }

/// the first lexeme in order that takes something at this point
fn first<TT: Copy + Debug + Eq + Ord, TS: Copy + Debug + Eq + Ord>(lexers: &Vec<DynLex<TT, TS>>, code: &Code, at: usize, done: &Vec<Lex<TT>>, stack: &mut Vec<TS>) -> Option<Lex<TT>> {
    for l in lexers {
        if let Some(x) = l.consume(code, at, done, stack) { return Some(x); }
    }
    None
}
impl<TT: TokenImpl, TS: Copy + Debug + Ord + Eq> ITokenization for Tokenizer<TT, TS> {
    type Token = TT;
    /// tokens follow one another from the first byte to the last, then comes the end token
    fn tokenize(&self, code: &Code) -> Result<Vec<Lex<TT>>, ParseError> {
        let end = code.value.len();
        let mut out = Vec::new();
        let mut at = 0;
        let mut stack = Vec::new();
        if at == end { out.push(lex(TT::eof(), end, end)); return Ok(out); }
        loop {
            match first(&self.lexers, code, at, &out, &mut stack) {
                Some(x) => { at = x.end; out.push(x); }
                None => return Err(no_token(code, at)),
            }
            if at == end { out.push(lex(TT::eof(), end, end)); return Ok(out); }
        }
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        let mut w = String::new();
        write!(w, "fragment {{")?;
        for l in &self.lexers {
            let fields = l.get_grammar_field();
            for (t, s) in &fields { write!(w, "{:?} : {} ,", t, s)?; }
        }
        write!(w, "}}")?;
        Ok(w)
    }
}
fn lexers_of<TT, TS: Ord + Copy>(t: &CombinedTokenizer<TT, TS>, state: TS) -> &(TS, Vec<DynLex<TT, TS>>) {
    match t.analyzers.binary_search_by_key(&state, |(s, _)| *s) {
        Ok(k) => &t.analyzers[k],
        Err(_) => panic!(),
    }
}
impl<TT: TokenImpl, TS: Copy + Debug + Ord + Eq> ITokenization for CombinedTokenizer<TT, TS> {
    type Token = TT;
    /// the state on top of the stack chooses the lexemes, the default state when there is none
    fn tokenize(&self, code: &Code) -> Result<Vec<Lex<TT>>, ParseError> {
        let end = code.value.len();
        let mut out = Vec::new();
        let mut at = 0;
        if at == end { out.push(lex(TT::eof(), end, end)); return Ok(out); }
        let mut stack = Vec::new();
        let mut state = self.default_state;
        let mut lexers = lexers_of(self, state);
        loop {
            match first(&lexers.1, code, at, &out, &mut stack) {
                Some(x) => { at = x.end; out.push(x); }
                None => return Err(no_token(code, at)),
            }
            if at == end { out.push(lex(TT::eof(), end, end)); return Ok(out); }
            let now = match stack.last() { Some(s) => *s, None => self.default_state };
            if now != state { state = now; lexers = lexers_of(self, now); }
        }
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        let mut w = String::new();
        for (state, lexers) in &self.analyzers {
            write!(w, "fragment {:?} {{", state)?;
            for l in lexers {
                let fields = l.get_grammar_field();
                for (t, s) in &fields { write!(w, "{:?} : {} ,", t, s)?; }
            }
            write!(w, "}}")?;
        }
        Ok(w)
    }
}
impl<TT, TS: Ord + Eq + Copy> CombinedTokenizer<TT, TS> {
    pub fn new(default_state: TS, lexemes: Vec<DynLex<TT, TS>>) -> Self {
        CombinedTokenizer { analyzers: vec![(default_state, lexemes)], default_state, debug: OnceCell::new() }
    }
    pub fn add_state(&mut self, state: TS, lexemes: Vec<DynLex<TT, TS>>) {
        let k = match self.analyzers.binary_search_by_key(&state, |(s, _)| *s) { Ok(k) => k + 1, Err(k) => k };
        self.analyzers.insert(k, (state, lexemes));
    }
}
impl<TT> Tokenizer<TT, u8> {
    pub fn new(lexers: Vec<DynLex<TT, u8>>) -> Self { Tokenizer { lexers } }
}

// ------------------------------------------------------------------ lexemes
impl<TT: Copy + Debug + Eq + Ord, TS: Copy + Debug + Eq + Ord> ILexeme for Pattern<TT, TS> {
    type Token = TT;
    type State = TS;
    /// the bytes the expression matches from here on, never none
    fn consume(&self, code: &Code, at: usize, _: &Vec<Lex<TT>>, _: &mut Vec<TS>) -> Option<Lex<TT>> {
        let m = self.regexp.find(&code.value[at..])?;
        let to = at + m.end();
        if to == at { None } else { Some(lex(self.token, at, to)) }
    }
    fn get_grammar_field(&self) -> Vec<(TT, String)> { vec![(self.token, format!("/{}/", self.regexp.as_str().replace('/', "\\/")))] }
}
impl<TT, TS> Pattern<TT, TS> {
    pub fn new(token: TT, pattern: &str) -> Result<Self, String> {
        let regexp = Regex::new(pattern).map_err(|e| format!("{:?}", e))?;
        if regexp.is_match(b"") { return Err(format!("{}", regexp.as_str())); }
        Ok(Pattern { token, regexp, log: OnceCell::new(), _state: PhantomData })
    }
}
impl<TT: Copy + Debug + Eq + Ord, TS: Copy + Debug + Eq + Ord> ILexeme for Punctuations<TT, TS> {
    type Token = TT;
    type State = TS;
    fn consume(&self, code: &Code, at: usize, _: &Vec<Lex<TT>>, _: &mut Vec<TS>) -> Option<Lex<TT>> {
        let (token, n) = self.field_tree.find(&code.value[at..])?;
        Some(lex(token, at, at + n))
    }
    fn get_grammar_field(&self) -> Vec<(TT, String)> { self.punctuations.iter().map(|(s, t)| (*t, format!("{:?}", s))).collect() }
}
impl<TT: Debug + Copy, TS> Punctuations<TT, TS> {
    /// every value stands for one token; an empty or a repeated value is refused
    pub fn new(mut fields: Vec<(&str, TT)>) -> Result<Self, String> {
        fields.sort_by_key(|f| f.0.len());
        let mut p = Punctuations { field_tree: FieldTree { token: None, children: Vec::new() }, punctuations: fields.iter().map(|(s, t)| (s.to_string(), *t)).collect(), log: OnceCell::new(), _state: PhantomData };
        for (s, t) in fields {
            if s.is_empty() { return Err(format!("{:?}", t)); }
            p.field_tree.insert(s.as_bytes(), t).map_err(|e| format!("{}{:?}", s, e))?;
        }
        Ok(p)
    }
}
impl<TT: Copy + Debug + Eq + Ord, TS: Copy + Debug + Eq + Ord> ILexeme for Constants<TT, TS> {
    type Token = TT;
    type State = TS;
    /// the longest value (of those the last one given) the input goes on with
    fn consume(&self, code: &Code, at: usize, _: &Vec<Lex<TT>>, _: &mut Vec<TS>) -> Option<Lex<TT>> {
        let rest = &code.value[at..];
        for (v, t) in self.values.iter().rev() {
            if !v.is_empty() && rest.starts_with(v.as_bytes()) { return Some(lex(*t, at, at + v.len())); }
        }
        None
    }
    fn get_grammar_field(&self) -> Vec<(TT, String)> { self.values.iter().map(|(s, t)| (*t, format!("{:?}", s))).collect() }
}
impl<TT: Debug + Copy, TS> Constants<TT, TS> {
    pub fn new(mut fields: Vec<(&str, TT)>) -> Self {
        fields.sort_by_key(|f| f.0.len());
        Constants { values: fields.iter().map(|(s, t)| (s.to_string(), *t)).collect(), log: OnceCell::new(), _state: PhantomData }
    }
}

// ------------------------------------------------------------------ lexemes around lexemes
macro_rules! same_grammar { () => { fn get_grammar_field(&self) -> Vec<(TL::Token, String)> { self.lexeme.get_grammar_field() } } }

impl<TL: ILexeme> ILexeme for Mapper<TL> {
    type Token = TL::Token;
    type State = TL::State;
    /// the same lexeme, another token where its text is listed
    fn consume(&self, code: &Code, at: usize, done: &Vec<Lex<TL::Token>>, stack: &mut Vec<TL::State>) -> Option<Lex<TL::Token>> {
        let x = self.lexeme.consume(code, at, done, stack)?;
        let token = match self.fields.get(&code.value[x.start..x.end]) { Some(t) => *t, None => x.token };
        Some(lex(token, x.start, x.end))
    }
    fn get_grammar_field(&self) -> Vec<(TL::Token, String)> {
        let mut all: Vec<(TL::Token, String)> = Vec::new();
        for (s, t) in &self.fields { all.push((*t, format!("{:?}", String::from_utf8_lossy(s)))); }
        all.extend(self.lexeme.get_grammar_field());
        all
    }
}
impl<TL: ILexeme> Mapper<TL> {
    pub fn new(lexeme: TL, fields: Vec<(&str, TL::Token)>) -> Result<Self, String> {
        let mut m = Mapper { lexeme, log: OnceCell::new(), fields: HashMap::new() };
        m.extend_fields(fields)?;
        Ok(m)
    }
    pub fn extend_fields(&mut self, fields: Vec<(&str, TL::Token)>) -> Result<(), String> {
        for (s, t) in fields {
            if let Some(old) = self.fields.insert(s.as_bytes().to_vec(), t) { return Err(format!("{:?}{:?}", s, old)); }
        }
        Ok(())
    }
}
impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Option<TL::Token>> ILexeme for ThunkMapper<TL, TF> {
    type Token = TL::Token;
    type State = TL::State;
    fn consume(&self, code: &Code, at: usize, done: &Vec<Lex<TL::Token>>, stack: &mut Vec<TL::State>) -> Option<Lex<TL::Token>> {
        let x = self.lexeme.consume(code, at, done, stack)?;
        let token = match (self.thunk)(&x, code.value, done) { Some(t) => t, None => x.token };
        Some(lex(token, x.start, x.end))
    }
    same_grammar!();
}
impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Option<TL::Token>> ThunkMapper<TL, TF> {
    pub fn new(lexeme: TL, thunk: TF) -> Self { ThunkMapper { lexeme, log: OnceCell::new(), thunk } }
}
impl<TL: ILexeme, TM: Fn(&[u8], &Vec<Lex<TL::Token>>) -> bool> ILexeme for Middleware<TL, TM> {
    type Token = TL::Token;
    type State = TL::State;
    fn consume(&self, code: &Code, at: usize, done: &Vec<Lex<TL::Token>>, stack: &mut Vec<TL::State>) -> Option<Lex<TL::Token>> {
        if (self.middleware)(code.value, done) { self.lexeme.consume(code, at, done, stack) } else { None }
    }
    same_grammar!();
}
impl<TL: ILexeme, TM: Fn(&[u8], &Vec<Lex<TL::Token>>) -> bool> Middleware<TL, TM> {
    pub fn new(lexeme: TL, middleware: TM) -> Self { Middleware { lexeme, log_label: OnceCell::new(), middleware } }
}
/// what an action does to the stack; whether the token is kept
fn act<T>(a: Action<T>, stack: &mut Vec<T>) -> bool {
    match a {
        Action::Pop { discard } => { if stack.pop().is_none() { panic!() } !discard }
        Action::Append { state, discard } => { stack.push(state); !discard }
        Action::Switch { state, discard } => { 
            match stack.last_mut() { Some(top) => *top = state, None => stack.push(state) }
            !discard
        }
        Action::None { discard } => !discard,
    }
}
impl<TL: ILexeme> ILexeme for StateMixin<TL> {
    type Token = TL::Token;
    type State = TL::State;
    fn consume(&self, code: &Code, at: usize, done: &Vec<Lex<TL::Token>>, stack: &mut Vec<TL::State>) -> Option<Lex<TL::Token>> {
        let x = self.lexeme.consume(code, at, done, stack)?;
        match self.actions.binary_search_by_key(&x.token, |(t, _)| *t) {
            Ok(k) => if act(self.actions[k].1, stack) { Some(x) } else { None },
            Err(_) => Some(x),
        }
    }
    same_grammar!();
}
impl<TL: ILexeme> StateMixin<TL> {
    pub fn new(lexeme: TL, mut actions: Vec<(TL::Token, Action<TL::State>)>) -> Self {
        actions.sort_by_key(|(t, _)| *t);
        StateMixin { lexeme, log: OnceCell::new(), actions }
    }
}
impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action<TL::State>> ILexeme for ThunkStateMixin<TL, TF> {
    type Token = TL::Token;
    type State = TL::State;
    fn consume(&self, code: &Code, at: usize, done: &Vec<Lex<TL::Token>>, stack: &mut Vec<TL::State>) -> Option<Lex<TL::Token>> {
        let x = self.lexeme.consume(code, at, done, stack)?;
        if act((self.thunk_action)(&x, code.value, done), stack) { Some(x) } else { None }
    }
    same_grammar!();
}
impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action<TL::State>> ThunkStateMixin<TL, TF> {
    pub fn new(lexeme: TL, thunk_action: TF) -> Self { ThunkStateMixin { lexeme, log: OnceCell::new(), thunk_action } }
}
pub trait LexemeBuilder: ILexeme + Sized {
    fn mapping(self, fields: Vec<(&str, Self::Token)>) -> Result<Mapper<Self>, String>;
    fn thunk_mapping<TF: Fn(&Lex<Self::Token>, &[u8], &Vec<Lex<Self::Token>>) -> Option<Self::Token>>(self, thunk: TF) -> ThunkMapper<Self, TF>;
    fn state_mixin(self, actions: Vec<(Self::Token, Action<Self::State>)>) -> StateMixin<Self>;
    fn middleware<TM: Fn(&[u8], &Vec<Lex<Self::Token>>) -> bool>(self, middleware: TM) -> Middleware<Self, TM>;
    fn thunk_mixin<TM: Fn(&Lex<Self::Token>, &[u8], &Vec<Lex<Self::Token>>) -> Action<Self::State>>(self, thunk: TM) -> ThunkStateMixin<Self, TM>;
}
impl<T: ILexeme> LexemeBuilder for T {
    fn mapping(self, fields: Vec<(&str, T::Token)>) -> Result<Mapper<T>, String> { Mapper::new(self, fields) }
    fn thunk_mapping<TF: Fn(&Lex<T::Token>, &[u8], &Vec<Lex<T::Token>>) -> Option<T::Token>>(self, thunk: TF) -> ThunkMapper<T, TF> { ThunkMapper::new(self, thunk) }
    fn state_mixin(self, actions: Vec<(T::Token, Action<T::State>)>) -> StateMixin<T> { StateMixin::new(self, actions) }
    fn middleware<TM: Fn(&[u8], &Vec<Lex<T::Token>>) -> bool>(self, middleware: TM) -> Middleware<T, TM> { Middleware::new(self, middleware) }
    fn thunk_mixin<TM: Fn(&Lex<T::Token>, &[u8], &Vec<Lex<T::Token>>) -> Action<T::State>>(self, thunk: TM) -> ThunkStateMixin<T, TM> { ThunkStateMixin::new(self, thunk) }
}
impl<T> Action<T> {
    pub fn remove(discard: bool) -> Self { Action::Pop { discard } }
    pub fn append(state: T, discard: bool) -> Self { Action::Append { state, discard } }
    pub fn switch(state: T, discard: bool) -> Self { Action::Switch { state, discard } }
}
impl<T> Default for Action<T> { fn default() -> Self { Action::None { discard: false } } }
