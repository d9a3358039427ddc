//! Token streams, pointers, positions, the record of a parse, and the tree it yields.
use crate::lexing::position;
use crate::types::*;
use std::cell::OnceCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::{Add, Sub, Index};

impl<T> FieldTree<T> {
    pub fn new() -> Self { FieldTree { token: None, children: Vec::new() } }
    /// the value ends here, or goes on below the child of its first byte; children stay in order
    pub fn insert(&mut self, value: &[u8], token: T) -> Result<(), T> {
        if value.is_empty() {
            return match self.token.replace(token) { Some(old) => Err(old), None => Ok(()) };
        }
        match self.children.binary_search_by_key(&value[0], |(b, _)| *b) {
            Ok(k) => self.children[k].1.insert(&value[1..], token),
            Err(k) => {
                let mut below = FieldTree { token: None, children: Vec::new() };
                below.insert(&value[1..], token)?;
                self.children.insert(k, (value[0], below));
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------------ pointers
impl Add<usize> for TokenPtr { type Output = Self; fn add(self, n: usize) -> Self { TokenPtr(self.0 + n) } }
impl Sub<usize> for TokenPtr { type Output = Self; fn sub(self, n: usize) -> Self { given(n <= self.0); TokenPtr(self.0 - n) } }
impl Add<usize> for FltrPtr { type Output = Self; fn add(self, n: usize) -> Self { if n == 0 { panic!() } FltrPtr(self.0 + n) } }
impl Sub<usize> for FltrPtr { type Output = Self; fn sub(self, n: usize) -> Self { given(n <= self.0); FltrPtr(self.0 - n) } }
impl Default for TokenPtr { fn default() -> Self { TokenPtr(0) } }
impl Default for FltrPtr { fn default() -> Self { FltrPtr(0) } }
impl From<usize> for TokenPtr { fn from(n: usize) -> Self { TokenPtr(n) } }
impl TokenPtr {
    pub fn origin() -> Self { TokenPtr(0) }
    pub fn is_origin(&self) -> bool { self.0 == 0 }
}

// ------------------------------------------------------------------ streams
impl<'l, T> TokenStream<'l, T> {
    pub fn new(original_stream: &'l Vec<Lex<T>>, filtered_stream: Vec<TokenPtr>) -> Self { TokenStream { filtered_stream, original_stream } }
    pub fn pointer(&self, i: FltrPtr) -> usize { self[i].start }
    pub fn get(&self, i: FltrPtr) -> Option<&Lex<T>> {
        match self.filtered_stream.get(i.0) { Some(t) => Some(&self[*t]), None => None }
    }
    pub fn length(&self) -> usize { self.filtered_stream.len() }
    pub fn has_stream(&self, i: FltrPtr) -> bool { i.0 < self.filtered_stream.len() }
    pub fn eos_pointer(&self) -> usize { self.original_stream[self.original_stream.len() - 1].end }
    pub fn get_segments(&self) -> &Vec<Lex<T>> { self.original_stream }
    pub fn get_token_ptr(&self, i: FltrPtr) -> TokenPtr { self.filtered_stream[i.0] }
    /// where a token stands among the structural ones, or where it would
    pub fn find_filter_ptr(&self, t: TokenPtr) -> Result<FltrPtr, FltrPtr> {
        match self.filtered_stream.binary_search(&t) { Ok(k) => Ok(FltrPtr(k)), Err(k) => Err(FltrPtr(k)) }
    }
    pub fn find_filtered_index(&self, t: &TokenPtr) -> Result<FltrPtr, FltrPtr> {
        match self.filtered_stream.binary_search(t) { Ok(k) => Ok(FltrPtr(k)), Err(k) => Err(FltrPtr(k)) }
    }
    pub fn filtered_index_at(&self, at: usize) -> Result<FltrPtr, FltrPtr> {
        match self.filtered_stream.binary_search_by_key(&at, |t| self[*t].start) { Ok(k) => Ok(FltrPtr(k)), Err(k) => Err(FltrPtr(k)) }
    }
    pub fn lex_data_at(&self, at: usize) -> Result<&Lex<T>, &Lex<T>> {
        match self.original_stream.binary_search_by_key(&at, |l| l.start) { Ok(k) => Ok(&self[TokenPtr(k)]), Err(k) => Err(&self[TokenPtr(k)]) }
    }
    pub fn filtered_data_at(&self, at: usize) -> Result<&Lex<T>, &Lex<T>> {
        match self.filtered_stream.binary_search_by_key(&at, |t| self[*t].start) { Ok(k) => Ok(&self[FltrPtr(k)]), Err(k) => Err(&self[FltrPtr(k)]) }
    }
    pub fn last_segment_index(&self, i: &FltrPtr) -> Option<TokenPtr> {
        if i.0 == 0 { None } else { Some(self.filtered_stream[i.0 - 1]) }
    }
    pub fn iter_lex(&'l self) -> impl Iterator<Item = &'l Lex<T>> { self.filtered_stream.iter().map(|t| &self[*t]) }
    pub fn iter_lex_at(&self, i: FltrPtr) -> impl Iterator<Item = &Lex<T>> { self.filtered_stream[i.0..].iter().map(|t| &self[*t]) }
    pub fn iter_at(&self, i: usize) -> impl Iterator<Item = &Lex<T>> { self.original_stream[i..].iter() }
    pub fn iter_range(&self, a: usize, b: usize) -> impl Iterator<Item = &Lex<T>> { self.original_stream[a..b].iter() }
    pub fn iter_lex_range(&self, a: FltrPtr, b: FltrPtr) -> impl Iterator<Item = &Lex<T>> { self.filtered_stream[a.0..b.0].iter().map(|t| &self[*t]) }
    pub fn token_pair<'c>(&self, code: &'c str) -> Vec<(&T, &'c str)> {
        let mut v = Vec::new();
        for l in self.original_stream { v.push((&l.token, &code[l.start..l.end])); }
        v
    }
    /// a node over [i, what the data has consumed)
    pub fn create_node<TN: NodeImpl>(&self, i: FltrPtr, value: TN, data: SuccessData<FltrPtr, TN>) -> SuccessData<FltrPtr, TN> {
        let to = data.consumed_index;
        let n = ASTNode { node: value, bound: Some((self.filtered_stream[i.0], self.filtered_stream[to.0])), start: self[i].start, end: self[to].start, children: data.children };
        SuccessData { consumed_index: to, children: vec![n] }
    }
}
impl<'l, T: TokenImpl> TokenStream<'l, T> {
    pub fn is_eos(&self, i: FltrPtr) -> bool { self[i].token == T::eof() }
    pub fn is_eos_segment(&self, i: TokenPtr) -> bool { self[i].token == T::eof() }
}
impl<'l, T> Index<FltrPtr> for TokenStream<'l, T> { type Output = Lex<T>; fn index(&self, i: FltrPtr) -> &Lex<T> { &self.original_stream[self.filtered_stream[i.0].0] } }
impl<'l, T> Index<TokenPtr> for TokenStream<'l, T> { type Output = Lex<T>; fn index(&self, i: TokenPtr) -> &Lex<T> { &self.original_stream[i.0] } }
impl<'l, T: TokenImpl> From<&'l Vec<Lex<T>>> for TokenStream<'l, T> {
    /// the structural tokens, in order, by where they stand
    fn from(all: &'l Vec<Lex<T>>) -> Self {
        let mut filtered_stream = Vec::new();
        for (k, l) in all.iter().enumerate() {
            if l.token.is_structural() { filtered_stream.push(TokenPtr(k)); }
        }
        TokenStream { filtered_stream, original_stream: all }
    }
}

// ------------------------------------------------------------------ positions
impl Position { pub fn new(line: usize, column: usize) -> Self { Position { line, column } } }
impl From<&[u8]> for Position {
    fn from(text: &[u8]) -> Self {
        let mut lines = 0;
        let mut after = 0;
        for b in text {
            if *b == b'\n' { lines += 1; after = 0; } else { after += 1; }
        }
        Position { line: lines + 1, column: after + 1 }
    }
}
impl<'c> From<&'c [u8]> for Code<'c> { fn from(value: &'c [u8]) -> Self { Code { value, line_breaks: OnceCell::new() } } }
impl<'c> From<&'c str> for Code<'c> { fn from(value: &'c str) -> Self { Code { value: value.as_bytes(), line_breaks: OnceCell::new() } } }
impl<'c> Code<'c> {
    pub fn new(value: &'c [u8]) -> Self { Code { value, line_breaks: OnceCell::new() } }
    pub fn obtain_line_breaks(&self) -> &Vec<usize> {
        self.line_breaks.get_or_init(|| {
            let mut v = Vec::new();
            for (i, b) in self.value.iter().enumerate() { if *b == b'\n' { v.push(i); } }
            v
        })
    }
    /// lines end with their line break; both counts start at one
    pub fn obtain_position(&self, at: usize) -> Position {
        let breaks = self.obtain_line_breaks();
        given(at <= self.value.len());
        let before = match breaks.binary_search(&at) { Ok(k) => k, Err(k) => k };
        let begin = if before == 0 { 0 } else { breaks[before - 1] + 1 };
        Position { line: before + 1, column: at - begin + 1 }
    }
}

// ------------------------------------------------------------------ results
impl<I, T> SuccessData<I, T> {
    pub fn new(consumed_index: I, children: Vec<ASTNode<T>>) -> Self { SuccessData { consumed_index, children } }
    pub fn hidden(consumed_index: I) -> Self { SuccessData { consumed_index, children: Vec::new() } }
    pub fn tree(consumed_index: I, tree: ASTNode<T>) -> Self { SuccessData { consumed_index, children: vec![tree] } }
    pub fn range(&self) -> Option<(usize, usize)> {
        if self.children.is_empty() { return None; }
        Some((self.children[0].start, self.children[self.children.len() - 1].end))
    }
}
impl ProductionError {
    pub fn is_unparsed(&self) -> bool { match self { ProductionError::Unparsed => true, _ => false } }
    pub fn is_invalid(&self) -> bool { match self { ProductionError::Unparsed => false, _ => true } }
}
impl ParseError { pub fn new(pointer: usize, message: String) -> Self { ParseError { pointer, message } } }

// ------------------------------------------------------------------ the record of one parse
impl<TP: Default + Eq + Hash + Ord + Copy, T> Cache<TP, T> {
    pub fn debug_new(at: usize) -> Self { Cache { parsed_result_cache: HashMap::new(), max_parsed_point: at } }
    pub fn root() -> Self { Cache { parsed_result_cache: HashMap::new(), max_parsed_point: 0 } }
    pub fn contains(&self, key: CacheKey, at: usize) -> bool { self.parsed_result_cache.contains_key(&(key, at)) }
    pub fn find(&self, key: CacheKey, at: usize) -> Option<&ParsedResult<TP, T>> {
        if at > self.max_parsed_point { None } else { self.parsed_result_cache.get(&(key, at)) }
    }
    pub fn insert(&mut self, key: CacheKey, at: usize, r: ParsedResult<TP, T>) -> Option<ParsedResult<TP, T>> {
        self.update_index(at);
        self.parsed_result_cache.insert((key, at), r)
    }
    pub fn update_index(&mut self, at: usize) { if at > self.max_parsed_point { self.max_parsed_point = at; } }
    pub fn get_index(&self) -> usize { self.max_parsed_point }
}
impl<TN: NodeImpl> Cache<FltrPtr, TN> {
    /// a validation error stands where the validator put it; otherwise the parse failed at the token
    /// it got furthest to, or at the end
    pub fn create_error<'l, TL: TokenImpl>(&self, code: &Code, stream: &TokenStream<'l, TL>, e: ProductionError) -> ParseError {
        let (pointer, message) = match e {
            ProductionError::Validation(at, m) => (at, format!("{}{}", m, position(code, at))),
            ProductionError::Unparsed => {
                let k = match stream.filtered_index_at(self.max_parsed_point) { Ok(k) => k, Err(k) => k };
                match stream.get(k) {
                    Some(l) => (l.start, if l.token == TL::eof() { format!("{}", position(code, l.start)) } else { format!("{}{}", String::from_utf8_lossy(&code.value[l.start..l.end]), position(code, l.start)) }),
                    None => (code.value.len(), format!("{}", position(code, code.value.len()))),
                }
            }
        };
        ParseError { pointer, message }
    }
}
impl<TN> Cache<usize, TN> {
    pub fn create_error(&self, code: &Code, e: ProductionError) -> ParseError {
        let (pointer, message) = match e {
            ProductionError::Validation(at, m) => (at, format!("{}{}", m, position(code, at))),
            ProductionError::Unparsed => {
                given(self.max_parsed_point <= code.value.len());
                (self.max_parsed_point, if self.max_parsed_point == code.value.len() { format!("{}", position(code, self.max_parsed_point)) } else { format!("{}{}", crate::std_model::prim::about(code.value, self.max_parsed_point), position(code, self.max_parsed_point)) })
            }
        };
        ParseError { pointer, message }
    }
}

// ------------------------------------------------------------------ trees
impl<T> ASTNode<T> {
    pub fn new(node: T, start: usize, end: usize, bound: Option<(TokenPtr, TokenPtr)>, children: Vec<ASTNode<T>>) -> Self { ASTNode { node, bound, start, end, children } }
    pub fn leaf(node: T, start: usize, end: usize, bound: Option<(TokenPtr, TokenPtr)>) -> Self { ASTNode { node, bound, start, end, children: Vec::new() } }
}
impl<T: NodeImpl> ASTNode<T> {
    pub fn null(at: usize, token: Option<TokenPtr>) -> Self {
        ASTNode { node: T::null(), bound: match token { Some(t) => Some((t, t)), None => None }, start: at, end: at, children: Vec::new() }
    }
}
impl<T: Debug + Clone + Eq> ASTNode<T> {
    /// the first in reading order: a node before what is below it, children in order
    pub fn find_tree_with_node(&self, node: &T) -> Option<&ASTNode<T>> {
        if self.node == *node { return Some(self); }
        for c in &self.children {
            if let Some(t) = c.find_tree_with_node(node) { return Some(t); }
        }
        None
    }
    pub fn find_nested_tree_with_node(&self, nodes: &[T]) -> Option<&ASTNode<T>> {
        let mut at = Some(self);
        for n in nodes {
            match at { Some(t) => at = t.find_tree_with_node(n), None => return None }
        }
        at
    }
    pub fn find_tree<F: Fn(&ASTNode<T>) -> bool>(&self, p: &F) -> Option<&ASTNode<T>> {
        if p(self) { return Some(self); }
        for c in &self.children {
            if let Some(t) = c.find_tree(p) { return Some(t); }
        }
        None
    }
    pub fn get_child(&self, node: &T) -> Option<&ASTNode<T>> {
        for c in &self.children { if c.node == *node { return Some(c); } }
        None
    }
    pub fn contains(&self, node: &T) -> bool {
        if self.node == *node { return true; }
        for c in &self.children { if c.contains(node) { return true; } }
        false
    }
    pub fn list_tree_with_token<'t>(&'t self, node: &T) -> Vec<&'t ASTNode<T>> {
        let mut v: Vec<&'t ASTNode<T>> = Vec::new();
        self.walk_tree(&mut v, &|t: &'t ASTNode<T>, v: &mut Vec<&'t ASTNode<T>>| if t.node == *node { v.push(t) });
        v
    }
    pub fn list_tree<'t, F: Fn(&ASTNode<T>) -> bool>(&'t self, p: &F) -> Vec<&'t ASTNode<T>> {
        let mut v: Vec<&'t ASTNode<T>> = Vec::new();
        self.walk_tree(&mut v, &|t: &'t ASTNode<T>, v: &mut Vec<&'t ASTNode<T>>| if p(t) { v.push(t) });
        v
    }
    fn walk_tree<'t, R, F: Fn(&'t Self, &mut R)>(&'t self, r: &mut R, f: &F) {
        f(self, r);
        for c in &self.children { c.walk_tree(r, f); }
    }
}
impl<T> Log<T> {
    pub fn order(&self) -> u8 {
        match self { Log::None => 0, Log::Default(_) => 1, Log::Success(_) => 2, Log::Result(_) => 3, Log::Verbose(_) => 4 }
    }
}

// ------------------------------------------------------------------ parsers
impl<TN: NodeImpl, TL: TokenImpl> DefaultParser<TN, TL> {
    pub fn new(tokenizer: std::rc::Rc<dyn ITokenization<Token = TL>>, root: Dyn<TN, TL>) -> Result<Self, ImplementationError> {
        let p = DefaultParser { tokenizer, root, debug_production_map: HashMap::new() };
        p.root.validate(HashMap::new(), &mut HashSet::new())?;
        Ok(p)
    }
    pub fn validate(&self) -> Result<(), ImplementationError> { self.root.validate(HashMap::new(), &mut HashSet::new()) }
    pub fn tokenize(&self, code: &Code) -> Result<Vec<Lex<TL>>, ParseError> { self.tokenizer.tokenize(code) }
    /// a parse starts at the first structural token with nothing remembered
    pub fn parse_stream<'l>(&self, code: &Code, stream: TokenStream<'l, TL>) -> Result<Vec<ASTNode<TN>>, ParseError> {
        let mut cache = Cache { parsed_result_cache: HashMap::new(), max_parsed_point: 0 };
        match self.root.advance_fltr_ptr(code, FltrPtr(0), &stream, &mut cache) {
            Ok(d) => Ok(d.children),
            Err(e) => Err(cache.create_error(code, &stream, e)),
        }
    }
    pub fn tokenize_n_parse(&self, text: &[u8]) -> Result<(Vec<Lex<TL>>, Vec<ASTNode<TN>>), ParseError> {
        let code = Code::new(text);
        let tokens = self.tokenize(&code)?;
        let trees = self.parse_stream(&code, TokenStream::from(&tokens))?;
        Ok((tokens, trees))
    }
    pub fn parse<'l>(&self, text: &[u8]) -> Result<Vec<ASTNode<TN>>, ParseError> {
        let code = Code::new(text);
        let tokens = self.tokenize(&code)?;
        self.parse_stream(&code, TokenStream::from(&tokens))
    }
    pub fn grammar(&self) -> Result<String, std::fmt::Error> {
        let mut g = self.root.build_grammar()?;
        g.push_str(&self.tokenizer.build_grammar()?);
        Ok(g)
    }
}
impl<TN: NodeImpl, TL: TokenImpl> LexerlessParser<TN, TL> {
    pub fn grammar(&self) -> Result<String, std::fmt::Error> { self.root.build_grammar() }
    pub fn new(root: Dyn<TN, TL>) -> Result<Self, ImplementationError> {
        let p = LexerlessParser { root, debug_production_map: HashMap::new() };
        p.root.validate(HashMap::new(), &mut HashSet::new())?;
        Ok(p)
    }
    pub fn validate(&self) -> Result<(), ImplementationError> { self.root.validate(HashMap::new(), &mut HashSet::new()) }
    pub fn parse(&self, text: &[u8]) -> Result<Vec<ASTNode<TN>>, ParseError> {
        let code = Code::new(text);
        let mut cache = Cache { parsed_result_cache: HashMap::new(), max_parsed_point: 0 };
        match self.root.advance_ptr(&code, 0, &mut cache) {
            Ok(d) => Ok(d.children),
            Err(e) => Err(cache.create_error(&code, e)),
        }
    }
}

// ------------------------------------------------------------------ one production by itself (debug builds)
fn not_added(id: &str) -> ParseError { ParseError { pointer: 0, message: format!("{}", id) } }
impl<TN: NodeImpl, TL: TokenImpl> DefaultParser<TN, TL> {
    pub fn add_debug_production<T: IProduction<Node = TN, Token = TL> + 'static>(&mut self, id: &'static str, p: &std::rc::Rc<T>) { self.debug_production_map.insert(id, p.clone()); }
    pub fn get_production(&self, id: &str) -> Option<&Dyn<TN, TL>> { self.debug_production_map.get(id) }
    /// the production parses from the structural token at this byte, or the first one after it
    pub fn debug_production_at(&self, id: &str, text: &[u8], at: usize) -> Result<Vec<ASTNode<TN>>, ParseError> {
        let p = match self.debug_production_map.get(id) { Some(p) => p, None => return Err(not_added(id)) };
        let code = Code::new(text);
        let tokens = self.tokenize(&code)?;
        let stream = TokenStream::from(&tokens);
        let k = match stream.filtered_index_at(at) { Ok(k) => k, Err(k) => k };
        let mut cache = Cache { parsed_result_cache: HashMap::new(), max_parsed_point: at };
        match p.advance_fltr_ptr(&code, k, &stream, &mut cache) {
            Ok(d) => Ok(d.children),
            Err(e) => Err(cache.create_error(&code, &stream, e)),
        }
    }
}
impl<TN: NodeImpl, TL: TokenImpl> LexerlessParser<TN, TL> {
    pub fn add_debug_production<T: IProduction<Node = TN, Token = TL> + 'static>(&mut self, id: &'static str, p: &std::rc::Rc<T>) { self.debug_production_map.insert(id, p.clone()); }
    pub fn get_production(&self, id: &str) -> Option<&Dyn<TN, TL>> { self.debug_production_map.get(id) }
    /// the production parses from this byte
    pub fn debug_parser_at(&self, id: &str, text: &[u8], at: usize) -> Result<Vec<ASTNode<TN>>, ParseError> {
        let p = match self.debug_production_map.get(id) { Some(p) => p, None => return Err(not_added(id)) };
        let code = Code::new(text);
        let mut cache = Cache { parsed_result_cache: HashMap::new(), max_parsed_point: at };
        match p.advance_ptr(&code, at, &mut cache) {
            Ok(d) => Ok(d.children),
            Err(e) => Err(cache.create_error(&code, e)),
        }
    }
}
