//! What each production means.  One definition per production covers its three entry points
//! (structural tokens, all tokens, bytes): `Mode` is the only thing that differs between them.
use crate::types::*;
use std::cell::OnceCell;
use std::collections::{HashMap, HashSet};
use std::fmt::{Display, Formatter, Write};
use std::rc::Rc;

type Nullability = Result<bool, ImplementationError>;
type Valid = Result<(), ImplementationError>;
type Visited<'a> = HashMap<&'a str, usize>;

pub trait Mode<TN: NodeImpl, TL: TokenImpl>: Copy {
    type P: Copy + PartialEq;
    type C;
    fn run<X: IProduction<Node = TN, Token = TL> + ?Sized>(self, p: &X, i: Self::P, cache: &mut Cache<Self::C, TN>) -> ParsedResult<Self::P, TN>;
    /// the byte a pointer stands at
    fn byte(self, i: Self::P) -> usize;
    /// the token range recorded in a node that covers [a, b)
    fn bound(self, a: Self::P, b: Self::P) -> Option<(TokenPtr, TokenPtr)>;
    fn input(self) -> &'static [u8];
}
pub struct Fltr<'a, TL> { pub code: &'a Code<'a>, pub stream: &'a TokenStream<'a, TL> }
pub struct Tok<'a, TL> { pub code: &'a Code<'a>, pub stream: &'a TokenStream<'a, TL> }
pub struct Bytes<'a> { pub code: &'a Code<'a> }
impl<'a, TL> Clone for Fltr<'a, TL> { fn clone(&self) -> Self { *self } }
impl<'a, TL> Copy for Fltr<'a, TL> {}
impl<'a, TL> Clone for Tok<'a, TL> { fn clone(&self) -> Self { *self } }
impl<'a, TL> Copy for Tok<'a, TL> {}
impl<'a> Clone for Bytes<'a> { fn clone(&self) -> Self { *self } }
impl<'a> Copy for Bytes<'a> {}

pub fn token_of<'a, TL>(s: &'a TokenStream<TL>, i: FltrPtr) -> TokenPtr { s.filtered_stream[i.0] }
pub fn lex_f<'a, TL>(s: &'a TokenStream<TL>, i: FltrPtr) -> &'a Lex<TL> { &s.original_stream[s.filtered_stream[i.0].0] }
pub fn lex_t<'a, TL>(s: &'a TokenStream<TL>, i: TokenPtr) -> &'a Lex<TL> { &s.original_stream[i.0] }

impl<'a, TN: NodeImpl, TL: TokenImpl> Mode<TN, TL> for Fltr<'a, TL> {
    type P = FltrPtr;
    type C = FltrPtr;
    fn run<X: IProduction<Node = TN, Token = TL> + ?Sized>(self, p: &X, i: FltrPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<FltrPtr, TN> {
        p.advance_fltr_ptr(self.code, i, self.stream, cache)
    }
    fn byte(self, i: FltrPtr) -> usize { lex_f(self.stream, i).start }
    fn bound(self, a: FltrPtr, b: FltrPtr) -> Option<(TokenPtr, TokenPtr)> { Some((token_of(self.stream, a), token_of(self.stream, b))) }
    fn input(self) -> &'static [u8] { unsafe { std::mem::transmute(self.code.value) } }
}
impl<'a, TN: NodeImpl, TL: TokenImpl> Mode<TN, TL> for Tok<'a, TL> {
    type P = TokenPtr;
    type C = FltrPtr;
    fn run<X: IProduction<Node = TN, Token = TL> + ?Sized>(self, p: &X, i: TokenPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<TokenPtr, TN> {
        p.advance_token_ptr(self.code, i, self.stream, cache)
    }
    fn byte(self, i: TokenPtr) -> usize { lex_t(self.stream, i).start }
    fn bound(self, a: TokenPtr, b: TokenPtr) -> Option<(TokenPtr, TokenPtr)> { Some((a, b)) }
    fn input(self) -> &'static [u8] { unsafe { std::mem::transmute(self.code.value) } }
}
impl<'a, TN: NodeImpl, TL: TokenImpl> Mode<TN, TL> for Bytes<'a> {
    type P = usize;
    type C = usize;
    fn run<X: IProduction<Node = TN, Token = TL> + ?Sized>(self, p: &X, i: usize, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
        p.advance_ptr(self.code, i, cache)
    }
    fn byte(self, i: usize) -> usize { i }
    fn bound(self, a: usize, b: usize) -> Option<(TokenPtr, TokenPtr)> { None }
    fn input(self) -> &'static [u8] { unsafe { std::mem::transmute(self.code.value) } }
}

macro_rules! entry {
    (fltr $f:ident) => {
        fn advance_fltr_ptr(&self, code: &Code, index: FltrPtr, stream: &TokenStream<Self::Token>, cache: &mut Cache<FltrPtr, Self::Node>) -> ParsedResult<FltrPtr, Self::Node> {
            self.$f(Fltr { code, stream }, index, cache)
        }
    };
    (tok $f:ident) => {
        fn advance_token_ptr(&self, code: &Code, index: TokenPtr, stream: &TokenStream<Self::Token>, cache: &mut Cache<FltrPtr, Self::Node>) -> ParsedResult<TokenPtr, Self::Node> {
            self.$f(Tok { code, stream }, index, cache)
        }
    };
    (bytes $f:ident) => {
        fn advance_ptr(&self, code: &Code, index: usize, cache: &mut Cache<usize, Self::Node>) -> ParsedResult<usize, Self::Node> {
            self.$f(Bytes { code }, index, cache)
        }
    };
    (all $f:ident) => { entry!(fltr $f); entry!(tok $f); entry!(bytes $f); };
    (no fltr) => {
        fn advance_fltr_ptr(&self, _: &Code, _: FltrPtr, _: &TokenStream<Self::Token>, _: &mut Cache<FltrPtr, Self::Node>) -> ParsedResult<FltrPtr, Self::Node> { panic!() }
    };
    (no tok) => {
        fn advance_token_ptr(&self, _: &Code, _: TokenPtr, _: &TokenStream<Self::Token>, _: &mut Cache<FltrPtr, Self::Node>) -> ParsedResult<TokenPtr, Self::Node> { panic!() }
    };
    (no bytes) => {
        fn advance_ptr(&self, _: &Code, _: usize, _: &mut Cache<usize, Self::Node>) -> ParsedResult<usize, Self::Node> { panic!() }
    };
    (no grammar) => {
        fn impl_grammar(&self, writer: &mut dyn Write, rules: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> { Ok(()) }
    };
    (rules) => {
        fn impl_grammar(&self, writer: &mut dyn Write, rules: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> { self.rules(writer, rules) }
    };
    // a wrapper asks the production it wraps
    (grammar $x:ident) => {
        fn impl_grammar(&self, writer: &mut dyn Write, rules: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> { self.$x.impl_grammar(writer, rules) }
    };
    (wrap $x:ident) => {
        fn obtain_nullability<'id>(&'id self, visited: Visited<'id>) -> Nullability { self.$x.obtain_nullability(visited) }
        fn impl_first_set(&self, first_set: &mut HashSet<Self::Token>) { self.$x.impl_first_set(first_set) }
        fn validate<'id>(&'id self, connected: Visited<'id>, seen: &mut HashSet<&'id str>) -> Valid { self.$x.validate(connected, seen) }
    };
    (leaf) => {
        fn validate<'id>(&'id self, connected: Visited<'id>, seen: &mut HashSet<&'id str>) -> Valid { Ok(()) }
    };
}
macro_rules! display {
    ([$($g:tt)*] $t:ty) => { impl<$($g)*> Display for $t { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { self.shown(f) } } };
}

/// a validation error ends the parse; an unparsed production leaves room for something else
pub fn fatal(e: &ProductionError) -> bool { matches!(e, ProductionError::Validation(_, _)) }
pub fn success<I, TN>(consumed_index: I, children: Vec<ASTNode<TN>>) -> SuccessData<I, TN> { SuccessData { consumed_index, children } }
pub fn node<TN>(node: TN, start: usize, end: usize, bound: Option<(TokenPtr, TokenPtr)>, children: Vec<ASTNode<TN>>) -> ASTNode<TN> {
    ASTNode { node, bound, start, end, children }
}
/// a node that covers nothing, or nothing at all
pub fn empty<TN: NodeImpl, TL: TokenImpl, M: Mode<TN, TL>>(m: M, v: &Option<TN>, i: M::P) -> SuccessData<M::P, TN> {
    let mut children = Vec::new();
    if let Some(n) = v {
        children.push(node(n.clone(), m.byte(i), m.byte(i), m.bound(i, i), Vec::new()));
    }
    success(i, children)
}
/// the parser got as far as this byte
pub fn reached<TP, TN>(cache: &mut Cache<TP, TN>, at: usize) {
    if at > cache.max_parsed_point { cache.max_parsed_point = at; }
}

// ------------------------------------------------------------------ concatenation
pub fn symbols<T>(c: &OnceCell<Vec<T>>) -> &Vec<T> { c.get_or_init(|| loop {}) }

impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> {
    fn parse<M: Mode<TN, TL>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TN>) -> ParsedResult<M::P, TN> {
        let mut at = index;
        let mut children = Vec::new();
        for symbol in symbols(&self.symbols) {
            let r = m.run(&**symbol, at, cache)?;
            at = r.consumed_index;
            children.extend(r.children);
        }
        Ok(success(at, children))
    }
}
display!([TN: NodeImpl, TL: TokenImpl] Concat<TN, TL>);
impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
    type Node = TN;
    type Token = TL;
    entry!(all parse);
    entry!(rules);
    fn is_nullable(&self) -> bool {
        match self.nt_helper.nullability.get() {
            Some(b) => *b,
            None => self.obtain_nullability(HashMap::new()).unwrap(),
        }
    }
    fn is_nullable_n_hidden(&self) -> bool {
        *self.nt_helper.null_hidden.get_or_init(|| {
            if !self.is_nullable() { return false; }
            for s in symbols(&self.symbols) {
                if !s.is_nullable_n_hidden() { return false; }
            }
            true
        })
    }
    fn obtain_nullability<'id>(&'id self, mut visited: Visited<'id>) -> Nullability {
        enter(&self.nt_helper, &mut visited)?;
        if self.symbols.get().is_none() { return Err(unset(&self.nt_helper)); }
        if let Some(b) = self.nt_helper.nullability.get() { return Ok(*b); }
        let mut nullable = true;
        for s in symbols(&self.symbols) {
            if !s.obtain_nullability(visited.clone())? { nullable = false; break; }
        }
        self.nt_helper.nullability.set(nullable).unwrap();
        Ok(nullable)
    }
    fn impl_first_set(&self, first_set: &mut HashSet<TL>) {
        for s in symbols(&self.symbols) {
            s.impl_first_set(first_set);
            if !s.is_nullable() { return; }
        }
    }
    fn validate<'id>(&'id self, mut connected: Visited<'id>, seen: &mut HashSet<&'id str>) -> Valid {
        if visit(&self.nt_helper, &mut connected, seen)? { return Ok(()); }
        if self.symbols.get().is_none() { return Err(unset(&self.nt_helper)); }
        let mut at_left_edge = true;
        for s in symbols(&self.symbols) {
            if at_left_edge {
                s.validate(connected.clone(), seen)?;
                at_left_edge = s.obtain_nullability(HashMap::new())?;
            } else {
                s.validate(HashMap::new(), seen)?;
            }
        }
        self.obtain_nullability(HashMap::new())?;
        Ok(())
    }
}
/// an undefined symbol is named
pub fn unset(h: &NTHelper) -> ImplementationError { ImplementationError { message: format!("{}", h.identifier), what: String::new() } }
/// a left recursive symbol is named, and the way back to it: from the symbol entered last to the one itself
pub fn circle(id: &str, entered: &HashMap<&str, usize>) -> ImplementationError {
    let mut order: Vec<(&&str, &usize)> = entered.iter().collect();
    order.sort_by_key(|s| s.1);
    let mut message = String::new();
    write!(message, "{}", id).unwrap();
    let mut k = order.len();
    while k > 0 {
        k -= 1;
        write!(message, "<-{}", order[k].0).unwrap();
        if *order[k].0 == id { break; }
    }
    ImplementationError { message, what: String::new() }
}
/// a symbol met again on the way from itself without consuming anything is left recursive
pub fn enter<'id>(h: &'id NTHelper, visited: &mut Visited<'id>) -> Valid {
    let n = visited.len();
    if visited.insert(h.identifier, n).is_some() { Err(circle(h.identifier, visited)) } else { Ok(()) }
}
/// true: there is nothing left to look at below this symbol
pub fn visit<'id>(h: &'id NTHelper, connected: &mut Visited<'id>, seen: &mut HashSet<&'id str>) -> Nullability {
    if connected.contains_key(h.identifier) { return Err(circle(h.identifier, connected)); }
    if !seen.insert(h.identifier) { return Ok(true); }
    let n = connected.len();
    connected.insert(h.identifier, n);
    Ok(false)
}

// ------------------------------------------------------------------ alternatives
type FirstSets<TL> = (bool, Vec<(TL, Vec<usize>)>);

/// what the alternatives begin with: per token, in order, those that can begin with it (an
/// alternative that may be empty can begin with every token; none after it is ever reached)
pub fn first_sets<'a, TL: TokenImpl + 'a, TN: NodeImpl + 'a, A>(alts: &'a [A], prod: impl Fn(&'a A) -> &'a Dyn<TN, TL>) -> FirstSets<TL> {
    let mut sets: HashMap<TL, Vec<usize>> = HashMap::new();
    for (i, a) in alts.iter().enumerate() {
        let p = prod(a);
        let mut begins = HashSet::new();
        p.impl_first_set(&mut begins);
        for t in begins {
            sets.entry(t).or_insert_with(Vec::new).push(i);
        }
        if p.is_nullable() {
            for (_, v) in &mut sets {
                if *v.last().unwrap() != i { v.push(i); }
            }
            break;
        }
    }
    let mut v: Vec<(TL, Vec<usize>)> = sets.into_iter().collect();
    v.sort_by_key(|(t, _)| *t);
    (v.iter().all(|(t, _)| t.is_structural()), v)
}
/// the alternatives worth trying in front of structural token i: those that begin with it, or else
/// those that begin with the token directly after the last structural one when that is not structural
pub fn candidates_f<'a, TL: TokenImpl>(sets: &'a FirstSets<TL>, s: &TokenStream<TL>, i: FltrPtr) -> Option<&'a Vec<usize>> {
    if let Ok(k) = sets.1.binary_search_by_key(&lex_f(s, i).token, |(t, _)| *t) { return Some(&sets.1[k].1); }
    if sets.0 { return None; }
    let raw = if i.0 == 0 { 0 } else { s.filtered_stream[i.0 - 1].0 + 1 };
    let t = s.original_stream[raw].token;
    if t.is_structural() { return None; }
    match sets.1.binary_search_by_key(&t, |(t, _)| *t) { Ok(k) => Some(&sets.1[k].1), Err(_) => None }
}
pub fn candidates_t<'a, TL: TokenImpl>(sets: &'a FirstSets<TL>, s: &TokenStream<TL>, i: TokenPtr) -> Option<&'a Vec<usize>> {
    match sets.1.binary_search_by_key(&lex_t(s, i).token, |(t, _)| *t) { Ok(k) => Some(&sets.1[k].1), Err(_) => None }
}
impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
    fn sets(&self) -> &FirstSets<TL> { self.first_set.get_or_init(|| first_sets(symbols(&self.symbols), |p| p)) }
    /// the first alternative that parses wins
    fn choose<M: Mode<TN, TL>>(&self, m: M, among: Option<&Vec<usize>>, i: M::P, cache: &mut Cache<M::C, TN>) -> ParsedResult<M::P, TN> {
        let alts = symbols(&self.symbols);
        match among {
            Some(l) => {
                for k in l {
                    match m.run(&*alts[*k], i, cache) {
                        Ok(d) => return Ok(d),
                        Err(e) => if fatal(&e) { return Err(e); }
                    }
                }
            }
            None => {
                for a in alts {
                    if a.is_nullable() { return m.run(&**a, i, cache); }
                }
            }
        }
        Err(ProductionError::Unparsed)
    }
    fn bytes(&self, m: Bytes, i: usize, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
        for a in symbols(&self.symbols) {
            match <Bytes as Mode<TN, TL>>::run(m, &**a, i, cache) {
                Ok(d) => return Ok(d),
                Err(e) => if fatal(&e) { return Err(e); }
            }
        }
        Err(ProductionError::Unparsed)
    }
    fn fltr(&self, m: Fltr<TL>, i: FltrPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<FltrPtr, TN> {
        let c = candidates_f(self.sets(), m.stream, i);
        self.choose(m, c, i, cache)
    }
    fn tok(&self, m: Tok<TL>, i: TokenPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<TokenPtr, TN> {
        let c = candidates_t(self.sets(), m.stream, i);
        self.choose(m, c, i, cache)
    }
}
display!([TN: NodeImpl, TL: TokenImpl] Union<TN, TL>);
impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
    type Node = TN;
    type Token = TL;
    entry!(fltr fltr);
    entry!(tok tok);
    entry!(bytes bytes);
    entry!(rules);
    fn is_nullable(&self) -> bool {
        match self.nt_helper.nullability.get() {
            Some(b) => *b,
            None => self.obtain_nullability(HashMap::new()).unwrap(),
        }
    }
    fn is_nullable_n_hidden(&self) -> bool {
        *self.nt_helper.null_hidden.get_or_init(|| {
            for s in symbols(&self.symbols) {
                if s.is_nullable() { return s.is_nullable_n_hidden(); }
            }
            false
        })
    }
    fn obtain_nullability<'id>(&'id self, mut visited: Visited<'id>) -> Nullability {
        enter(&self.nt_helper, &mut visited)?;
        if self.symbols.get().is_none() { return Err(unset(&self.nt_helper)); }
        if let Some(b) = self.nt_helper.nullability.get() { return Ok(*b); }
        let mut nullable = false;
        for s in symbols(&self.symbols) {
            if s.obtain_nullability(visited.clone())? { nullable = true; }
        }
        self.nt_helper.nullability.set(nullable).unwrap();
        Ok(nullable)
    }
    fn impl_first_set(&self, first_set: &mut HashSet<TL>) {
        for s in symbols(&self.symbols) { s.impl_first_set(first_set); }
    }
    fn validate<'id>(&'id self, mut connected: Visited<'id>, seen: &mut HashSet<&'id str>) -> Valid {
        if visit(&self.nt_helper, &mut connected, seen)? { return Ok(()); }
        if self.symbols.get().is_none() { return Err(unset(&self.nt_helper)); }
        for s in symbols(&self.symbols) { s.validate(connected.clone(), seen)?; }
        self.obtain_nullability(HashMap::new())?;
        Ok(())
    }
}

// ------------------------------------------------------------------ a left part and one of its suffixes
impl<TP: IProduction> Suffixes<TP> {
    fn sets(&self) -> &FirstSets<TP::Token> { self.suffix_first_set.get_or_init(|| first_sets(symbols(&self.suffixes), |p| &p.0)) }
    fn null_suffix(&self) -> &Option<usize> {
        self.null_suffix_index.get_or_init(|| {
            let l = symbols(&self.suffixes);
            let mut i = 0;
            while i < l.len() {
                if l[i].0.is_nullable() { return Some(i); }
                i += 1;
            }
            None
        })
    }
    fn join<M: Mode<TP::Node, TP::Token>>(&self, m: M, from: M::P, left: SuccessData<M::P, TP::Node>, right: SuccessData<M::P, TP::Node>, value: &TP::Node) -> SuccessData<M::P, TP::Node> {
        let mut children = left.children;
        children.extend(right.children);
        let to = right.consumed_index;
        let mut v = Vec::new();
        v.push(node(value.clone(), m.byte(from), m.byte(to), m.bound(from, to), children));
        success(to, v)
    }
    fn rest<M: Mode<TP::Node, TP::Token>>(&self, m: M, among: Option<&Vec<usize>>, i: M::P, left: SuccessData<M::P, TP::Node>, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        let all = symbols(&self.suffixes);
        let mid = left.consumed_index;
        match among {
            Some(l) => {
                for k in l {
                    match m.run(&*all[*k].0, mid, cache) {
                        Ok(d) => return Ok(self.join(m, i, left, d, &all[*k].1)),
                        Err(e) => if fatal(&e) { return Err(e); }
                    }
                }
            }
            None => {
                if let Some(k) = self.null_suffix() {
                    match m.run(&*all[*k].0, mid, cache) {
                        Ok(d) => return Ok(self.join(m, i, left, d, &all[*k].1)),
                        Err(e) => if fatal(&e) { return Err(e); }
                    }
                }
            }
        }
        if self.standalone { Ok(left) } else { Err(ProductionError::Unparsed) }
    }
    fn fltr(&self, m: Fltr<TP::Token>, i: FltrPtr, cache: &mut Cache<FltrPtr, TP::Node>) -> ParsedResult<FltrPtr, TP::Node> {
        let left = m.run(&*self.left, i, cache)?;
        let c = candidates_f(self.sets(), m.stream, left.consumed_index);
        self.rest(m, c, i, left, cache)
    }
    fn tok(&self, m: Tok<TP::Token>, i: TokenPtr, cache: &mut Cache<FltrPtr, TP::Node>) -> ParsedResult<TokenPtr, TP::Node> {
        let left = m.run(&*self.left, i, cache)?;
        let c = candidates_t(self.sets(), m.stream, left.consumed_index);
        self.rest(m, c, i, left, cache)
    }
    fn bytes(&self, m: Bytes, i: usize, cache: &mut Cache<usize, TP::Node>) -> ParsedResult<usize, TP::Node> {
        let left = <Bytes as Mode<TP::Node, TP::Token>>::run(m, &*self.left, i, cache)?;
        for s in symbols(&self.suffixes) {
            match <Bytes as Mode<TP::Node, TP::Token>>::run(m, &*s.0, left.consumed_index, cache) {
                Ok(d) => return Ok(self.join(m, i, left, d, &s.1)),
                Err(e) => if fatal(&e) { return Err(e); }
            }
        }
        if self.standalone { Ok(left) } else { Err(ProductionError::Unparsed) }
    }
}
display!([TP: IProduction] Suffixes<TP>);
impl<TP: IProduction> IProduction for Suffixes<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(fltr fltr);
    entry!(tok tok);
    entry!(bytes bytes);
    entry!(rules);
    fn is_nullable(&self) -> bool {
        match self.nt_helper.nullability.get() {
            Some(b) => *b,
            None => self.obtain_nullability(HashMap::new()).unwrap(),
        }
    }
    fn is_nullable_n_hidden(&self) -> bool {
        *self.nt_helper.null_hidden.get_or_init(|| self.is_nullable() && self.null_suffix().is_none() && self.left.is_nullable_n_hidden())
    }
    fn obtain_nullability<'id>(&'id self, mut visited: Visited<'id>) -> Nullability {
        enter(&self.nt_helper, &mut visited)?;
        if self.suffixes.get().is_none() { return Err(unset(&self.nt_helper)); }
        if let Some(b) = self.nt_helper.nullability.get() { return Ok(*b); }
        let mut nullable = false;
        if self.left.obtain_nullability(visited.clone())? {
            nullable = self.standalone;
            for s in symbols(&self.suffixes) {
                if s.0.obtain_nullability(visited.clone())? { nullable = true; }
            }
        }
        self.nt_helper.nullability.set(nullable).unwrap();
        Ok(nullable)
    }
    fn impl_first_set(&self, first_set: &mut HashSet<TP::Token>) {
        self.left.impl_first_set(first_set);
        if self.left.is_nullable() {
            for s in symbols(&self.suffixes) { s.0.impl_first_set(first_set); }
        }
    }
    fn validate<'id>(&'id self, mut connected: Visited<'id>, seen: &mut HashSet<&'id str>) -> Valid {
        if visit(&self.nt_helper, &mut connected, seen)? { return Ok(()); }
        if self.suffixes.get().is_none() { return Err(unset(&self.nt_helper)); }
        self.left.validate(connected.clone(), seen)?;
        let left_may_be_empty = self.left.obtain_nullability(HashMap::new())?;
        for s in symbols(&self.suffixes) {
            if left_may_be_empty { s.0.validate(connected.clone(), seen)?; } else { s.0.validate(HashMap::new(), seen)?; }
        }
        self.obtain_nullability(HashMap::new())?;
        Ok(())
    }
}

// ------------------------------------------------------------------ repetition
impl<TP: IProduction> List<TP> {
    /// one or more; a repetition that consumes nothing is the last
    fn parse<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        let mut at = index;
        let first = m.run(&*self.symbol, at, cache)?;
        if first.consumed_index == index { return Ok(first); }
        at = first.consumed_index;
        let mut children = first.children;
        loop {
            match m.run(&*self.symbol, at, cache) {
                Ok(r) => {
                    children.extend(r.children);
                    if r.consumed_index == at { return Ok(success(at, children)); }
                    at = r.consumed_index;
                }
                Err(e) => return if fatal(&e) { Err(e) } else { Ok(success(at, children)) },
            }
        }
    }
}
display!([TP: IProduction] List<TP>);
impl<TP: IProduction> IProduction for List<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(all parse);
    entry!(wrap symbol);
    entry!(grammar symbol);
    fn is_nullable(&self) -> bool { self.symbol.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.symbol.is_nullable_n_hidden() }
}
impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> SeparatedList<TP, TS> {
    /// item (separator item)*, an item that is missing after a separator takes the separator with it
    /// unless the list includes its last separator; a round that consumes nothing is the last
    fn parse<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        let first = m.run(&*self.production, index, cache)?;
        let mut at = first.consumed_index;
        let mut children = first.children;
        loop {
            let sep = match m.run(&*self.separator, at, cache) {
                Ok(s) => s,
                Err(e) => return if fatal(&e) { Err(e) } else { Ok(success(at, children)) },
            };
            match m.run(&*self.production, sep.consumed_index, cache) {
                Ok(item) => {
                    children.extend(sep.children);
                    children.extend(item.children);
                    if item.consumed_index == at { return Ok(success(at, children)); }
                    at = item.consumed_index;
                }
                Err(e) => {
                    if fatal(&e) { return Err(e); }
                    if !self.inclusive { return Ok(success(at, children)); }
                    children.extend(sep.children);
                    return Ok(success(sep.consumed_index, children));
                }
            }
        }
    }
}
display!([TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>] SeparatedList<TP, TS>);
impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProduction for SeparatedList<TP, TS> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(all parse);
    entry!(rules);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.production.is_nullable_n_hidden() }
    fn obtain_nullability<'id>(&'id self, visited: Visited<'id>) -> Nullability {
        let nullable = self.production.obtain_nullability(visited.clone())?;
        if nullable { self.separator.obtain_nullability(visited)?; }
        Ok(nullable)
    }
    fn impl_first_set(&self, first_set: &mut HashSet<TP::Token>) {
        self.production.impl_first_set(first_set);
        if self.production.is_nullable() { self.separator.impl_first_set(first_set); }
    }
    fn validate<'id>(&'id self, connected: Visited<'id>, seen: &mut HashSet<&'id str>) -> Valid {
        if self.production.obtain_nullability(HashMap::new())? {
            self.production.validate(connected.clone(), seen)?;
            self.separator.validate(connected, seen)
        } else {
            self.production.validate(connected, seen)?;
            self.separator.validate(HashMap::new(), seen)
        }
    }
}

// ------------------------------------------------------------------ optional and looked-at productions
impl<TP: IProduction> Nullable<TP> {
    fn parse<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        match m.run(&*self.symbol, index, cache) {
            Err(ProductionError::Unparsed) => Ok(empty(m, &self.node_value, index)),
            r => r,
        }
    }
}
display!([TP: IProduction] Nullable<TP>);
impl<TP: IProduction> IProduction for Nullable<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(all parse);
    entry!(grammar symbol);
    fn is_nullable(&self) -> bool { true }
    fn is_nullable_n_hidden(&self) -> bool { if self.symbol.is_nullable() { self.symbol.is_nullable_n_hidden() } else { self.node_value.is_none() } }
    fn obtain_nullability<'id>(&'id self, visited: Visited<'id>) -> Nullability {
        self.symbol.obtain_nullability(visited)?;
        Ok(true)
    }
    fn impl_first_set(&self, first_set: &mut HashSet<TP::Token>) { self.symbol.impl_first_set(first_set) }
    fn validate<'id>(&'id self, connected: Visited<'id>, seen: &mut HashSet<&'id str>) -> Valid { self.symbol.validate(connected, seen) }
}
impl<TP: IProduction> Lookahead<TP> {
    fn parse<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        m.run(&*self.production, index, cache)?;
        Ok(empty(m, &self.node_value, index))
    }
}
display!([TP: IProduction] Lookahead<TP>);
impl<TP: IProduction> IProduction for Lookahead<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(all parse);
    entry!(wrap production);
    entry!(grammar production);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.production.is_nullable() && self.node_value.is_none() }
}

// ------------------------------------------------------------------ what a wrapper does to the tree
impl<TP: IProduction> Hidden<TP> {
    fn parse<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        let r = m.run(&*self.production, index, cache)?;
        Ok(success(r.consumed_index, Vec::new()))
    }
}
display!([TP: IProduction] Hidden<TP>);
impl<TP: IProduction> IProduction for Hidden<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(all parse);
    entry!(wrap production);
    entry!(rules);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.production.is_nullable() }
}
impl<TP: IProduction> Node<TP> {
    fn parse<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        let r = m.run(&*self.production, index, cache)?;
        let to = r.consumed_index;
        let mut v = Vec::new();
        v.push(node(self.node_value.clone(), m.byte(index), m.byte(to), m.bound(index, to), r.children));
        Ok(success(to, v))
    }
}
display!([TP: IProduction] Node<TP>);
impl<TP: IProduction> IProduction for Node<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(all parse);
    entry!(wrap production);
    entry!(rules);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { false }
}
impl<TP: IProduction, TF: Fn(&Vec<ASTNode<TP::Node>>, &[u8]) -> Result<(), ProductionError>> Validator<TP, TF> {
    fn parse<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> {
        let r = m.run(&*self.production, index, cache)?;
        (self.validation_fn)(&r.children, m.input())?;
        Ok(r)
    }
}
display!([TP: IProduction, TF: Fn(&Vec<ASTNode<TP::Node>>, &[u8]) -> Result<(), ProductionError>] Validator<TP, TF>);
impl<TP: IProduction, TF: Fn(&Vec<ASTNode<TP::Node>>, &[u8]) -> Result<(), ProductionError>> IProduction for Validator<TP, TF> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(all parse);
    entry!(wrap production);
    entry!(grammar production);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.production.is_nullable_n_hidden() }
}
impl<TP: IProduction> Cacheable<TP> {
    /// what the production gave at this byte before, it gives again
    fn parse<P: Copy + PartialEq, M: Mode<TP::Node, TP::Token, P = P, C = P>>(&self, m: M, index: P, cache: &mut Cache<P, TP::Node>) -> ParsedResult<P, TP::Node> {
        let at = m.byte(index);
        if at <= cache.max_parsed_point {
            if let Some(r) = cache.parsed_result_cache.get(&(self.cache_key, at)) { return r.clone(); }
        }
        let r = m.run(&*self.production, index, cache);
        reached(cache, at);
        cache.parsed_result_cache.insert((self.cache_key, at), r.clone());
        r
    }
    fn plain<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> { m.run(&*self.production, index, cache) }
}
display!([TP: IProduction] Cacheable<TP>);
impl<TP: IProduction> IProduction for Cacheable<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(fltr parse);
    entry!(tok plain);
    entry!(bytes parse);
    entry!(wrap production);
    entry!(grammar production);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.production.is_nullable_n_hidden() }
}

// ------------------------------------------------------------------ between the two token views
impl<TP: IProduction> Structural<TP> {
    fn plain<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> { m.run(&*self.production, index, cache) }
    /// parse from the first structural token at or after the pointer; go on directly after the last
    /// structural token consumed
    fn tok(&self, m: Tok<TP::Token>, i: TokenPtr, cache: &mut Cache<FltrPtr, TP::Node>) -> ParsedResult<TokenPtr, TP::Node> {
        let f = match m.stream.filtered_stream.binary_search(&i) { Ok(k) => k, Err(k) => k };
        let r = self.production.advance_fltr_ptr(m.code, FltrPtr(f), m.stream, cache)?;
        let to = if r.consumed_index.0 > f { TokenPtr(m.stream.filtered_stream[r.consumed_index.0 - 1].0 + 1) } else { i };
        Ok(success(to, r.children))
    }
}
display!([TP: IProduction] Structural<TP>);
impl<TP: IProduction> IProduction for Structural<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(fltr plain);
    entry!(tok tok);
    entry!(bytes plain);
    entry!(wrap production);
    entry!(grammar production);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.production.is_nullable_n_hidden() }
}
impl<TP: IProduction> NonStructural<TP> {
    fn plain<M: Mode<TP::Node, TP::Token>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TP::Node>) -> ParsedResult<M::P, TP::Node> { m.run(&*self.production, index, cache) }
    /// parse the tokens between the last structural one and this one; when asked to fill the range, all of them
    fn fltr(&self, m: Fltr<TP::Token>, i: FltrPtr, cache: &mut Cache<FltrPtr, TP::Node>) -> ParsedResult<FltrPtr, TP::Node> {
        let from = if i.0 == 0 { TokenPtr(0) } else { TokenPtr(m.stream.filtered_stream[i.0 - 1].0 + 1) };
        let r = self.production.advance_token_ptr(m.code, from, m.stream, cache)?;
        if self.fill_range && r.consumed_index != m.stream.filtered_stream[i.0] { return Err(ProductionError::Unparsed); }
        Ok(success(i, r.children))
    }
}
display!([TP: IProduction] NonStructural<TP>);
impl<TP: IProduction> IProduction for NonStructural<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    entry!(fltr fltr);
    entry!(tok plain);
    entry!(bytes plain);
    entry!(wrap production);
    entry!(grammar production);
    fn is_nullable(&self) -> bool { self.production.is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.production.is_nullable_n_hidden() }
}

// ------------------------------------------------------------------ terminals
/// a terminal that matched: the furthest point moves to its end, and its node covers exactly what it matched
fn token_f<TN: NodeImpl, TL: TokenImpl>(m: Fltr<TL>, i: FltrPtr, v: &Option<TN>, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<FltrPtr, TN> {
    let l = lex_f(m.stream, i);
    reached(cache, l.end);
    let t = token_of(m.stream, i);
    let mut c = Vec::new();
    if let Some(n) = v { c.push(node(n.clone(), l.start, l.end, Some((t, TokenPtr(t.0 + 1))), Vec::new())); }
    Ok(success(FltrPtr(i.0 + 1), c))
}
fn token_t<TN: NodeImpl, TL: TokenImpl>(m: Tok<TL>, i: TokenPtr, v: &Option<TN>, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<TokenPtr, TN> {
    let l = lex_t(m.stream, i);
    reached(cache, l.end);
    let mut c = Vec::new();
    if let Some(n) = v { c.push(node(n.clone(), l.start, l.end, Some((i, TokenPtr(i.0 + 1))), Vec::new())); }
    Ok(success(TokenPtr(i.0 + 1), c))
}
fn bytes_<TN: NodeImpl>(from: usize, to: usize, v: &Option<TN>, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
    reached(cache, to);
    let mut c = Vec::new();
    if let Some(n) = v { c.push(node(n.clone(), from, to, None, Vec::new())); }
    Ok(success(to, c))
}
impl<TN: NodeImpl, TL: TokenImpl> TokenField<TN, TL> {
    fn fltr(&self, m: Fltr<TL>, i: FltrPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<FltrPtr, TN> {
        if lex_f(m.stream, i).token == self.token { token_f(m, i, &self.node_value, cache) } else { Err(ProductionError::Unparsed) }
    }
    fn tok(&self, m: Tok<TL>, i: TokenPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<TokenPtr, TN> {
        if lex_t(m.stream, i).token == self.token { token_t(m, i, &self.node_value, cache) } else { Err(ProductionError::Unparsed) }
    }
}
display!([TN: NodeImpl, TL: TokenImpl] TokenField<TN, TL>);
impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenField<TN, TL> {
    type Node = TN;
    type Token = TL;
    entry!(fltr fltr);
    entry!(tok tok);
    entry!(no bytes);
    entry!(no grammar);
    entry!(leaf);
    fn is_nullable(&self) -> bool { false }
    fn is_nullable_n_hidden(&self) -> bool { false }
    fn obtain_nullability<'id>(&'id self, _: Visited<'id>) -> Nullability { Ok(false) }
    fn impl_first_set(&self, first_set: &mut HashSet<TL>) { first_set.insert(self.token); }
}
impl<TN: NodeImpl, TL: TokenImpl> TokenFieldSet<TN, TL> {
    fn fltr(&self, m: Fltr<TL>, i: FltrPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<FltrPtr, TN> {
        match self.token_set.binary_search_by_key(&lex_f(m.stream, i).token, |(t, _)| *t) {
            Ok(k) => token_f(m, i, &self.token_set[k].1, cache),
            Err(_) => Err(ProductionError::Unparsed),
        }
    }
    fn tok(&self, m: Tok<TL>, i: TokenPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<TokenPtr, TN> {
        match self.token_set.binary_search_by_key(&lex_t(m.stream, i).token, |(t, _)| *t) {
            Ok(k) => token_t(m, i, &self.token_set[k].1, cache),
            Err(_) => Err(ProductionError::Unparsed),
        }
    }
    /// sorted, so that it can be searched
    pub fn new(mut token_set: Vec<(TL, Option<TN>)>) -> Self {
        token_set.sort_by(|a, b| a.0.cmp(&b.0));
        TokenFieldSet { token_set, debugger: OnceCell::new(), rule_name: OnceCell::new() }
    }
    pub fn with_value(node_value: Option<TN>, token_set: Vec<TL>) -> Self {
        let mut v = Vec::new();
        for t in token_set { v.push((t, node_value.clone())); }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        TokenFieldSet { token_set: v, debugger: OnceCell::new(), rule_name: OnceCell::new() }
    }
}
display!([TN: NodeImpl, TL: TokenImpl] TokenFieldSet<TN, TL>);
impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenFieldSet<TN, TL> {
    type Node = TN;
    type Token = TL;
    entry!(fltr fltr);
    entry!(tok tok);
    entry!(no bytes);
    entry!(rules);
    entry!(leaf);
    fn is_nullable(&self) -> bool { false }
    fn is_nullable_n_hidden(&self) -> bool { false }
    fn obtain_nullability<'id>(&'id self, _: Visited<'id>) -> Nullability { Ok(false) }
    fn impl_first_set(&self, first_set: &mut HashSet<TL>) { for (t, _) in &self.token_set { first_set.insert(*t); } }
}
impl<TN: NodeImpl, TL: TokenImpl> NullProd<TN, TL> {
    fn parse<M: Mode<TN, TL>>(&self, m: M, index: M::P, cache: &mut Cache<M::C, TN>) -> ParsedResult<M::P, TN> { Ok(empty(m, &self.node_value, index)) }
}
display!([TN: NodeImpl, TL: TokenImpl] NullProd<TN, TL>);
impl<TN: NodeImpl, TL: TokenImpl> IProduction for NullProd<TN, TL> {
    type Node = TN;
    type Token = TL;
    entry!(all parse);
    entry!(no grammar);
    entry!(leaf);
    fn is_nullable(&self) -> bool { true }
    fn is_nullable_n_hidden(&self) -> bool { self.node_value.is_none() }
    fn obtain_nullability<'id>(&'id self, _: Visited<'id>) -> Nullability { Ok(true) }
    fn impl_first_set(&self, first_set: &mut HashSet<TL>) {}
}
impl<TN: NodeImpl, TL: TokenImpl> EOFProd<TN, TL> {
    fn end<P>(v: &Option<TN>, i: P, from: usize, to: usize, bound: Option<(TokenPtr, TokenPtr)>) -> ParsedResult<P, TN> {
        let mut c = Vec::new();
        if let Some(n) = v { c.push(node(n.clone(), from, to, bound, Vec::new())); }
        Ok(success(i, c))
    }
    fn fltr(&self, m: Fltr<TL>, i: FltrPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<FltrPtr, TN> {
        if lex_f(m.stream, i).token != TL::eof() { return Err(ProductionError::Unparsed); }
        let last = m.stream.original_stream[m.stream.original_stream.len() - 1].end;
        reached(cache, last);
        let t = token_of(m.stream, i);
        Self::end(&self.node_value, i, last, m.code.value.len(), Some((t, t)))
    }
    fn tok(&self, m: Tok<TL>, i: TokenPtr, cache: &mut Cache<FltrPtr, TN>) -> ParsedResult<TokenPtr, TN> {
        if lex_t(m.stream, i).token != TL::eof() { return Err(ProductionError::Unparsed); }
        let last = m.stream.original_stream[m.stream.original_stream.len() - 1].end;
        reached(cache, last);
        Self::end(&self.node_value, i, last, m.code.value.len(), Some((i, i)))
    }
    fn bytes(&self, m: Bytes, i: usize, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
        if i != m.code.value.len() { return Err(ProductionError::Unparsed); }
        reached(cache, i);
        Self::end(&self.node_value, i, i, i, None)
    }
}
display!([TN: NodeImpl, TL: TokenImpl] EOFProd<TN, TL>);
impl<TN: NodeImpl, TL: TokenImpl> IProduction for EOFProd<TN, TL> {
    type Node = TN;
    type Token = TL;
    entry!(fltr fltr);
    entry!(tok tok);
    entry!(bytes bytes);
    entry!(no grammar);
    entry!(leaf);
    fn is_nullable(&self) -> bool { false }
    fn is_nullable_n_hidden(&self) -> bool { false }
    fn obtain_nullability<'id>(&'id self, _: Visited<'id>) -> Nullability { Ok(false) }
    fn impl_first_set(&self, first_set: &mut HashSet<TL>) { first_set.insert(TL::eof()); }
}
macro_rules! lexerless {
    ($t:ident $($g:tt)*) => {
        display!([TN: NodeImpl, TL: TokenImpl] $t<TN, TL>);
        impl<TN: NodeImpl, TL: TokenImpl> IProduction for $t<TN, TL> {
            type Node = TN;
            type Token = TL;
            entry!(no fltr);
            entry!(no tok);
            entry!(bytes parse);
            entry!($($g)*);
            entry!(leaf);
            fn is_nullable(&self) -> bool { self.may_be_empty() }
            fn is_nullable_n_hidden(&self) -> bool { self.may_be_hidden() }
            fn obtain_nullability<'id>(&'id self, _: Visited<'id>) -> Nullability { Ok(self.may_be_empty()) }
            fn impl_first_set(&self, first_set: &mut HashSet<TL>) { panic!() }
        }
    };
}
lexerless!(ConstantField no grammar);
lexerless!(ConstantFieldSet rules);
lexerless!(PunctuationsField rules);
lexerless!(RegexField rules);
impl<TN: NodeImpl, TL: TokenImpl> ConstantField<TN, TL> {
    fn may_be_empty(&self) -> bool { self.value.len() == 0 }
    fn may_be_hidden(&self) -> bool { self.value.len() == 0 && self.node_value.is_none() }
    fn parse(&self, m: Bytes, i: usize, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
        if m.code.value[i..].starts_with(&self.value) { bytes_(i, i + self.value.len(), &self.node_value, cache) } else { Err(ProductionError::Unparsed) }
    }
}
impl<TN: NodeImpl, TL: TokenImpl> ConstantFieldSet<TN, TL> {
    fn may_be_empty(&self) -> bool { match self.fields.first() { Some(f) => f.0.len() == 0, None => false } }
    fn may_be_hidden(&self) -> bool {
        for f in &self.fields {
            if f.0.len() != 0 { return false; }
            if f.1.is_none() { return true; }
        }
        false
    }
    /// the longest that matches: they are kept in the order of their lengths
    fn parse(&self, m: Bytes, i: usize, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
        let mut k = self.fields.len();
        while k > 0 {
            k -= 1;
            if m.code.value[i..].starts_with(&self.fields[k].0) { return bytes_(i, i + self.fields[k].0.len(), &self.fields[k].1, cache); }
        }
        Err(ProductionError::Unparsed)
    }
}
impl<TN: NodeImpl, TL: TokenImpl> PunctuationsField<TN, TL> {
    fn may_be_empty(&self) -> bool { match self.values.first() { Some(f) => f.0.len() == 0, None => false } }
    fn may_be_hidden(&self) -> bool {
        for f in &self.values {
            if f.0.len() != 0 { return false; }
            if f.1.is_none() { return true; }
        }
        false
    }
    fn parse(&self, m: Bytes, i: usize, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
        match self.tree.find(&m.code.value[i..]) {
            Some((v, n)) => bytes_(i, i + n, &v, cache),
            None => Err(ProductionError::Unparsed),
        }
    }
}
impl<TN: NodeImpl, TL: TokenImpl> RegexField<TN, TL> {
    fn may_be_empty(&self) -> bool { self.regexp.is_match(b"") }
    fn may_be_hidden(&self) -> bool { self.regexp.is_match(b"") && self.node_value.is_none() }
    /// the expression is required to be anchored: a match begins where it was asked for
    fn parse(&self, m: Bytes, i: usize, cache: &mut Cache<usize, TN>) -> ParsedResult<usize, TN> {
        match self.regexp.find(&m.code.value[i..]) {
            Some(x) => bytes_(i, i + x.end(), &self.node_value, cache),
            None => Err(ProductionError::Unparsed),
        }
    }
}
// ------------------------------------------------------------------ prefix tree of punctuations
impl<T: Clone> FieldTree<T> {
    /// the longest path of the tree that the input follows and that ends in a value
    pub fn find(&self, s: &[u8]) -> Option<(T, usize)> {
        let mut best = None;
        let mut at = self;
        let mut n = 0;
        loop {
            if let Some(t) = &at.token { best = Some((t.clone(), n)); }
            if n == s.len() { return best; }
            match at.children.binary_search_by_key(&s[n], |c| c.0) {
                Ok(k) => { at = &at.children[k].1; n += 1; }
                Err(_) => return best,
            }
        }
    }
}
