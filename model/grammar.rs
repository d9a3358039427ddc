//! What the printed grammar contains: every rule once, every alternative of it, then the rules below it.
//! Marks are compared, white space is not.
use crate::prods::symbols;
use crate::types::*;
use std::collections::HashSet;
use std::fmt::{Display, Formatter, Write};

type W<'w> = &'w mut dyn Write;
type Rules<'r> = &'r mut HashSet<&'static str>;
type R = Result<(), std::fmt::Error>;

/// the mark before alternative number `n`
fn mark(w: W, n: usize) -> R { if n == 0 { write!(w, ":") } else { write!(w, "|") } }

impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if !rules.insert(self.nt_helper.identifier) { return Ok(()); }
        write!(w, "{}:", self.nt_helper.identifier)?;
        for p in symbols(&self.symbols) { write!(w, "{}", p)?; }
        write!(w, ";")?;
        for p in symbols(&self.symbols) { p.impl_grammar(w, rules)?; }
        Ok(())
    }
}
impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if !rules.insert(self.nt_helper.identifier) { return Ok(()); }
        write!(w, "{}", self.nt_helper.identifier)?;
        for (n, p) in symbols(&self.symbols).iter().enumerate() { mark(w, n)?; write!(w, "{}", p)?; }
        write!(w, ";")?;
        for p in symbols(&self.symbols) { p.impl_grammar(w, rules)?; }
        Ok(())
    }
}
impl<TP: IProduction> Suffixes<TP> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if !rules.insert(self.nt_helper.identifier) { return Ok(()); }
        write!(w, "{}:", self.nt_helper.identifier)?;
        for (n, (p, v)) in symbols(&self.suffixes).iter().enumerate() {
            if n > 0 { write!(w, "|")?; }
            write!(w, "[{} {}; @{:?}]", self.left, p, v)?;
        }
        if self.standalone { write!(w, "|{}", self.left)?; }
        write!(w, ";")?;
        self.left.impl_grammar(w, rules)?;
        for (p, _) in symbols(&self.suffixes) { p.impl_grammar(w, rules)?; }
        Ok(())
    }
}
impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> SeparatedList<TP, TS> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if let Some(s) = self.rule_name.get() {
            if rules.insert(*s) {
                write!(w, "{}: {} ({} {})*", s, self.production, self.separator, self.production)?;
                if self.inclusive { write!(w, "({})?", self.separator)?; }
                write!(w, ";")?;
            }
        }
        self.production.impl_grammar(w, rules)?;
        self.separator.impl_grammar(w, rules)
    }
}
impl<TP: IProduction> Node<TP> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if let Some(s) = self.rule_name.get() {
            if rules.insert(*s) { write!(w, "{}: [{}; @{:?}];", s, self.production, self.node_value)?; }
        }
        self.production.impl_grammar(w, rules)
    }
}
impl<TP: IProduction> Hidden<TP> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if let Some(s) = self.rule_name.get() {
            if rules.insert(*s) { write!(w, "{}: [{};];", s, self.production)?; }
        }
        self.production.impl_grammar(w, rules)
    }
}
impl<TN: NodeImpl, TL: TokenImpl> TokenFieldSet<TN, TL> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if let Some(s) = self.rule_name.get() {
            if rules.insert(*s) {
                let mut all = Vec::new();
                for (t, v) in &self.token_set { all.push(match v { Some(n) => format!("[&{:?}; {:?}]", t, n), None => format!("[&{:?}; ]", t) }); }
                write!(w, "{}: {};", s, all.join("|"))?;
            }
        }
        Ok(())
    }
}
impl<TN: NodeImpl, TL: TokenImpl> ConstantFieldSet<TN, TL> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if let Some(s) = self.rule_name.get() {
            if rules.insert(*s) {
                let mut all = Vec::new();
                for (t, v) in self.fields.iter().rev() { let t = String::from_utf8_lossy(t); all.push(match v { Some(n) => format!("[{:?}; {:?}]", t, n), None => format!("[{:?}; ]", t) }); }
                write!(w, "{}: {};", s, all.join("|"))?;
            }
        }
        Ok(())
    }
}
impl<TN: NodeImpl, TL: TokenImpl> PunctuationsField<TN, TL> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if let Some(s) = self.rule_name.get() {
            if rules.insert(*s) {
                let mut all = Vec::new();
                for (t, v) in self.values.iter().rev() { all.push(match v { Some(n) => format!("[{:?}; {:?}]", t, n), None => format!("[{:?}; ]", t) }); }
                write!(w, "{}: {};", s, all.join("|"))?;
            }
        }
        Ok(())
    }
}
impl<TN: NodeImpl, TL: TokenImpl> RegexField<TN, TL> {
    pub fn rules(&self, w: W, rules: Rules) -> R {
        if let Some(s) = self.rule_name.get() {
            if rules.insert(*s) {
                let text = self.regexp.as_str().replace('/', "\\/");
                write!(w, "{}", s)?;
                match &self.node_value { Some(n) => write!(w, ": [/{}/; {:?}]", text, n)?, None => write!(w, ": [/{}/; ]", text)? }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ how a production is referred to
type F<'a, 'b> = &'a mut Formatter<'b>;

impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> { pub fn shown(&self, f: F) -> R { write!(f, "{}", self.nt_helper.identifier) } }
impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> { pub fn shown(&self, f: F) -> R { write!(f, "{}", self.nt_helper.identifier) } }
impl<TP: IProduction> Suffixes<TP> { pub fn shown(&self, f: F) -> R { write!(f, "{}", self.nt_helper.identifier) } }
impl<TP: IProduction> List<TP> { pub fn shown(&self, f: F) -> R { write!(f, "{}+", self.symbol) } }
impl<TP: IProduction> Nullable<TP> { pub fn shown(&self, f: F) -> R { write!(f, "({})?", self.symbol) } }
impl<TP: IProduction> Lookahead<TP> { pub fn shown(&self, f: F) -> R { write!(f, "?={}", self.production) } }
impl<TP: IProduction> Cacheable<TP> { pub fn shown(&self, f: F) -> R { write!(f, "<{}>", self.production) } }
impl<TP: IProduction> Structural<TP> { pub fn shown(&self, f: F) -> R { write!(f, "%{}%", self.production) } }
impl<TP: IProduction> NonStructural<TP> { pub fn shown(&self, f: F) -> R { write!(f, "%{}%", self.production) } }
impl<TP: IProduction, TF: Fn(&Vec<ASTNode<TP::Node>>, &[u8]) -> Result<(), ProductionError>> Validator<TP, TF> {
    pub fn shown(&self, f: F) -> R { write!(f, "{{{}}}", self.production) }
}
impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> SeparatedList<TP, TS> {
    pub fn shown(&self, f: F) -> R {
        if let Some(s) = self.rule_name.get() { return write!(f, "{}", s); }
        write!(f, "{} ({} {})*", self.production, self.separator, self.production)?;
        if self.inclusive { write!(f, "({})?", self.separator)?; }
        Ok(())
    }
}
impl<TP: IProduction> Hidden<TP> {
    pub fn shown(&self, f: F) -> R {
        match self.rule_name.get() { Some(s) => write!(f, "{}", s), None => write!(f, "[{};]", self.production) }
    }
}
impl<TP: IProduction> Node<TP> {
    pub fn shown(&self, f: F) -> R {
        match self.rule_name.get() { Some(s) => write!(f, "{}", s), None => write!(f, "[{}; @{:?}]", self.production, self.node_value) }
    }
}
impl<TN: NodeImpl, TL: TokenImpl> EOFProd<TN, TL> { pub fn shown(&self, f: F) -> R { write!(f, "EOF") } }
impl<TN: NodeImpl, TL: TokenImpl> NullProd<TN, TL> { pub fn shown(&self, f: F) -> R { write!(f, "''") } }
impl<TN: NodeImpl, TL: TokenImpl> TokenField<TN, TL> {
    pub fn shown(&self, f: F) -> R {
        match &self.node_value { Some(n) => write!(f, "[&{:?}; {:?}]", self.token, n), None => write!(f, "[&{:?}; ]", self.token) }
    }
}
impl<TN: NodeImpl, TL: TokenImpl> ConstantField<TN, TL> {
    pub fn shown(&self, f: F) -> R {
        let text = String::from_utf8_lossy(&self.value);
        match &self.node_value { Some(n) => write!(f, "[{:?}; {:?}]", text, n), None => write!(f, "[{:?}; ]", text) }
    }
}
impl<TN: NodeImpl, TL: TokenImpl> TokenFieldSet<TN, TL> {
    pub fn shown(&self, f: F) -> R {
        if let Some(s) = self.rule_name.get() { return write!(f, "{}", s); }
        let mut all = Vec::new();
        for (t, v) in &self.token_set { all.push(match v { Some(n) => format!("[&{:?}; {:?}]", t, n), None => format!("[&{:?}; ]", t) }); }
        write!(f, "({})", all.join("|"))
    }
}
impl<TN: NodeImpl, TL: TokenImpl> ConstantFieldSet<TN, TL> {
    pub fn shown(&self, f: F) -> R {
        if let Some(s) = self.rule_name.get() { return write!(f, "{}", s); }
        let mut all = Vec::new();
        for (t, v) in self.fields.iter().rev() { let t = String::from_utf8_lossy(t); all.push(match v { Some(n) => format!("[{:?}; {:?}]", t, n), None => format!("[{:?}; ]", t) }); }
        write!(f, "({})", all.join("|"))
    }
}
impl<TN: NodeImpl, TL: TokenImpl> PunctuationsField<TN, TL> {
    pub fn shown(&self, f: F) -> R {
        if let Some(s) = self.rule_name.get() { return write!(f, "{}", s); }
        let mut all = Vec::new();
        for (t, v) in self.values.iter().rev() { all.push(match v { Some(n) => format!("[{:?}; {:?}]", t, n), None => format!("[{:?}; ]", t) }); }
        write!(f, "({})", all.join("|"))
    }
}
impl<TN: NodeImpl, TL: TokenImpl> RegexField<TN, TL> {
    pub fn shown(&self, f: F) -> R {
        match self.rule_name.get() { Some(s) => write!(f, "{}", s), None => write!(f, "/{}/", self.regexp.as_str().replace('/', "\\/")) }
    }
}
impl Display for TokenPtr { fn fmt(&self, f: F) -> R { write!(f, "{}", self.0) } }
impl Display for FltrPtr { fn fmt(&self, f: F) -> R { write!(f, "{}", self.0) } }
impl Display for ParseError { fn fmt(&self, f: F) -> R { write!(f, "SyntaxError: {}", self.message) } }
impl Display for ImplementationError { fn fmt(&self, f: F) -> R { write!(f, "ImplementationError: {}-{}", self.what, self.message) } }
impl Display for Position {
    fn fmt(&self, f: F) -> R { f.debug_struct("").field("line", &self.line).field("column", &self.column).finish() }
}
impl<T: std::fmt::Debug> std::fmt::Debug for ASTNode<T> {
    fn fmt(&self, f: F) -> R {
        let mut d = f.debug_struct("ASTNode");
        d.field("token", &self.node).field("start", &self.start).field("end", &self.end);
        if self.children.len() > 0 { d.field("children", &self.children); }
        d.finish()
    }
}
impl<T: std::fmt::Debug> Display for ASTNode<T> {
    fn fmt(&self, f: F) -> R {
        let inner = self.children.iter().map(|c| format!("{}", c));
        f.debug_struct("").field("value", &(&self.node, &self.start, &self.end)).field("children", &inner).finish()
    }
}
impl<T: std::fmt::Debug + Clone> TreeItem for ASTNode<T> {
    type Child = Self;
    fn write_self<W: std::io::Write>(&self, f: &mut W, _: &Style) -> std::io::Result<()> { write!(f, "{:?} # {}-{}", self.node, self.start, self.end) }
    fn children(&self) -> std::borrow::Cow<[Self]> { std::borrow::Cow::Borrowed(&self.children) }
}
impl<T: std::fmt::Debug> Display for Lex<T> {
    fn fmt(&self, f: F) -> R { f.debug_tuple("").field(&self.token).field(&self.start).field(&self.end).finish() }
}
impl<T: Display> Display for Log<T> {
    fn fmt(&self, f: F) -> R {
        match self { Log::None => Ok(()), Log::Default(x) => write!(f, "{}", x), Log::Success(x) => write!(f, "{}", x), Log::Result(x) => write!(f, "{}", x), Log::Verbose(x) => write!(f, "{}", x) }
    }
}
