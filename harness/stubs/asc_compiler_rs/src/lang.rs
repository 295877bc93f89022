//! Reading AssemblyScript: the part of it that generated programs and small analyses use.
use crate::compiler::UNSUPPORTED;
pub type R<T> = Result<T, String>;
pub fn unsupported<T>(what: impl std::fmt::Display) -> R<T> { Err(format!("{UNSUPPORTED}{what}")) }

#[derive(Debug, Clone, PartialEq)]
pub enum Tok { Id(String), Int(u64), Float(f64), Str(String), P(&'static str), End }
const PUNCT: &[&str] = &[">>>=", "===", "!==", "<<=", ">>=", ">>>", "**=", "...", "&&=", "||=", "=>", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "**", "{", "}", "(", ")", "[", "]", ";", ",", ".", ":", "?", "=", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!"];
fn lex(s: &str) -> R<Vec<(Tok, bool)>> {
    let b = s.as_bytes();
    let (mut i, mut out, mut nl) = (0, vec![], false);
    while i < b.len() {
        let c = b[i];
        if c == b'\n' { nl = true }
        if c.is_ascii_whitespace() { i += 1; continue }
        if b[i..].starts_with(b"//") { while i < b.len() && b[i] != b'\n' { i += 1 } continue }
        if b[i..].starts_with(b"/*") { let Some(e) = s[i..].find("*/") else { return Err("comment without end".into()) }; i += e + 2; continue }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') { i += 1 }
            out.push((Tok::Id(s[st..i].into()), nl));
        } else if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).is_some_and(|d| d.is_ascii_digit())) {
            let st = i;
            if b[i..].starts_with(b"0x") || b[i..].starts_with(b"0X") || b[i..].starts_with(b"0b") || b[i..].starts_with(b"0o") {
                let radix = match b[i + 1] { b'b' => 2, b'o' => 8, _ => 16 };
                i += 2;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
                match u64::from_str_radix(&s[st + 2..i].replace('_', ""), radix) { Ok(v) => out.push((Tok::Int(v), nl)), Err(_) => return Err(format!("bad number {}", &s[st..i])) }
            } else {
                let mut float = false;
                while i < b.len() {
                    let d = b[i];
                    if d.is_ascii_digit() || d == b'_' { i += 1 }
                    else if d == b'.' && !float { float = true; i += 1 }
                    else if d == b'e' || d == b'E' { float = true; i += 1; if i < b.len() && (b[i] == b'-' || b[i] == b'+') { i += 1 } }
                    else { break }
                }
                let t = s[st..i].replace('_', "");
                let tok = if float { t.parse().ok().map(Tok::Float) } else { t.parse().ok().map(Tok::Int) };
                match tok { Some(t) => out.push((t, nl)), None => return Err(format!("bad number {t}")) }
            }
            if i < b.len() && (b[i].is_ascii_alphabetic() || b[i] == b'_') { return Err("identifier after a number".into()) }
        } else if c == b'"' || c == b'\'' {
            i += 1;
            let st = i;
            while i < b.len() && b[i] != c { if b[i] == b'\\' { i += 1 } if b.get(i) == Some(&b'\n') { return Err("string without end".into()) } i += 1 }
            if i >= b.len() { return Err("string without end".into()) }
            out.push((Tok::Str(s[st..i].into()), nl));
            i += 1;
        } else if c == b'~' { out.push((Tok::P("~"), nl)); i += 1 }
        else if c == b'@' { out.push((Tok::P("@"), nl)); i += 1 }
        else if let Some(p) = PUNCT.iter().find(|p| b[i..].starts_with(p.as_bytes())) { out.push((Tok::P(p), nl)); i += p.len() }
        else if c == b'`' { return unsupported("template string") }
        else { return Err(format!("unexpected character {:?}", s[i..].chars().next())) }
        nl = false;
    }
    out.push((Tok::End, true));
    Ok(out)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Ty(pub String, pub Vec<Ty>);
#[derive(Debug, Clone)]
pub enum E {
    Int(u64), Float(f64), Str(#[allow(dead_code)] String), Bool(bool), Null, This, Id(String),
    Un(&'static str, Box<E>), Bin(&'static str, Box<E>, Box<E>), And(Box<E>, Box<E>), Or(Box<E>, Box<E>),
    /// Operator, or none.
    Set(Option<&'static str>, Box<E>, Box<E>),
    /// Before or after, and by how much.
    Inc(bool, &'static str, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>), Call(Box<E>, Vec<Ty>, Vec<E>), Super(Vec<E>), Get(Box<E>, String), New(Ty, Vec<E>), As(Box<E>, Ty),
    Comma(Box<E>, Box<E>), Nothing(Box<E>),
}
#[derive(Debug, Clone)]
pub struct Var { pub name: String, pub ty: Option<Ty>, pub init: Option<E>, pub constant: bool }
#[derive(Debug, Clone)]
pub enum S {
    Expr(E), Let(Vec<Var>), If(E, Box<S>, Option<Box<S>>), While(E, Box<S>), Do(Box<S>, E), For(Option<Box<S>>, Option<E>, Option<E>, Box<S>),
    Return(Option<E>), Break, Continue, Block(Vec<S>), Switch(E, Vec<(Option<E>, Vec<S>)>), Nothing,
}
#[derive(Debug, Clone)]
pub struct Param { pub name: String, pub ty: Ty, pub default: Option<E> }
#[derive(Debug, Clone)]
pub struct Func { pub name: String, pub generics: Vec<String>, pub params: Vec<Param>, pub ret: Ty, pub body: Option<Vec<S>>, pub export: bool, pub external: Option<(String, String)>, pub fixed: bool, pub declared: bool }
#[derive(Debug, Clone)]
pub struct Field { pub name: String, pub ty: Option<Ty>, pub init: Option<E>, pub fixed: bool, pub constant: bool }
#[derive(Debug, Clone)]
pub struct ClassDecl { pub name: String, pub base: Option<Ty>, pub fields: Vec<Field>, pub methods: Vec<Func>, pub ctor: Option<Func>, pub is_abstract: bool }
#[derive(Debug, Clone)]
pub enum D { Func(Func), Class(ClassDecl), Enum(String, Vec<(String, Option<E>)>), Global(Var, bool), Alias(String, Ty), Run(S) }

struct P { t: Vec<(Tok, bool)>, i: usize, undo: Vec<(usize, Tok)> }
const UNIT: &str = "void";
impl P {
    fn peek(&self) -> &Tok { &self.t[self.i].0 }
    fn at(&self, k: usize) -> &Tok { &self.t[(self.i + k).min(self.t.len() - 1)].0 }
    fn next(&mut self) -> Tok { let t = self.t[self.i].0.clone(); if self.i + 1 < self.t.len() { self.i += 1 } t }
    fn is(&self, p: &str) -> bool { matches!(self.peek(), Tok::P(q) if *q == p) }
    fn is_id(&self, p: &str) -> bool { matches!(self.peek(), Tok::Id(q) if q == p) }
    fn eat(&mut self, p: &str) -> bool { let y = self.is(p); if y { self.next(); } y }
    fn eat_id(&mut self, p: &str) -> bool { let y = self.is_id(p); if y { self.next(); } y }
    fn want(&mut self, p: &str) -> R<()> { if self.eat(p) { Ok(()) } else { Err(format!("expected {p}, found {:?}", self.peek())) } }
    fn id(&mut self) -> R<String> { match self.next() { Tok::Id(s) => Ok(s), t => Err(format!("expected a name, found {t:?}")) } }
    fn semi(&mut self) -> R<()> { if self.eat(";") || self.is("}") || self.t[self.i].1 { Ok(()) } else { Err(format!("expected ;, found {:?}", self.peek())) } }
    /// One `>` of possibly several.
    fn close(&mut self) -> R<()> {
        let Tok::P(p) = *self.peek() else { return Err("expected >".into()) };
        let rest = match p { ">" => { self.next(); return Ok(()) } ">>" => ">", ">>>" => ">>", ">=" => "=", _ => return Err("expected >".into()) };
        self.undo.push((self.i, Tok::P(p)));
        self.t[self.i].0 = Tok::P(rest);
        Ok(())
    }
    fn ty(&mut self) -> R<Ty> {
        if self.is("(") { return unsupported("type of functions") }
        let n = self.id()?;
        let mut a = vec![];
        if self.eat("<") { loop { a.push(self.ty()?); if !self.eat(",") { break } } self.close()? }
        if self.is("[") { return unsupported("array") }
        if self.eat("|") && !self.eat_id("null") { return unsupported("type of alternatives") }
        Ok(Ty(n, a))
    }
    fn generics(&mut self) -> R<Vec<String>> {
        let mut g = vec![];
        if self.eat("<") { loop { g.push(self.id()?); if self.eat_id("extends") { self.ty()?; } if self.is("=") { return unsupported("type parameter with a default") } if !self.eat(",") { break } } self.close()? }
        Ok(g)
    }
    fn params(&mut self) -> R<Vec<Param>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            if self.is("...") || self.is("@") { return unsupported("parameter") }
            if matches!(self.at(1), Tok::Id(_)) { return unsupported("field among parameters") }
            let name = self.id()?;
            if self.is("?") { return unsupported("optional parameter") }
            let ty = if self.eat(":") { self.ty()? } else { return Err(format!("parameter {name} without a type")) };
            let default = if self.eat("=") { Some(self.assign()?) } else { None };
            v.push(Param { name, ty, default });
            if !self.eat(",") { self.want(")")?; break }
        }
        Ok(v)
    }
    fn function(&mut self, name: String, ctor: bool) -> R<Func> {
        let generics = self.generics()?;
        let params = self.params()?;
        let ret = if self.eat(":") { self.ty()? } else if ctor || !self.is("{") { Ty(UNIT.into(), vec![]) } else { return Err(format!("function {name} without a result type")) };
        let body = if self.is("{") { Some(self.block()?) } else { self.semi()?; None };
        Ok(Func { name, generics, params, ret, body, export: false, external: None, fixed: false, declared: false })
    }
    fn block(&mut self) -> R<Vec<S>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") { if *self.peek() == Tok::End { return Err("block without end".into()) } v.push(self.stmt()?) }
        Ok(v)
    }
    fn vars(&mut self, constant: bool) -> R<Vec<Var>> {
        let mut v = vec![];
        loop {
            let name = self.id()?;
            let ty = if self.eat(":") { Some(self.ty()?) } else { None };
            let init = if self.eat("=") { Some(self.assign()?) } else { None };
            v.push(Var { name, ty, init, constant });
            if !self.eat(",") { break }
        }
        Ok(v)
    }
    fn stmt(&mut self) -> R<S> {
        if self.is("{") { return Ok(S::Block(self.block()?)) }
        if self.eat(";") { return Ok(S::Nothing) }
        let Tok::Id(k) = self.peek().clone() else { let e = self.expr()?; self.semi()?; return Ok(S::Expr(e)) };
        Ok(match &k[..] {
            "let" | "const" | "var" => { self.next(); let v = self.vars(k == "const")?; self.semi()?; S::Let(v) }
            "if" => {
                self.next(); self.want("(")?;
                let c = self.expr()?;
                self.want(")")?;
                let t = Box::new(self.stmt()?);
                let e = if self.eat_id("else") { Some(Box::new(self.stmt()?)) } else { None };
                S::If(c, t, e)
            }
            "while" => { self.next(); self.want("(")?; let c = self.expr()?; self.want(")")?; S::While(c, Box::new(self.stmt()?)) }
            "do" => { self.next(); let b = self.stmt()?; if !self.eat_id("while") { return Err("do without while".into()) } self.want("(")?; let c = self.expr()?; self.want(")")?; self.semi()?; S::Do(Box::new(b), c) }
            "for" => {
                self.next(); self.want("(")?;
                let init = if self.eat(";") { None } else {
                    let constant = self.is_id("const");
                    let s = if self.eat_id("let") || self.eat_id("const") || self.eat_id("var") { S::Let(self.vars(constant)?) } else { S::Expr(self.expr()?) };
                    if self.is_id("of") { return unsupported("for of") }
                    self.want(";")?;
                    Some(Box::new(s))
                };
                let c = if self.is(";") { None } else { Some(self.expr()?) };
                self.want(";")?;
                let n = if self.is(")") { None } else { Some(self.expr()?) };
                self.want(")")?;
                S::For(init, c, n, Box::new(self.stmt()?))
            }
            "return" => { self.next(); if self.is(";") || self.is("}") || self.t[self.i].1 { self.semi()?; S::Return(None) } else { let e = self.expr()?; self.semi()?; S::Return(Some(e)) } }
            "break" => { self.next(); if matches!(self.peek(), Tok::Id(_)) && !self.t[self.i].1 { return unsupported("label") } self.semi()?; S::Break }
            "continue" => { self.next(); if matches!(self.peek(), Tok::Id(_)) && !self.t[self.i].1 { return unsupported("label") } self.semi()?; S::Continue }
            "switch" => {
                self.next(); self.want("(")?;
                let c = self.expr()?;
                self.want(")")?; self.want("{")?;
                let mut v = vec![];
                while !self.eat("}") {
                    let l = if self.eat_id("default") { None } else if self.eat_id("case") { Some(self.expr()?) } else { return Err(format!("expected case, found {:?}", self.peek())) };
                    self.want(":")?;
                    let mut b = vec![];
                    while !self.is("}") && !self.is_id("case") && !self.is_id("default") { if *self.peek() == Tok::End { return Err("switch without end".into()) } b.push(self.stmt()?) }
                    v.push((l, b));
                }
                S::Switch(c, v)
            }
            "throw" | "try" | "function" | "class" | "type" => return unsupported(&k),
            _ => { let e = self.expr()?; self.semi()?; S::Expr(e) }
        })
    }
    fn expr(&mut self) -> R<E> { let mut e = self.assign()?; while self.eat(",") { e = E::Comma(Box::new(e), Box::new(self.assign()?)) } Ok(e) }
    fn assign(&mut self) -> R<E> {
        let l = self.cond()?;
        let Tok::P(p) = *self.peek() else { return Ok(l) };
        let op = match p { "=" => None, "+=" => Some("+"), "-=" => Some("-"), "*=" => Some("*"), "/=" => Some("/"), "%=" => Some("%"), "&=" => Some("&"), "|=" => Some("|"), "^=" => Some("^"), "<<=" => Some("<<"), ">>=" => Some(">>"), ">>>=" => Some(">>>"), "=>" | "**=" | "&&=" | "||=" => return unsupported(p), _ => return Ok(l) };
        self.next();
        Ok(E::Set(op, Box::new(l), Box::new(self.assign()?)))
    }
    fn cond(&mut self) -> R<E> {
        let c = self.binary(0)?;
        if !self.eat("?") { return Ok(c) }
        let a = self.assign()?;
        self.want(":")?;
        Ok(E::Cond(Box::new(c), Box::new(a), Box::new(self.assign()?)))
    }
    fn binary(&mut self, min: u8) -> R<E> {
        let mut l = self.unary()?;
        loop {
            if self.is_id("as") && min <= 9 { self.next(); let t = self.ty()?; l = E::As(Box::new(l), t); continue }
            if self.is_id("instanceof") { return unsupported("instanceof") }
            let Tok::P(p) = *self.peek() else { return Ok(l) };
            let prec = match p { "||" => 1, "&&" => 2, "|" => 3, "^" => 4, "&" => 5, "==" | "!=" | "===" | "!==" => 6, "<" | ">" | "<=" | ">=" => 7, "<<" | ">>" | ">>>" => 8, "+" | "-" => 10, "*" | "/" | "%" => 11, "**" => return unsupported(p), _ => return Ok(l) };
            if prec < min { return Ok(l) }
            self.next();
            let r = Box::new(self.binary(prec + 1)?);
            let b = Box::new(l);
            l = match p { "||" => E::Or(b, r), "&&" => E::And(b, r), "===" => E::Bin("==", b, r), "!==" => E::Bin("!=", b, r), _ => E::Bin(p, b, r) };
        }
    }
    fn unary(&mut self) -> R<E> {
        if let Tok::P(p) = *self.peek() {
            if ["-", "+", "!", "~"].contains(&p) { self.next(); return Ok(E::Un(p, Box::new(self.unary()?))) }
            if p == "++" || p == "--" { self.next(); return Ok(E::Inc(true, &p[..1], Box::new(self.unary()?))) }
            if p == "<" { self.next(); let t = self.ty()?; self.close()?; return Ok(E::As(Box::new(self.unary()?), t)) }
        }
        let mut e = self.primary()?;
        loop {
            if self.eat(".") { e = E::Get(Box::new(e), self.id()?) }
            else if self.is("(") { let a = self.args()?; e = E::Call(Box::new(e), vec![], a) }
            else if self.is("<") {
                // type arguments, if arguments follow
                let (at, done) = (self.i, self.undo.len());
                self.next();
                let mut a = vec![];
                let ok = loop { match self.ty() { Ok(t) => a.push(t), Err(_) => break false } if !self.eat(",") { break self.close().is_ok() && self.is("(") } };
                if !ok { self.i = at; while self.undo.len() > done { let (i, t) = self.undo.pop().unwrap(); self.t[i].0 = t } return Ok(e) }
                e = E::Call(Box::new(e), a, self.args()?);
            }
            else if self.is("[") { return unsupported("indexing") }
            else if (self.is("++") || self.is("--")) && !self.t[self.i].1 { let Tok::P(p) = self.next() else { unreachable!() }; e = E::Inc(false, &p[..1], Box::new(e)) }
            else if self.is("!") && !self.t[self.i].1 { self.next(); }
            else { return Ok(e) }
        }
    }
    fn args(&mut self) -> R<Vec<E>> {
        self.want("(")?;
        let mut v = vec![];
        while !self.eat(")") { if self.is("...") { return unsupported("spread") } v.push(self.assign()?); if !self.eat(",") { self.want(")")?; break } }
        Ok(v)
    }
    fn primary(&mut self) -> R<E> {
        Ok(match self.next() {
            Tok::Int(v) => E::Int(v),
            Tok::Float(v) => E::Float(v),
            Tok::Str(s) => E::Str(s),
            Tok::P("(") => { if self.is(")") { return unsupported("function expression") } let e = self.expr()?; if self.is(":") { return unsupported("function expression") } self.want(")")?; if self.is("=>") { return unsupported("function expression") } e }
            Tok::P("[") => return unsupported("array"),
            Tok::P("{") => return unsupported("object"),
            Tok::Id(n) => match &n[..] {
                "true" => E::Bool(true), "false" => E::Bool(false), "null" => E::Null, "this" => E::This,
                "super" => { if !self.is("(") { return unsupported("member of super") } E::Super(self.args()?) }
                "new" => { let t = self.ty()?; E::New(t, if self.is("(") { self.args()? } else { vec![] }) }
                "void" => E::Nothing(Box::new(self.unary()?)),
                "function" | "typeof" | "delete" | "in" | "await" | "yield" => return unsupported(&n),
                _ => E::Id(n),
            },
            t => return Err(format!("unexpected {t:?}")),
        })
    }
    fn class(&mut self, is_abstract: bool) -> R<ClassDecl> {
        let name = self.id()?;
        if self.is("<") { return unsupported("generic class") }
        let base = if self.eat_id("extends") { Some(self.ty()?) } else { None };
        if self.is_id("implements") { return unsupported("implements") }
        let mut c = ClassDecl { name, base, fields: vec![], methods: vec![], ctor: None, is_abstract };
        self.want("{")?;
        while !self.eat("}") {
            if self.eat(";") { continue }
            let (mut fixed, mut abs, mut constant, mut access) = (false, false, false, "");
            self.decorators()?;
            while let Tok::Id(k) = self.peek() {
                // a modifier, not a name
                if !matches!(self.at(1), Tok::Id(_)) { break }
                match &k[..] { "readonly" => constant = true, "public" | "private" | "protected" | "override" | "declare" => {} "static" => fixed = true, "abstract" => abs = true, "get" => access = "get ", "set" => access = "set ", _ => break }
                self.next();
            }
            let n = access.to_string() + &self.id()?;
            if self.is("(") || self.is("<") {
                let ctor = n == "constructor";
                let mut f = self.function(n, ctor || access == "set ")?;
                f.fixed = fixed;
                if abs != f.body.is_none() { return Err("method without a body".into()) }
                if ctor { c.ctor = Some(f) } else { c.methods.push(f) }
            } else {
                self.eat("!");
                let ty = if self.eat(":") { Some(self.ty()?) } else { None };
                let init = if self.eat("=") { Some(self.assign()?) } else { None };
                self.semi()?;
                c.fields.push(Field { name: n, ty, init, fixed, constant });
            }
        }
        Ok(c)
    }
    fn decorators(&mut self) -> R<Option<(String, String)>> {
        let mut x = None;
        while self.eat("@") {
            let n = self.id()?;
            let a = if self.is("(") { self.args()? } else { vec![] };
            match (&n[..], &a[..]) {
                ("external", [E::Str(a), E::Str(b)]) => x = Some((a.clone(), b.clone())),
                ("external", [E::Str(b)]) => x = Some(("".into(), b.clone())),
                ("inline" | "unsafe" | "final" | "lazy" | "global", []) => {}
                _ => return unsupported(format!("decorator {n}")),
            }
        }
        Ok(x)
    }
    fn decl(&mut self, out: &mut Vec<D>) -> R<()> {
        let external = self.decorators()?;
        let (mut export, mut declared, mut is_abstract) = (false, false, false);
        loop {
            if self.is_id("export") { self.next(); export = true; if self.is("{") || self.is("*") || self.is_id("default") || self.is_id("import") { return unsupported("export") } }
            else if self.is_id("declare") { self.next(); declared = true }
            else if self.is_id("abstract") && matches!(self.at(1), Tok::Id(_)) { self.next(); is_abstract = true }
            else { break }
        }
        if self.eat_id("function") {
            let n = self.id()?;
            let mut f = self.function(n, false)?;
            f.export = export; f.external = external; f.declared = declared;
            if declared != f.body.is_none() { return Err(format!("function {} without a body, or declared with one", f.name)) }
            out.push(D::Func(f));
        } else if self.eat_id("class") { out.push(D::Class(self.class(is_abstract)?)) }
        else if self.is_id("enum") || (self.is_id("const") && matches!(self.at(1), Tok::Id(k) if k == "enum")) {
            self.eat_id("const"); self.next();
            let n = self.id()?;
            self.want("{")?;
            let mut v = vec![];
            while !self.eat("}") { let m = self.id()?; let e = if self.eat("=") { Some(self.assign()?) } else { None }; v.push((m, e)); if !self.eat(",") { self.want("}")?; break } }
            out.push(D::Enum(n, v));
        } else if self.is_id("let") || self.is_id("const") || self.is_id("var") {
            if declared { return unsupported("declared variable") }
            let c = self.next() == Tok::Id("const".into());
            let v = self.vars(c)?;
            self.semi()?;
            out.extend(v.into_iter().map(|v| D::Global(v, export)));
        } else if self.is_id("type") && matches!(self.at(1), Tok::Id(_)) {
            self.next();
            let n = self.id()?;
            if self.is("<") { return unsupported("generic alias") }
            self.want("=")?;
            let t = self.ty()?;
            self.semi()?;
            out.push(D::Alias(n, t));
        } else if export || declared || is_abstract || self.is_id("import") || self.is_id("namespace") || (self.is_id("interface") && matches!(self.at(1), Tok::Id(_))) { return unsupported(format!("declaration {:?}", self.peek())) }
        else { let s = self.stmt()?; if !matches!(s, S::Nothing) { out.push(D::Run(s)) } }
        Ok(())
    }
}
pub fn parse(s: &str) -> R<Vec<D>> {
    let mut p = P { t: lex(s)?, i: 0, undo: vec![] };
    let mut out = vec![];
    while *p.peek() != Tok::End { p.decl(&mut out)? }
    Ok(out)
}
