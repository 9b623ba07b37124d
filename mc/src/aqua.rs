//! Interpreter for the Aqua API. Runs the scripts of /repo/aqua on a `Net`; every argument and result of a
//! service call must have the declared type.
use crate::net::*;
use marine_rs_sdk::SecurityTetraplet;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

// ---------------------------------------------------------------- text

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(u64),
    Str(String),
    P(&'static str),
}
#[derive(Clone, Debug)]
struct Tok {
    t: T,
    /// directly after the previous token
    glued: bool,
}
#[derive(Debug)]
struct Line {
    no: usize,
    toks: Vec<Tok>,
    kids: Vec<Line>,
}
const PUNCT: &[&str] = &["<<-", "<-", "<=", ">=", "==", "!=", "&&", "||", "->", "**", "(", ")", "[", "]", "{", "}", ",", ":", ".", "!", "=", "<", ">", "+", "-", "*", "/", "%", "?", "$"];
fn lex(s: &str, no: usize) -> Vec<Tok> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    let mut glued = false;
    'o: while i < b.len() {
        if b[i].is_ascii_whitespace() {
            i += 1;
            glued = false;
            continue;
        }
        if s[i..].starts_with("--") {
            break;
        }
        if b[i] == b'"' {
            let e = s[i + 1..].find('"').unwrap_or_else(|| unsupported(&format!("Aqua line {no}: open string")));
            out.push(Tok { t: T::Str(s[i + 1..i + 1 + e].into()), glued });
            i += e + 2;
            glued = true;
            continue;
        }
        if b[i].is_ascii_alphabetic() || b[i] == b'_' {
            let mut e = i;
            while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'_') {
                e += 1;
            }
            out.push(Tok { t: T::Id(s[i..e].into()), glued });
            i = e;
            glued = true;
            continue;
        }
        if b[i].is_ascii_digit() {
            let mut e = i;
            while e < b.len() && b[e].is_ascii_digit() {
                e += 1;
            }
            out.push(Tok { t: T::Num(s[i..e].parse().unwrap_or_else(|_| unsupported("Aqua number"))), glued });
            i = e;
            glued = true;
            continue;
        }
        for p in PUNCT {
            if s[i..].starts_with(p) {
                out.push(Tok { t: T::P(p), glued });
                i += p.len();
                glued = true;
                continue 'o;
            }
        }
        unsupported(&format!("Aqua line {no}: {}", &s[i..]));
    }
    out
}
fn tree(src: &str) -> Vec<Line> {
    let mut flat: Vec<(usize, Line)> = vec![];
    let mut depth = 0i64;
    for (k, l) in src.lines().enumerate() {
        let toks = lex(l, k + 1);
        if toks.is_empty() {
            continue;
        }
        let delta: i64 = toks
            .iter()
            .map(|t| match t.t {
                T::P("(") | T::P("[") | T::P("{") => 1,
                T::P(")") | T::P("]") | T::P("}") => -1,
                _ => 0,
            })
            .sum();
        if depth > 0 {
            flat.last_mut().unwrap().1.toks.extend(toks);
        } else {
            let indent = l.len() - l.trim_start().len();
            flat.push((indent, Line { no: k + 1, toks, kids: vec![] }));
        }
        depth += delta;
    }
    fn nest(it: &mut std::iter::Peekable<std::vec::IntoIter<(usize, Line)>>, min: usize) -> Vec<Line> {
        let mut out: Vec<Line> = vec![];
        let Some(first) = it.peek().map(|x| x.0) else { return out };
        if first < min {
            return out;
        }
        while let Some((ind, _)) = it.peek() {
            let ind = *ind;
            if ind < first {
                break;
            }
            if ind > first {
                let kids = nest(it, first + 1);
                out.last_mut().unwrap().kids.extend(kids);
                continue;
            }
            out.push(it.next().unwrap().1);
        }
        out
    }
    let mut it = flat.into_iter().peekable();
    nest(&mut it, 0)
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Named(String),
    Arr(Box<Ty>),
    Opt(Box<Ty>),
    Stream(Box<Ty>),
}
#[derive(Debug)]
enum E {
    Lit(Value),
    Var(String),
    Field(Box<E>, String),
    Index(Box<E>, Box<E>),
    Un(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Call(String, Vec<E>),
    Service(String, String, Vec<E>),
    Record(Vec<(String, E)>),
    List(Vec<E>),
}
#[derive(Debug)]
enum St {
    On(E, Vec<St>),
    If(Vec<(E, Vec<St>)>, Vec<St>),
    For(String, E, Vec<St>),
    Try(Vec<St>, Option<(String, Vec<St>)>),
    Both(Vec<St>, Vec<St>),
    Let(Vec<String>, E),
    Decl(String, Ty),
    Push(String, E),
    Do(E),
    Bind(String, E),
    Return(Vec<E>),
}
#[derive(Debug)]
struct Func {
    params: Vec<(String, Ty)>,
    ret: Vec<Ty>,
    body: Vec<St>,
}
#[derive(Debug, Default)]
struct Sv {
    id: Option<String>,
    fns: BTreeMap<String, (Vec<(String, Ty)>, Option<Ty>)>,
}
#[derive(Default)]
pub struct Aqua {
    data: BTreeMap<String, Vec<(String, Ty)>>,
    alias: BTreeMap<String, Ty>,
    consts: BTreeMap<String, E>,
    svcs: BTreeMap<String, Sv>,
    funcs: BTreeMap<String, Func>,
    files: BTreeSet<String>,
    exported: BTreeSet<String>,
    renamed: BTreeMap<String, String>,
    modules: BTreeSet<String>,
}

struct Ps<'a> {
    t: &'a [Tok],
    i: usize,
    no: usize,
}
impl<'a> Ps<'a> {
    fn bad(&self, what: &str) -> ! {
        unsupported(&format!("Aqua line {}: {what}", self.no))
    }
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i).map(|t| &t.t)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(T::P(q)) if *q == p)
    }
    fn word(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Id(q)) if q == w)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p) || self.word(p);
        if r {
            self.i += 1;
        }
        r
    }
    fn want(&mut self, p: &str) {
        if !self.eat(p) {
            self.bad(&format!("{p} expected"))
        }
    }
    fn id(&mut self) -> String {
        match self.peek() {
            Some(T::Id(s)) => {
                self.i += 1;
                s.clone()
            }
            _ => self.bad("a name was expected"),
        }
    }
    fn end(&self) {
        if self.i != self.t.len() {
            self.bad("unexpected text")
        }
    }
    fn ty(&mut self) -> Ty {
        if self.eat("[") {
            self.want("]");
            return Ty::Arr(Box::new(self.ty()));
        }
        if self.eat("?") {
            return Ty::Opt(Box::new(self.ty()));
        }
        if self.eat("*") {
            return Ty::Stream(Box::new(self.ty()));
        }
        Ty::Named(self.id())
    }
    fn params(&mut self) -> Vec<(String, Ty)> {
        self.want("(");
        let mut v = vec![];
        while !self.eat(")") {
            let n = self.id();
            self.want(":");
            v.push((n, self.ty()));
            if !self.is(")") {
                self.want(",");
            }
        }
        v
    }
    fn exprs(&mut self, close: &str) -> Vec<E> {
        let mut v = vec![];
        while !self.eat(close) {
            v.push(self.expr());
            if !self.is(close) {
                self.want(",");
            }
        }
        v
    }
    fn expr(&mut self) -> E {
        self.bin(0)
    }
    fn bin(&mut self, level: usize) -> E {
        const L: &[&[&'static str]] = &[&["||"], &["&&"], &["==", "!="], &["<=", ">=", "<", ">"], &["+", "-"], &["*", "/", "%"]];
        if level == L.len() {
            return self.unary();
        }
        let mut a = self.bin(level + 1);
        while let Some(op) = L[level].iter().find(|o| self.is(o)) {
            self.i += 1;
            let b = self.bin(level + 1);
            a = E::Bin(op, Box::new(a), Box::new(b));
        }
        a
    }
    fn unary(&mut self) -> E {
        if self.eat("!") {
            return E::Un("!", Box::new(self.unary()));
        }
        if self.is("-") {
            self.bad("negative number")
        }
        self.postfix()
    }
    fn postfix(&mut self) -> E {
        let mut e = match self.peek() {
            Some(T::Num(n)) => {
                self.i += 1;
                E::Lit(json!(n))
            }
            Some(T::Str(s)) => {
                self.i += 1;
                E::Lit(json!(s))
            }
            Some(T::P("(")) => {
                self.i += 1;
                let e = self.expr();
                self.want(")");
                e
            }
            Some(T::P("[")) => {
                self.i += 1;
                E::List(self.exprs("]"))
            }
            Some(T::P(o @ ("?" | "*"))) => {
                let _ = o;
                self.i += 1;
                self.want("[");
                E::List(self.exprs("]"))
            }
            Some(T::Id(s)) => {
                self.i += 1;
                match s.as_str() {
                    "true" => E::Lit(json!(true)),
                    "false" => E::Lit(json!(false)),
                    "nil" => E::Lit(json!([])),
                    _ => {
                        let upper = s.starts_with(|c: char| c.is_ascii_uppercase());
                        let konst = s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_');
                        if self.is("(") {
                            self.i += 1;
                            if upper {
                                let mut v = vec![];
                                while !self.eat(")") {
                                    let n = self.id();
                                    let x = if self.eat("=") { self.expr() } else { E::Var(n.clone()) };
                                    v.push((n, x));
                                    if !self.is(")") {
                                        self.want(",");
                                    }
                                }
                                E::Record(v)
                            } else {
                                E::Call(s.clone(), self.exprs(")"))
                            }
                        } else if upper && !konst && self.is(".") {
                            self.i += 1;
                            let f = self.id();
                            self.want("(");
                            E::Service(s.clone(), f, self.exprs(")"))
                        } else {
                            E::Var(s.clone())
                        }
                    }
                }
            }
            _ => self.bad("a value was expected"),
        };
        loop {
            let glued = self.t.get(self.i).map_or(false, |t| t.glued);
            if self.is(".") {
                self.i += 1;
                let n = self.id();
                if self.is("(") {
                    self.bad("method call")
                }
                e = E::Field(Box::new(e), n);
            } else if self.is("!") && glued {
                self.i += 1;
                let ix = match self.t.get(self.i) {
                    Some(Tok { t: T::Num(n), glued: true }) => {
                        self.i += 1;
                        E::Lit(json!(n))
                    }
                    Some(Tok { t: T::Id(n), glued: true }) => {
                        self.i += 1;
                        E::Var(n.clone())
                    }
                    _ => E::Lit(json!(0)),
                };
                e = E::Index(Box::new(e), Box::new(ix));
            } else if self.is("[") && glued {
                self.i += 1;
                let ix = self.expr();
                self.want("]");
                e = E::Index(Box::new(e), Box::new(ix));
            } else {
                return e;
            }
        }
    }
}

fn block(lines: &[Line]) -> Vec<St> {
    let mut out: Vec<St> = vec![];
    for l in lines {
        stmt(&l.toks, l, &mut out);
    }
    out
}
fn stmt(toks: &[Tok], l: &Line, out: &mut Vec<St>) {
    let mut p = Ps { t: toks, i: 0, no: l.no };
    let kids = || block(&l.kids);
    let first = match p.peek() {
        Some(T::Id(s)) => s.as_str(),
        _ => "",
    };
    match first {
        "on" => {
            p.i += 1;
            let e = p.expr();
            while p.eat("via") {
                p.expr();
            }
            p.want(":");
            p.end();
            return out.push(St::On(e, kids()));
        }
        "if" => {
            p.i += 1;
            let e = p.expr();
            p.want(":");
            p.end();
            return out.push(St::If(vec![(e, kids())], vec![]));
        }
        "else" => {
            p.i += 1;
            let Some(St::If(arms, other)) = out.last_mut() else { p.bad("else without if") };
            if p.eat("if") {
                let e = p.expr();
                p.want(":");
                arms.push((e, block(&l.kids)));
            } else {
                p.want(":");
                *other = block(&l.kids);
            }
            return p.end();
        }
        "for" => {
            p.i += 1;
            let n = p.id();
            p.want("<-");
            let e = p.expr();
            let lenient = p.eat("par") || p.eat("try") || p.eat("parsec");
            if p.word("rec") {
                p.bad("kind of loop")
            }
            p.want(":");
            p.end();
            let body = if lenient { vec![St::Try(kids(), None)] } else { kids() };
            return out.push(St::For(n, e, body));
        }
        "try" => {
            p.i += 1;
            p.want(":");
            p.end();
            return out.push(St::Try(kids(), None));
        }
        "catch" | "otherwise" => {
            p.i += 1;
            let n = if first == "catch" { p.id() } else { "_".into() };
            p.want(":");
            p.end();
            match out.pop() {
                Some(St::Try(b, None)) => out.push(St::Try(b, Some((n, kids())))),
                Some(prev) if first == "otherwise" => out.push(St::Try(vec![prev], Some((n, kids())))),
                _ => p.bad("catch without try"),
            }
            return;
        }
        "par" => {
            p.i += 1;
            let mut b = vec![];
            stmt(&toks[1..], l, &mut b);
            let a = out.pop().map_or(vec![], |s| vec![s]);
            return out.push(St::Both(a, b));
        }
        "co" => {
            let mut b = vec![];
            stmt(&toks[1..], l, &mut b);
            return out.push(St::Both(vec![], b));
        }
        "parseq" | "join" | "use" => p.bad(first),
        _ => {}
    }
    if p.eat("<-") {
        let mut v = vec![p.expr()];
        while p.eat(",") {
            v.push(p.expr());
        }
        p.end();
        return out.push(St::Return(v));
    }
    // names on the left
    let mark = p.i;
    if let Some(T::Id(n)) = p.peek() {
        p.i += 1;
        if p.eat(":") {
            let t = p.ty();
            p.end();
            return out.push(St::Decl(n.clone(), t));
        }
        if p.eat("<<-") {
            let e = p.expr();
            p.end();
            return out.push(St::Push(n.clone(), e));
        }
        if p.eat("=") {
            let e = p.expr();
            p.end();
            return out.push(St::Let(vec![n.clone()], e));
        }
        let mut names = vec![n.clone()];
        while p.eat(",") {
            names.push(p.id());
        }
        if p.eat("<-") {
            let e = p.expr();
            p.end();
            return out.push(St::Let(names, e));
        }
        if names.len() == 1 && n.starts_with(|c: char| c.is_ascii_uppercase()) && !p.is(".") && !p.is("(") && p.peek().is_some() {
            let e = p.expr();
            p.end();
            return out.push(St::Bind(n.clone(), e));
        }
    }
    p.i = mark;
    let e = p.expr();
    p.end();
    out.push(St::Do(e));
}

const BUILTIN: &str = r#"
alias PeerId: string
alias Bytes: []u8
data SignResult:
  success: bool
  error: ?string
  signature: ?[]u8
service Sig("sig"):
  sign(data: []u8) -> SignResult
  get_peer_id() -> string
service Peer("peer"):
  timestamp_sec() -> u64
  timestamp_ms() -> u64
service Op("op"):
  noop()
  identity(s: ?string) -> ?string
"#;

impl Aqua {
    /// Load a file and what it imports. `edit` may exchange literals.
    pub fn load(dir: &str, file: &str, edit: &dyn Fn(String) -> String) -> Result<Aqua, String> {
        let mut a = Aqua::default();
        a.file(dir, file, edit, true)?;
        Ok(a)
    }
    fn file(&mut self, dir: &str, file: &str, edit: &dyn Fn(String) -> String, top: bool) -> Result<(), String> {
        // the package of this repository
        let (dir, file) = match file.strip_prefix("@fluencelabs/trust-graph/") {
            Some(f) => ("/repo/aqua", f),
            None => (dir, file),
        };
        if !self.files.insert(if file.starts_with('@') { file.to_string() } else { format!("{dir}/{file}") }) {
            return Ok(());
        }
        let src = if file.starts_with("@fluencelabs/aqua-lib/") {
            BUILTIN.to_string()
        } else if file.starts_with('@') || file.contains('/') {
            unsupported(&format!("import of {file}"))
        } else {
            edit(std::fs::read_to_string(format!("{dir}/{file}")).map_err(|e| format!("{file}: {e}"))?)
        };
        for l in tree(&src) {
            let mut p = Ps { t: &l.toks, i: 0, no: l.no };
            match p.id().as_str() {
                "aqua" | "module" => {}
                "export" => {
                    if top {
                        for t in &l.toks[1..] {
                            if let T::Id(n) = &t.t {
                                self.exported.insert(n.clone());
                            }
                        }
                    }
                }
                "import" | "use" => {
                    let uses = l.toks[0].t == T::Id("use".into());
                    for w in l.toks.windows(3) {
                        match (&w[0].t, &w[1].t, &w[2].t) {
                            (T::Id(a), T::Id(m), T::Id(b)) if m == "as" => {
                                self.renamed.insert(b.clone(), a.clone());
                            }
                            (T::Str(_), T::Id(m), T::Id(b)) if m == "as" && uses => {
                                self.modules.insert(b.clone());
                            }
                            _ => {}
                        }
                    }
                    let Some(f) = l.toks.iter().find_map(|t| if let T::Str(s) = &t.t { Some(s.clone()) } else { None }) else { p.bad("import") };
                    self.file(dir, &f, edit, false)?;
                }
                "alias" => {
                    let n = p.id();
                    p.want(":");
                    let t = p.ty();
                    p.end();
                    self.alias.insert(n, t);
                }
                "const" => {
                    let n = p.id();
                    p.want("=");
                    let e = p.expr();
                    p.end();
                    self.consts.insert(n, e);
                }
                "data" => {
                    let n = p.id();
                    p.want(":");
                    p.end();
                    let mut fs = vec![];
                    for k in &l.kids {
                        let mut p = Ps { t: &k.toks, i: 0, no: k.no };
                        let n = p.id();
                        p.want(":");
                        fs.push((n, p.ty()));
                        p.end();
                    }
                    self.data.insert(n, fs);
                }
                "service" => {
                    let n = p.id();
                    let mut s = Sv::default();
                    if p.eat("(") {
                        let Some(T::Str(id)) = p.peek() else { p.bad("service id") };
                        s.id = Some(id.clone());
                        p.i += 1;
                        p.want(")");
                    }
                    p.want(":");
                    p.end();
                    for k in &l.kids {
                        let mut p = Ps { t: &k.toks, i: 0, no: k.no };
                        let f = p.id();
                        let ps = p.params();
                        let r = if p.eat("->") { Some(p.ty()) } else { None };
                        p.end();
                        s.fns.insert(f, (ps, r));
                    }
                    self.svcs.insert(n, s);
                }
                "func" => {
                    let n = p.id();
                    let params = p.params();
                    let mut ret = vec![];
                    if p.eat("->") {
                        ret.push(p.ty());
                        while p.eat(",") {
                            ret.push(p.ty());
                        }
                    }
                    p.want(":");
                    p.end();
                    self.funcs.insert(n, Func { params, ret, body: block(&l.kids) });
                }
                x => p.bad(x),
            }
        }
        Ok(())
    }
    pub fn exported(&self) -> Vec<String> {
        self.exported.iter().cloned().collect()
    }
    pub fn has(&self, f: &str) -> bool {
        self.funcs.contains_key(f)
    }
    /// declared functions of a service
    pub fn declared(&self, svc: &str) -> Vec<(String, usize)> {
        self.svcs.get(svc).map_or(vec![], |s| s.fns.iter().map(|(n, f)| (n.clone(), f.0.len())).collect())
    }
    fn conforms(&self, t: &Ty, v: &Value) -> bool {
        match t {
            Ty::Arr(t) | Ty::Stream(t) => v.as_array().map_or(false, |a| a.iter().all(|x| self.conforms(t, x))),
            Ty::Opt(t) => v.as_array().map_or(false, |a| a.iter().all(|x| self.conforms(t, x))),
            Ty::Named(n) => {
                if let Some(t) = self.alias.get(n) {
                    return self.conforms(t, v);
                }
                if let Some(fs) = self.data.get(n) {
                    return v.is_object() && fs.iter().all(|(f, t)| v.get(f).map_or(false, |x| self.conforms(t, x)));
                }
                match n.as_str() {
                    "bool" => v.is_boolean(),
                    "string" => v.is_string(),
                    "u8" => v.as_u64().map_or(false, |x| x <= 0xff),
                    "u16" => v.as_u64().map_or(false, |x| x <= 0xffff),
                    "u32" => v.as_u64().map_or(false, |x| x <= 0xffff_ffff),
                    "u64" => v.is_u64(),
                    "i8" | "i16" | "i32" | "i64" => v.is_i64(),
                    "f32" | "f64" => v.is_number(),
                    _ => unsupported(&format!("Aqua type {n}")),
                }
            }
        }
    }
    fn failure(&self, t: &Ty, why: &str) -> Value {
        match t {
            Ty::Named(n) => {
                if let Some(t) = self.alias.get(n) {
                    return self.failure(t, why);
                }
                if let Some(fs) = self.data.get(n) {
                    let mut m = serde_json::Map::new();
                    for (f, t) in fs {
                        let v = match f.as_str() {
                            "success" => json!(false),
                            "error" if matches!(t, Ty::Opt(_)) => json!([why]),
                            "error" => json!(why),
                            _ => self.failure(t, why),
                        };
                        m.insert(f.clone(), v);
                    }
                    return Value::Object(m);
                }
                match n.as_str() {
                    "bool" => json!(false),
                    "string" => json!(""),
                    _ => json!(0),
                }
            }
            _ => json!([]),
        }
    }
    /// Call an API function on `peer`; the returned values, options and streams as lists.
    pub fn call(&self, net: &mut Net, peer: &str, f: &str, args: &[Value]) -> Result<Vec<Value>, String> {
        let lit = |v: &Value| Var::Val(Tv { v: v.clone(), t: vec![SecurityTetraplet::new(net.client.clone(), "", "", "")] });
        let args = args.iter().map(lit).collect();
        let mut r = Run { a: self, net, depth: 0 };
        let mut v = vec![];
        for x in r.func(f, args, peer)? {
            v.push(x.canon().v);
        }
        Ok(v)
    }
    /// Number of parameters of a function.
    pub fn arity(&self, f: &str) -> usize {
        self.funcs[f].params.len()
    }
    /// Returned values as the generated TypeScript function returns them.
    pub fn js(&self, f: &str, vals: Vec<Value>) -> Value {
        let one = |(t, v): (&Ty, Value)| match t {
            Ty::Opt(_) => v.as_array().and_then(|a| a.first().cloned()).unwrap_or(Value::Null),
            _ => v,
        };
        let mut out: Vec<Value> = self.funcs[f].ret.iter().zip(vals).map(one).collect();
        match out.len() {
            0 => Value::Null,
            1 => out.remove(0),
            _ => json!(out),
        }
    }
    /// Call a declared service function on `peer`.
    pub fn service(&self, net: &mut Net, peer: &str, svc: &str, f: &str, args: Vec<Tv>) -> Result<Value, String> {
        let mut r = Run { a: self, net, depth: 0 };
        Ok(r.service(peer, svc, None, f, args)?.v)
    }
}

#[derive(Clone)]
enum Var {
    Val(Tv),
    Stream(Rc<RefCell<Vec<Tv>>>),
}
impl Var {
    fn canon(&self) -> Tv {
        match self {
            Var::Val(t) => t.clone(),
            Var::Stream(s) => {
                let s = s.borrow();
                Tv { v: json!(s.iter().map(|t| &t.v).collect::<Vec<_>>()), t: s.iter().flat_map(|t| t.t.clone()).collect() }
            }
        }
    }
}
struct Frame {
    vars: HashMap<String, Var>,
    ids: HashMap<String, String>,
    ret: Option<Vec<Var>>,
}
struct Run<'a, 'n> {
    a: &'a Aqua,
    net: &'n mut Net,
    depth: usize,
}
impl<'a, 'n> Run<'a, 'n> {
    fn lit(&self, v: Value) -> Tv {
        Tv { v, t: vec![SecurityTetraplet::new(self.net.client.clone(), "", "", "")] }
    }
    fn func(&mut self, name: &str, args: Vec<Var>, peer: &str) -> Result<Vec<Var>, String> {
        let name = if self.a.funcs.contains_key(name) { name } else { self.a.renamed.get(name).map_or(name, |n| n.as_str()) };
        let Some(f) = self.a.funcs.get(name) else { return Err(format!("there is no function {name}")) };
        if f.params.len() != args.len() {
            return Err(format!("{name} takes {} arguments", f.params.len()));
        }
        self.depth += 1;
        if self.depth > 50 {
            return Err(format!("{name}: endless recursion"));
        }
        let mut fr = Frame { vars: HashMap::new(), ids: HashMap::new(), ret: None };
        for ((n, t), v) in f.params.iter().zip(args) {
            let v = match (t, v) {
                (Ty::Stream(_), v @ Var::Stream(_)) => v,
                (_, v) => {
                    let v = v.canon();
                    if !self.a.conforms(t, &v.v) {
                        return Err(format!("argument {n} of {name} is {}", v.v));
                    }
                    Var::Val(v)
                }
            };
            fr.vars.insert(n.clone(), v);
        }
        self.block(&f.body, &mut fr, peer)?;
        self.depth -= 1;
        let ret = fr.ret.unwrap_or_default();
        if ret.len() != f.ret.len() {
            return Err(format!("{name} returns {} values instead of {}", ret.len(), f.ret.len()));
        }
        for (t, v) in f.ret.iter().zip(&ret) {
            let v = v.canon().v;
            if !self.a.conforms(t, &v) {
                return Err(format!("{name} returns {v}, which is not of the declared type"));
            }
        }
        Ok(ret)
    }
    fn service(&mut self, peer: &str, svc: &str, id: Option<&String>, f: &str, args: Vec<Tv>) -> Result<Tv, String> {
        let svc = if self.a.svcs.contains_key(svc) { svc } else { self.a.renamed.get(svc).map_or(svc, |n| n.as_str()) };
        let Some(s) = self.a.svcs.get(svc) else { unsupported(&format!("Aqua service {svc}")) };
        let Some((ps, ret)) = s.fns.get(f) else { unsupported(&format!("Aqua function {svc}.{f}")) };
        let Some(id) = id.or(s.id.as_ref()).cloned() else { unsupported(&format!("service {svc} without id")) };
        if ps.len() != args.len() {
            return Err(format!("{svc}.{f} takes {} arguments", ps.len()));
        }
        for ((n, t), v) in ps.iter().zip(&args) {
            if !self.a.conforms(t, &v.v) {
                return Err(format!("argument {n} of {svc}.{f} is {}", v.v));
            }
        }
        let a = self.a;
        let r = self.net.call(peer, &id, f, &args, &|why| ret.as_ref().map_or(json!([]), |t| a.failure(t, why)))?;
        if let Some(t) = ret {
            if !self.a.conforms(t, &r) {
                return Err(format!("{svc}.{f} answers {r}, which is not of the declared type {t:?}"));
            }
        }
        Ok(Tv { v: r, t: vec![SecurityTetraplet::new(peer, id, f, "")] })
    }
    fn eval(&mut self, e: &E, fr: &Frame, peer: &str) -> Result<Var, String> {
        Ok(match e {
            E::Lit(v) => Var::Val(self.lit(v.clone())),
            E::Var(n) => {
                if let Some(v) = fr.vars.get(n) {
                    return Ok(v.clone());
                }
                match n.as_str() {
                    "HOST_PEER_ID" => return Ok(Var::Val(self.lit(json!(self.net.relay)))),
                    "INIT_PEER_ID" => return Ok(Var::Val(self.lit(json!(self.net.client)))),
                    _ => {}
                }
                match self.a.consts.get(n) {
                    Some(e) => return self.eval(e, fr, peer),
                    None => return Err(format!("{n} has no value")),
                }
            }
            E::Field(x, n) => {
                let tv = self.eval(x, fr, peer)?.canon();
                if n == "length" && tv.v.is_array() {
                    return Ok(Var::Val(Tv { v: json!(tv.v.as_array().unwrap().len()), t: vec![SecurityTetraplet::new(peer, "op", "array_length", "")] }));
                }
                let v = tv.v.get(n).cloned().ok_or(format!("there is no {n} in {}", tv.v))?;
                let mut t = tv.t;
                for t in t.iter_mut() {
                    t.json_path.push_str(&format!(".$.{n}"));
                }
                Var::Val(Tv { v, t })
            }
            E::Index(x, i) => {
                let i = self.eval(i, fr, peer)?.canon().v.as_u64().ok_or("index is no number")? as usize;
                match self.eval(x, fr, peer)? {
                    Var::Stream(s) => Var::Val(s.borrow().get(i).cloned().ok_or(format!("the script waits forever for element {i} of an empty stream"))?),
                    Var::Val(tv) => {
                        let v = tv.v.get(i).cloned().ok_or(format!("there is no element {i} in {}", tv.v))?;
                        // a list that was a stream keeps the origin of every element
                        let n = tv.v.as_array().map_or(0, |a| a.len());
                        let t = if tv.t.len() == n && n > 1 || tv.t.len() == 1 && n == 1 { vec![tv.t[i].clone()] } else { tv.t };
                        Var::Val(Tv { v, t })
                    }
                }
            }
            E::Un(_, x) => {
                let b = self.boolean(x, fr, peer)?;
                Var::Val(self.lit(json!(!b)))
            }
            E::Bin("&&", a, b) => {
                let v = self.boolean(a, fr, peer)? && self.boolean(b, fr, peer)?;
                Var::Val(self.lit(json!(v)))
            }
            E::Bin("||", a, b) => {
                let v = self.boolean(a, fr, peer)? || self.boolean(b, fr, peer)?;
                Var::Val(self.lit(json!(v)))
            }
            E::Bin(op, a, b) => {
                let a = self.eval(a, fr, peer)?.canon().v;
                let b = self.eval(b, fr, peer)?.canon().v;
                let v = match *op {
                    "==" => json!(a == b),
                    "!=" => json!(a != b),
                    _ => {
                        let (Some(x), Some(y)) = (a.as_u64(), b.as_u64()) else { return Err(format!("{a} {op} {b}")) };
                        match *op {
                            "<" => json!(x < y),
                            ">" => json!(x > y),
                            "<=" => json!(x <= y),
                            ">=" => json!(x >= y),
                            "+" => json!(x.checked_add(y).ok_or("overflow")?),
                            "-" => json!(x.checked_sub(y).ok_or("underflow")?),
                            "*" => json!(x.checked_mul(y).ok_or("overflow")?),
                            "/" => json!(x.checked_div(y).ok_or("division by zero")?),
                            "%" => json!(x.checked_rem(y).ok_or("division by zero")?),
                            _ => unsupported(op),
                        }
                    }
                };
                // the result is computed by a helper service
                Var::Val(Tv { v, t: vec![SecurityTetraplet::new(peer, "math", *op, "")] })
            }
            E::List(v) => {
                let mut items = vec![];
                for x in v {
                    items.push(self.eval(x, fr, peer)?.canon().v);
                }
                Var::Val(Tv { v: json!(items), t: vec![SecurityTetraplet::new(peer, "op", "array", "")] })
            }
            E::Record(v) => {
                let mut m = serde_json::Map::new();
                for (n, x) in v {
                    m.insert(n.clone(), self.eval(x, fr, peer)?.canon().v);
                }
                Var::Val(Tv { v: Value::Object(m), t: vec![SecurityTetraplet::new(peer, "json", "obj", "")] })
            }
            E::Call(..) | E::Service(..) => {
                let mut v = self.many(e, fr, peer)?;
                if v.len() != 1 {
                    return Err(format!("{} values where one was expected", v.len()));
                }
                v.pop().unwrap()
            }
        })
    }
    fn many(&mut self, e: &E, fr: &Frame, peer: &str) -> Result<Vec<Var>, String> {
        match e {
            E::Call(f, args) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, fr, peer)?);
                }
                self.func(f, v, peer)
            }
            E::Service(m, f, args) if self.a.modules.contains(m) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, fr, peer)?);
                }
                self.func(f, v, peer)
            }
            E::Service(s, f, args) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a, fr, peer)?.canon());
                }
                let none = self.a.svcs.get(s).and_then(|s| s.fns.get(f)).map_or(false, |f| f.1.is_none());
                let r = self.service(peer, s, fr.ids.get(s), f, v)?;
                Ok(if none { vec![] } else { vec![Var::Val(r)] })
            }
            _ => Ok(vec![self.eval(e, fr, peer)?]),
        }
    }
    fn boolean(&mut self, e: &E, fr: &Frame, peer: &str) -> Result<bool, String> {
        let v = self.eval(e, fr, peer)?.canon().v;
        v.as_bool().ok_or(format!("{v} is neither true nor false"))
    }
    fn block(&mut self, b: &[St], fr: &mut Frame, peer: &str) -> Result<(), String> {
        for s in b {
            match s {
                St::On(e, b) => {
                    let id = self.eval(e, fr, peer)?.canon().v;
                    let id = id.as_str().ok_or("on: no peer id")?.to_string();
                    self.block(b, fr, &id)?;
                }
                St::If(arms, other) => {
                    let mut done = false;
                    for (c, b) in arms {
                        if self.boolean(c, fr, peer)? {
                            self.block(b, fr, peer)?;
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        self.block(other, fr, peer)?;
                    }
                }
                St::For(n, e, b) => {
                    let it = self.eval(e, fr, peer)?.canon();
                    let items = it.v.as_array().cloned().ok_or("loop over something that is no list")?;
                    for (k, x) in items.into_iter().enumerate() {
                        let mut t = it.t.clone();
                        for t in t.iter_mut() {
                            t.json_path.push_str(&format!(".$.[{k}]"));
                        }
                        fr.vars.insert(n.clone(), Var::Val(Tv { v: x, t }));
                        self.block(b, fr, peer)?;
                    }
                    fr.vars.remove(n);
                }
                St::Try(b, c) => {
                    let d = self.depth;
                    if let Err(e) = self.block(b, fr, peer) {
                        self.depth = d;
                        if let Some((n, c)) = c {
                            let e = self.lit(json!({"message": e}));
                            fr.vars.insert(n.clone(), Var::Val(e));
                            self.block(c, fr, peer)?;
                        }
                    }
                }
                St::Both(a, b) => {
                    let d = self.depth;
                    let x = self.block(a, fr, peer);
                    self.depth = d;
                    let y = self.block(b, fr, peer);
                    self.depth = d;
                    if x.is_err() {
                        y?;
                    }
                }
                St::Let(ns, e) => {
                    let v = self.many(e, fr, peer)?;
                    if v.len() != ns.len() {
                        return Err(format!("{} values for {ns:?}", v.len()));
                    }
                    for (n, v) in ns.iter().zip(v) {
                        // a returned stream is a finished list
                        let v = if ns.len() > 1 || matches!(e, E::Call(..) | E::Service(..)) { Var::Val(v.canon()) } else { v };
                        match fr.vars.get(n) {
                            // the result of a call goes into a stream of that name
                            Some(Var::Stream(s)) => s.borrow_mut().push(v.canon()),
                            _ => {
                                fr.vars.insert(n.clone(), v);
                            }
                        }
                    }
                }
                St::Decl(n, Ty::Stream(_)) => {
                    fr.vars.insert(n.clone(), Var::Stream(Rc::default()));
                }
                St::Decl(..) => unsupported("declaration of something that is no stream"),
                St::Push(n, e) => {
                    let v = self.eval(e, fr, peer)?.canon();
                    match fr.vars.get(n) {
                        Some(Var::Stream(s)) => s.borrow_mut().push(v),
                        _ => return Err(format!("{n} is no stream")),
                    }
                }
                St::Do(e) => {
                    self.many(e, fr, peer)?;
                }
                St::Bind(s, e) => {
                    let v = self.eval(e, fr, peer)?.canon().v;
                    fr.ids.insert(s.clone(), v.as_str().ok_or("service id is no text")?.to_string());
                }
                St::Return(v) => {
                    let mut out = vec![];
                    for e in v {
                        out.extend(self.many(e, fr, peer)?);
                    }
                    fr.ret = Some(out);
                }
            }
        }
        Ok(())
    }
}
