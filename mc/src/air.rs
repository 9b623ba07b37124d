//! Interpreter for the AIR start script.
use crate::net::*;
use marine_rs_sdk::SecurityTetraplet;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum S {
    L(Vec<S>),
    A(Vec<S>),
    Str(String),
    At(String),
}
fn lex(src: &str) -> Vec<String> {
    let mut out = vec![];
    let cs: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            c if c.is_whitespace() => i += 1,
            ';' => {
                while i < cs.len() && cs[i] != '\n' {
                    i += 1
                }
            }
            '(' | ')' | '[' | ']' => {
                // `x.$.[0]` stays one word
                out.push(cs[i].to_string());
                i += 1
            }
            '"' => {
                let mut s = String::from("\"");
                i += 1;
                while i < cs.len() && cs[i] != '"' {
                    s.push(cs[i]);
                    i += 1
                }
                i += 1;
                out.push(s)
            }
            _ => {
                let mut s = String::new();
                while i < cs.len() && !cs[i].is_whitespace() && !matches!(cs[i], '(' | ')' | '"' | ';') {
                    if cs[i] == ']' && !s.ends_with(|c: char| c.is_ascii_digit()) || cs[i] == ']' && !s.contains('[') {
                        break;
                    }
                    if cs[i] == '[' && !s.ends_with('.') {
                        break;
                    }
                    s.push(cs[i]);
                    i += 1
                }
                out.push(s)
            }
        }
    }
    out
}
fn parse(t: &[String], i: &mut usize) -> S {
    let Some(w) = t.get(*i) else { unsupported("AIR: unexpected end") };
    *i += 1;
    match w.as_str() {
        o @ ("(" | "[") => {
            let close = if o == "(" { ")" } else { "]" };
            let mut v = vec![];
            while t.get(*i).map_or(false, |x| x != close) {
                v.push(parse(t, i));
            }
            if *i >= t.len() {
                unsupported("AIR: missing bracket");
            }
            *i += 1;
            if o == "(" {
                S::L(v)
            } else {
                S::A(v)
            }
        }
        ")" | "]" => unsupported("AIR: stray bracket"),
        s if s.starts_with('"') => S::Str(s[1..].into()),
        s => S::At(s.into()),
    }
}

pub struct Air {
    prog: S,
}
pub fn load(src: &str) -> Air {
    let t = lex(src);
    let mut i = 0;
    let prog = parse(&t, &mut i);
    if i != t.len() {
        unsupported("AIR: text after the script");
    }
    Air { prog }
}

struct Fold<'a> {
    body: &'a S,
    last: Option<&'a S>,
    items: Vec<Tv>,
    at: usize,
}
struct Run<'a, 'n> {
    net: &'n mut Net,
    vars: HashMap<String, Tv>,
    streams: HashMap<String, Vec<Tv>>,
    folds: Vec<(String, Fold<'a>)>,
    returned: Vec<Value>,
    error: String,
}
impl<'a, 'n> Run<'a, 'n> {
    fn lit(&self, v: Value) -> Tv {
        Tv { v, t: vec![SecurityTetraplet::new(self.net.client.clone(), "", "", "")] }
    }
    fn value(&self, s: &S) -> Result<Tv, String> {
        match s {
            S::Str(x) => Ok(self.lit(json!(x))),
            S::A(v) if v.is_empty() => Ok(self.lit(json!([]))),
            S::At(x) => {
                if let Ok(n) = x.parse::<u64>() {
                    return Ok(self.lit(json!(n)));
                }
                match x.as_str() {
                    "true" => return Ok(self.lit(json!(true))),
                    "false" => return Ok(self.lit(json!(false))),
                    "%init_peer_id%" => return Ok(self.lit(json!(self.net.client))),
                    "%last_error%" => return Ok(self.lit(json!({"message": self.error}))),
                    "%last_error%.$.message" | "%last_error%.$.message!" => return Ok(self.lit(json!(self.error))),
                    _ => {}
                }
                let x = x.strip_suffix('!').unwrap_or(x);
                let (name, path) = match x.split_once(".$") {
                    Some((n, p)) => (n, p),
                    None => (x, ""),
                };
                let mut tv = if let Some(items) = self.streams.get(name) {
                    Tv { v: json!(items.iter().map(|i| &i.v).collect::<Vec<_>>()), t: items.iter().flat_map(|i| i.t.clone()).collect() }
                } else {
                    self.vars.get(name).cloned().ok_or(format!("variable {name} is not set"))?
                };
                for step in path.split('.').filter(|s| !s.is_empty()) {
                    let step = step.trim_end_matches('!');
                    let next = if step.starts_with('[') {
                        let k: usize = step.trim_matches(|c| c == '[' || c == ']').parse().unwrap_or_else(|_| unsupported(&format!("AIR path {x}")));
                        tv.v.get(k)
                    } else {
                        tv.v.get(step)
                    };
                    tv.v = next.cloned().ok_or(format!("{x}: no {step} in {}", tv.v))?;
                }
                if !path.is_empty() {
                    for t in tv.t.iter_mut() {
                        t.json_path.push_str(&format!(".${path}"));
                    }
                }
                Ok(tv)
            }
            _ => unsupported("AIR value"),
        }
    }
    fn text(&self, s: &S) -> Result<String, String> {
        self.value(s)?.v.as_str().map(String::from).ok_or("a text was expected".into())
    }
    fn store(&mut self, to: Option<&S>, tv: Tv) {
        match to {
            None => {}
            Some(S::At(n)) if n.starts_with('$') => self.streams.entry(n.clone()).or_default().push(tv),
            Some(S::At(n)) => {
                self.vars.insert(n.clone(), tv);
            }
            _ => unsupported("AIR output"),
        }
    }
    fn step(&mut self) -> Result<(), String> {
        let (body, last, done) = {
            let f = &self.folds.last().unwrap().1;
            (f.body, f.last, f.at >= f.items.len())
        };
        if done {
            return match last {
                Some(l) => self.exec(l),
                None => Ok(()),
            };
        }
        let name = self.folds.last().unwrap().0.clone();
        let item = {
            let f = &self.folds.last().unwrap().1;
            f.items[f.at].clone()
        };
        let old = self.vars.insert(name.clone(), item);
        let r = self.exec(body);
        match old {
            Some(o) => self.vars.insert(name, o),
            None => self.vars.remove(&name),
        };
        r
    }
    fn exec(&mut self, s: &'a S) -> Result<(), String> {
        let S::L(v) = s else { unsupported("AIR: an instruction was expected") };
        let head = match v.first() {
            Some(S::At(h)) => h.as_str(),
            _ => unsupported("AIR: empty instruction"),
        };
        let r = match (head, v.len()) {
            ("null", 1) => Ok(()),
            ("never", 1) => Err("the script waits forever".into()),
            ("seq", 3) => self.exec(&v[1]).and_then(|_| self.exec(&v[2])),
            ("par", 3) => {
                let a = self.exec(&v[1]);
                let b = self.exec(&v[2]);
                if a.is_ok() {
                    a
                } else {
                    b
                }
            }
            ("xor", 3) => match self.exec(&v[1]) {
                Ok(()) => Ok(()),
                Err(e) => {
                    self.error = e;
                    self.exec(&v[2])
                }
            },
            ("match" | "mismatch", 4) => {
                let same = self.value(&v[1])?.v == self.value(&v[2])?.v;
                if same == (head == "match") {
                    self.exec(&v[3])
                } else {
                    Err(format!("{head} failed"))
                }
            }
            ("new", 3) => self.exec(&v[2]),
            ("ap", 3) => {
                let tv = self.value(&v[1])?;
                self.store(Some(&v[2]), tv);
                Ok(())
            }
            ("fail", _) => Err("the script failed".into()),
            ("fold", 4 | 5) => {
                let it = self.value(&v[1])?;
                let S::At(name) = &v[2] else { unsupported("AIR fold") };
                let items = it.v.as_array().ok_or("fold over something that is no list")?;
                let items = items.iter().enumerate().map(|(k, x)| {
                    let mut t = it.t.clone();
                    for t in t.iter_mut() {
                        t.json_path.push_str(&format!(".$.[{k}]"));
                    }
                    Tv { v: x.clone(), t }
                });
                let f = Fold { body: &v[3], last: v.get(4), items: items.collect(), at: 0 };
                if f.items.is_empty() {
                    return Ok(());
                }
                self.folds.push((name.clone(), f));
                let r = self.step();
                self.folds.pop();
                r
            }
            ("next", 2) => {
                let S::At(name) = &v[1] else { unsupported("AIR next") };
                if self.folds.last().map(|f| &f.0) != Some(name) {
                    unsupported("AIR: next of an outer fold");
                }
                self.folds.last_mut().unwrap().1.at += 1;
                let r = self.step();
                self.folds.last_mut().unwrap().1.at -= 1;
                r
            }
            ("call", 4 | 5) => {
                let peer = self.text(&v[1])?;
                let S::L(sf) = &v[2] else { unsupported("AIR call") };
                let (svc, f) = (self.text(&sf[0])?, self.text(&sf[1])?);
                let S::A(args) = &v[3] else { unsupported("AIR call arguments") };
                let args = args.iter().map(|a| self.value(a)).collect::<Result<Vec<_>, _>>()?;
                if (svc.as_str(), f.as_str()) == ("op", "return") {
                    self.returned.extend(args.iter().map(|a| a.v.clone()));
                    return Ok(());
                }
                let r = self.net.call(&peer, &svc, &f, &args, &|e| json!({"success": false, "error": e}))?;
                let tv = Tv { v: r, t: vec![SecurityTetraplet::new(peer, svc, f, "")] };
                self.store(v.get(4), tv);
                Ok(())
            }
            _ => unsupported(&format!("AIR instruction {head}")),
        };
        r
    }
}
impl Air {
    /// Run the script; what it returned.
    pub fn run(&self, net: &mut Net, input: &Value) -> Result<Vec<Value>, String> {
        let mut vars = HashMap::new();
        let lit = |v: &Value| Tv { v: v.clone(), t: vec![SecurityTetraplet::new(net.client.clone(), "", "", "")] };
        for (k, v) in input.as_object().cloned().unwrap_or_default() {
            vars.insert(k, lit(&v));
        }
        vars.insert("relay".into(), lit(&json!(net.relay)));
        let mut r = Run { net, vars, streams: HashMap::new(), folds: vec![], returned: vec![], error: String::new() };
        r.exec(&self.prog)?;
        Ok(r.returned)
    }
}
