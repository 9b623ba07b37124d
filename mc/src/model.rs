//! Reference model: what the graph must answer. Kept boring on purpose.
use crate::keys::P;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Rel {
    Trust { exp: u64, iat: u64 },
    Revoked { at: u64 },
}
impl Rel {
    pub fn at(&self) -> u64 {
        match self {
            Rel::Trust { iat, .. } => *iat,
            Rel::Revoked { at } => *at,
        }
    }
}

/// (issuer, subject, expires, issued) per trust, root first.
pub type Cert = Vec<(P, P, u64, u64)>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Model {
    /// root -> configured maximum chain length
    pub roots: BTreeMap<P, u32>,
    /// (issuer, subject) -> statement in force
    pub rel: BTreeMap<(P, P), Rel>,
}

pub fn root_weight(max_len: u32) -> u32 {
    1u32 << max_len.min(16)
}

impl Model {
    pub fn gc(&mut self, now: u64) {
        self.rel.retain(|_, r| !matches!(r, Rel::Trust { exp, .. } if *exp <= now));
    }
    fn trust(&self, by: P, subj: P) -> Option<(P, P, u64, u64)> {
        match self.rel.get(&(by, subj)) {
            Some(Rel::Trust { exp, iat }) => Some((by, subj, *exp, *iat)),
            _ => None,
        }
    }
    pub fn revoked(&self, by: P, subj: P) -> bool {
        matches!(self.rel.get(&(by, subj)), Some(Rel::Revoked { .. }))
    }
    /// All simple peer paths root..=target whose trusts exist and that no revocation cuts.
    pub fn paths(&self, target: P) -> Vec<Vec<P>> {
        let mut issuers: BTreeMap<P, Vec<P>> = BTreeMap::new();
        for ((b, s), r) in &self.rel {
            if b != s && matches!(r, Rel::Trust { .. }) {
                issuers.entry(*s).or_default().push(*b);
            }
        }
        let mut out = vec![];
        let mut cur = vec![target];
        self.walk(&issuers, &mut cur, &mut out);
        out
    }
    fn walk(&self, issuers: &BTreeMap<P, Vec<P>>, cur: &mut Vec<P>, out: &mut Vec<Vec<P>>) {
        let last = *cur.last().unwrap();
        if cur.len() > 1 && self.roots.contains_key(&last) && self.trust(last, last).is_some() {
            out.push(cur.iter().rev().copied().collect());
        }
        if let Some(is) = issuers.get(&last) {
            for b in is {
                // `b` would stand before everything in `cur`
                if cur.contains(b) || cur.iter().any(|c| self.revoked(*b, *c)) {
                    continue;
                }
                cur.push(*b);
                self.walk(issuers, cur, out);
                cur.pop();
            }
        }
    }
    /// All certificates of `target`, sorted.
    pub fn certs(&self, target: P) -> Vec<Cert> {
        let mut out = vec![];
        for path in self.paths(target) {
            let mut acc: Vec<Cert> = vec![vec![self.trust(path[0], path[0]).unwrap()]];
            for w in path.windows(2) {
                let t = self.trust(w[0], w[1]).unwrap();
                for c in acc.iter_mut() {
                    c.push(t);
                }
                if let Some(own) = self.trust(w[1], w[1]) {
                    let mut with: Vec<Cert> = acc.clone();
                    for c in with.iter_mut() {
                        c.push(own);
                    }
                    acc.extend(with);
                }
            }
            out.extend(acc);
        }
        out.sort();
        out
    }
    pub fn cert_weight(&self, c: &Cert) -> u32 {
        let max = self.roots[&c[0].1].min(16);
        let hops = (c.len() - 1) as u32;
        if hops > max {
            0
        } else {
            1 << (max - hops)
        }
    }
    pub fn weight_of(&self, certs: &[Cert]) -> u32 {
        certs.iter().map(|c| self.cert_weight(c)).max().unwrap_or(0)
    }
    pub fn weight_given(&self, target: P, certs: &[Cert]) -> u32 {
        let own = self.roots.get(&target).map_or(0, |m| root_weight(*m));
        own.max(self.weight_of(certs))
    }
    pub fn weight(&self, target: P) -> u32 {
        self.weight_given(target, &self.certs(target))
    }
    pub fn scoped(certs: &[Cert], issuer: P) -> Vec<Cert> {
        certs.iter().filter(|c| c.iter().any(|t| t.1 == issuer)).cloned().collect()
    }
    pub fn revocations(&self, subject: P) -> Vec<(P, u64)> {
        let mut v: Vec<(P, u64)> = self
            .rel
            .iter()
            .filter_map(|((b, s), r)| match r {
                Rel::Revoked { at } if *s == subject => Some((*b, *at)),
                _ => None,
            })
            .collect();
        v.sort();
        v
    }
    pub fn record(&mut self, by: P, subj: P, r: Rel) {
        match self.rel.get(&(by, subj)) {
            Some(old) if old.at() >= r.at() => {}
            _ => {
                self.rel.insert((by, subj), r);
            }
        }
    }
}

/// How a statement handed to the implementation differs from a genuine one.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Mangle {
    None,
    /// a bit of the signature is flipped
    SigBit,
    /// signed by another peer
    Signer(P),
    /// expiry date moved after signing
    Exp(u64),
    /// issue date moved after signing
    Iat(u64),
    /// subject exchanged after signing
    Subject(P),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Link {
    pub by: P,
    pub subj: P,
    pub exp: u64,
    pub iat: u64,
    pub mangle: Mangle,
}
pub fn link(by: P, subj: P, exp: u64, iat: u64) -> Link {
    Link { by, subj, exp, iat, mangle: Mangle::None }
}
impl Link {
    /// what the statement claims after mangling: subject, expiry, issue date
    pub fn claims(&self) -> (P, u64, u64) {
        match self.mangle {
            Mangle::Exp(e) => (self.subj, e, self.iat),
            Mangle::Iat(i) => (self.subj, self.exp, i),
            Mangle::Subject(s) => (s, self.exp, self.iat),
            _ => (self.subj, self.exp, self.iat),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Via {
    Value,
    Text,
    Record,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Root { p: P, len: u32, owner: bool },
    Trust(Link),
    Revoke { by: P, subj: P, at: u64, mangle: Mangle },
    Import { chain: Vec<Link>, via: Via },
    Time(u64),
    Restart,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Out {
    Ok,
    Weight(u32),
    Err,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct World {
    pub g: Model,
    pub now: u64,
}

impl World {
    pub fn at(now: u64) -> Self {
        World { g: Model::default(), now }
    }
    /// `claimed` is the peer the statement is attributed to.
    fn add(&mut self, l: &Link, claimed: P, service: bool) -> Out {
        let (subj, exp, iat) = l.claims();
        if service && iat > self.now {
            return Out::Err;
        }
        if exp < self.now || l.mangle != Mangle::None || l.by != claimed {
            return Out::Err;
        }
        self.g.gc(self.now);
        let w = self.g.weight(claimed);
        let next = if claimed == subj { w } else { w / 2 };
        if next != 0 {
            self.g.record(claimed, subj, Rel::Trust { exp, iat });
        }
        Out::Weight(next)
    }
    pub fn apply(&mut self, op: &Op, service: bool) -> Out {
        match op {
            Op::Root { p, len, owner } => {
                if service && !owner {
                    return Out::Err;
                }
                self.g.roots.insert(*p, *len);
                Out::Ok
            }
            Op::Trust(l) => {
                let by = l.by;
                self.add(l, by, service)
            }
            Op::Revoke { by, subj, at, mangle } => {
                if *mangle != Mangle::None || (service && *at > self.now) {
                    return Out::Err;
                }
                self.g.record(*by, *subj, Rel::Revoked { at: *at });
                Out::Ok
            }
            Op::Import { chain, .. } => {
                let Some(first) = chain.first() else { return Out::Err };
                if service && chain.iter().any(|l| l.claims().2 > self.now) {
                    return Out::Err;
                }
                let mut issuer = first.claims().0;
                for l in chain {
                    if self.add(l, issuer, false) == Out::Err {
                        return Out::Err;
                    }
                    issuer = l.claims().0;
                }
                Out::Ok
            }
            Op::Time(t) => {
                self.now = *t;
                Out::Ok
            }
            Op::Restart => Out::Ok,
        }
    }
}
