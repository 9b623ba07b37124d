//! A plain library storage (what a library user would write), with fault injection and ordering control.
use crate::keys::*;
use fluence_keypair::PublicKey;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;
use trust_graph::{Auth, PublicKeyHashable as PK, Revocation, Storage, StorageError, TrustRelation, WeightFactor};

#[derive(Debug)]
pub struct MemError;
impl std::fmt::Display for MemError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected storage failure")
    }
}
impl std::error::Error for MemError {}
impl StorageError for MemError {}

type Key = Vec<u8>;
#[derive(Default, Clone)]
pub struct Inner {
    /// subject -> issuer -> relation
    pub rel: BTreeMap<Key, BTreeMap<Key, TrustRelation>>,
    pub roots: BTreeMap<Key, (PK, WeightFactor)>,
    pub reverse: bool,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub fail_len: u64,
    pub fired: u64,
}

#[derive(Clone, Default)]
pub struct Mem(pub Rc<RefCell<Inner>>);

fn k(pk: &PK) -> Key {
    let p: &PublicKey = pk.as_ref();
    p.encode()
}

impl Mem {
    fn tick(&self) -> Result<(), MemError> {
        let mut i = self.0.borrow_mut();
        let n = i.calls;
        i.calls += 1;
        if let Some(f) = i.fail_at {
            if n >= f && n < f.saturating_add(i.fail_len) {
                i.fired += 1;
                return Err(MemError);
            }
        }
        Ok(())
    }
    /// Put a relation in place directly (static graphs).
    pub fn put(&self, r: TrustRelation) {
        let (s, b) = (r.issued_for().encode(), r.issued_by().encode());
        self.0.borrow_mut().rel.entry(s).or_default().insert(b, r);
    }
    pub fn clear_relations(&self) {
        self.0.borrow_mut().rel.clear();
    }
    fn newest(&self, r: TrustRelation) {
        let (s, b) = (r.issued_for().encode(), r.issued_by().encode());
        let mut i = self.0.borrow_mut();
        let m = i.rel.entry(s).or_default();
        match m.get(&b) {
            Some(old) if old.issued_at() >= r.issued_at() => {}
            _ => {
                m.insert(b, r);
            }
        }
    }
    fn of(&self, pk: &PK) -> Vec<TrustRelation> {
        let i = self.0.borrow();
        let mut v: Vec<TrustRelation> = i.rel.get(&k(pk)).map(|m| m.values().cloned().collect()).unwrap_or_default();
        if i.reverse {
            v.reverse();
        }
        v
    }
    pub fn dump(&self) -> Vec<String> {
        let i = self.0.borrow();
        let mut out = vec![];
        for m in i.rel.values() {
            for r in m.values() {
                let (b, s) = (by_pk(r.issued_by()), by_pk(r.issued_for()));
                let kind = match r {
                    TrustRelation::Auth(a) => format!("trust exp={}", a.trust.expires_at.as_secs()),
                    TrustRelation::Revocation(_) => "revocation".into(),
                };
                out.push(format!("{b:?}->{s:?} {kind} at={} {:?}", r.issued_at().as_secs(), r.signature().encode()));
            }
        }
        for (pk, w) in i.roots.values() {
            out.push(format!("root {pk} {w}"));
        }
        out.sort();
        out
    }
}

impl Storage for Mem {
    type Error = MemError;
    fn get_relation(&self, issued_for: &PK, issued_by: &PK) -> Result<Option<TrustRelation>, MemError> {
        self.tick()?;
        Ok(self.0.borrow().rel.get(&k(issued_for)).and_then(|m| m.get(&k(issued_by)).cloned()))
    }
    fn get_authorizations(&self, issued_for: &PK) -> Result<Vec<Auth>, MemError> {
        self.tick()?;
        Ok(self
            .of(issued_for)
            .into_iter()
            .filter_map(|r| match r {
                TrustRelation::Auth(a) => Some(a),
                _ => None,
            })
            .collect())
    }
    fn get_revocations(&self, issued_for: &PK) -> Result<Vec<Revocation>, MemError> {
        self.tick()?;
        Ok(self
            .of(issued_for)
            .into_iter()
            .filter_map(|r| match r {
                TrustRelation::Revocation(a) => Some(a),
                _ => None,
            })
            .collect())
    }
    fn insert(&mut self, node: TrustRelation) -> Result<(), MemError> {
        self.tick()?;
        self.put(node);
        Ok(())
    }
    fn get_root_weight_factor(&self, pk: &PK) -> Result<Option<WeightFactor>, MemError> {
        self.tick()?;
        Ok(self.0.borrow().roots.get(&k(pk)).map(|x| x.1))
    }
    fn set_root_weight_factor(&mut self, pk: PK, weight_factor: WeightFactor) -> Result<(), MemError> {
        self.tick()?;
        self.0.borrow_mut().roots.insert(k(&pk), (pk, weight_factor));
        Ok(())
    }
    fn root_keys(&self) -> Result<Vec<PK>, MemError> {
        self.tick()?;
        let i = self.0.borrow();
        let mut v: Vec<PK> = i.roots.values().map(|x| x.0.clone()).collect();
        if i.reverse {
            v.reverse();
        }
        Ok(v)
    }
    fn revoke(&mut self, revocation: Revocation) -> Result<(), MemError> {
        self.tick()?;
        self.newest(TrustRelation::Revocation(revocation));
        Ok(())
    }
    fn update_auth(&mut self, auth: Auth, _cur_time: Duration) -> Result<(), MemError> {
        self.tick()?;
        self.newest(TrustRelation::Auth(auth));
        Ok(())
    }
    fn remove_expired(&mut self, current_time: Duration) -> Result<(), MemError> {
        self.tick()?;
        let mut i = self.0.borrow_mut();
        for m in i.rel.values_mut() {
            m.retain(|_, r| !matches!(r, TrustRelation::Auth(a) if a.trust.expires_at <= current_time));
        }
        Ok(())
    }
}
