//! Shared by the demonstrations: keys and a plain in-memory storage for the library.
#![allow(dead_code)]
use fluence_keypair::{KeyFormat, KeyPair, PublicKey};
use std::collections::BTreeMap;
use std::time::Duration;
use trust_graph::*;
use PublicKeyHashable as PK;

pub fn kp(n: u8) -> KeyPair {
    KeyPair::from_secret_key(vec![n + 1; 32], KeyFormat::Ed25519).unwrap()
}
pub fn kp2(n: u8) -> KeyPair {
    KeyPair::from_secret_key(vec![n + 1; 32], KeyFormat::Secp256k1).unwrap()
}
pub fn s(n: u64) -> Duration {
    Duration::from_secs(n)
}
pub fn t(by: u8, subj: u8, exp: u64, iat: u64) -> Trust {
    Trust::create(&kp(by), kp(subj).public(), s(exp), s(iat))
}
pub fn ensure(ok: bool, what: &str) {
    if !ok {
        eprintln!("WRONG: {what}");
        std::process::exit(1);
    }
}
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "storage failure")
    }
}
impl std::error::Error for E {}
impl StorageError for E {}
#[derive(Default)]
pub struct Mem {
    rel: BTreeMap<(Vec<u8>, Vec<u8>), TrustRelation>,
    roots: BTreeMap<Vec<u8>, (PK, WeightFactor)>,
}
fn k(pk: &PK) -> Vec<u8> {
    let p: &PublicKey = pk.as_ref();
    p.encode()
}
impl Mem {
    fn newest(&mut self, r: TrustRelation) {
        let key = (r.issued_for().encode(), r.issued_by().encode());
        match self.rel.get(&key) {
            Some(o) if o.issued_at() >= r.issued_at() => {}
            _ => {
                self.rel.insert(key, r);
            }
        }
    }
}
impl Storage for Mem {
    type Error = E;
    fn get_relation(&self, f: &PK, b: &PK) -> Result<Option<TrustRelation>, E> {
        Ok(self.rel.get(&(k(f), k(b))).cloned())
    }
    fn get_authorizations(&self, f: &PK) -> Result<Vec<Auth>, E> {
        Ok(self.rel.iter().filter(|x| x.0 .0 == k(f)).filter_map(|x| match x.1 { TrustRelation::Auth(a) => Some(a.clone()), _ => None }).collect())
    }
    fn get_revocations(&self, f: &PK) -> Result<Vec<Revocation>, E> {
        Ok(self.rel.iter().filter(|x| x.0 .0 == k(f)).filter_map(|x| match x.1 { TrustRelation::Revocation(a) => Some(a.clone()), _ => None }).collect())
    }
    fn insert(&mut self, r: TrustRelation) -> Result<(), E> {
        self.rel.insert((r.issued_for().encode(), r.issued_by().encode()), r);
        Ok(())
    }
    fn get_root_weight_factor(&self, pk: &PK) -> Result<Option<WeightFactor>, E> {
        Ok(self.roots.get(&k(pk)).map(|x| x.1))
    }
    fn set_root_weight_factor(&mut self, pk: PK, w: WeightFactor) -> Result<(), E> {
        self.roots.insert(k(&pk), (pk, w));
        Ok(())
    }
    fn root_keys(&self) -> Result<Vec<PK>, E> {
        Ok(self.roots.values().map(|x| x.0.clone()).collect())
    }
    fn revoke(&mut self, r: Revocation) -> Result<(), E> {
        self.newest(TrustRelation::Revocation(r));
        Ok(())
    }
    fn update_auth(&mut self, a: Auth, _: Duration) -> Result<(), E> {
        self.newest(TrustRelation::Auth(a));
        Ok(())
    }
    fn remove_expired(&mut self, now: Duration) -> Result<(), E> {
        self.rel.retain(|_, r| !matches!(r, TrustRelation::Auth(a) if a.trust.expires_at <= now));
        Ok(())
    }
}
pub struct G(pub TrustGraph<Mem>);
impl G {
    pub fn new() -> G {
        G(TrustGraph::new(Mem::default()))
    }
    pub fn root(&mut self, p: u8, len: u32) {
        self.0.set_root(kp(p).public(), len).unwrap();
    }
    pub fn trust(&mut self, by: u8, subj: u8) -> u32 {
        self.0.add_trust(t(by, subj, 1000, 10), kp(by).public(), s(100)).unwrap()
    }
    pub fn revoke(&mut self, by: u8, subj: u8, at: u64) {
        self.0.revoke(Revocation::create(&kp(by), kp(subj).public(), s(at))).unwrap();
    }
    pub fn weight(&mut self, p: u8) -> u32 {
        self.0.weight(kp(p).public(), s(100)).unwrap()
    }
    pub fn certs(&mut self, p: u8) -> Vec<Certificate> {
        self.0.get_all_certs(kp(p).public(), s(100)).unwrap()
    }
}
