//! The peer universe: deterministic keys of every type.
use fluence_keypair::{KeyFormat, KeyPair, PublicKey};
use sha2::Digest;
use std::collections::HashMap;
use std::sync::{OnceLock, RwLock};
use std::time::Duration;
use trust_graph::{Revocation, Trust};

/// Index of a peer in the universe.
pub type P = u16;

pub struct Peer {
    pub kp: KeyPair,
    pub pk: PublicKey,
    pub enc: Vec<u8>,
    pub id: String,
}

pub const N_ED: usize = 320;
pub const N_SECP: usize = 24;
pub const SECP: P = N_ED as P; // first secp256k1 peer
pub const RSA: P = (N_ED + N_SECP) as P; // first RSA peer (three of them)

// the first two ed25519 peers share the first four key bytes, the next two the last four
const SPECIAL: [u64; 4] = [16114, 90674, 18392, 50868];

pub fn ed_secret(n: u64) -> Vec<u8> {
    sha2::Sha256::digest(format!("trust-graph-mc/ed25519/{n}").as_bytes()).to_vec()
}
pub fn secp_secret(n: u64) -> Vec<u8> {
    sha2::Sha256::digest(format!("trust-graph-mc/secp256k1/{n}").as_bytes()).to_vec()
}
pub const RSA_PK8: [&[u8]; 3] = [
    include_bytes!("../data/rsa-2048.pk8"),
    include_bytes!("../data/rsa-3072.pk8"),
    include_bytes!("../data/rsa-4096.pk8"),
];

fn mk(kp: KeyPair) -> Peer {
    let pk = kp.public();
    Peer { enc: pk.encode(), id: pk.to_peer_id().to_base58(), pk, kp }
}

static UNIVERSE: OnceLock<(Vec<Peer>, HashMap<Vec<u8>, P>, HashMap<String, P>)> = OnceLock::new();
fn universe() -> &'static (Vec<Peer>, HashMap<Vec<u8>, P>, HashMap<String, P>) {
    UNIVERSE.get_or_init(|| {
        let mut v = vec![];
        for i in 0..N_ED {
            let n = if i < 4 { SPECIAL[i] } else { i as u64 };
            v.push(mk(KeyPair::from_secret_key(ed_secret(n), KeyFormat::Ed25519).unwrap()));
        }
        for i in 0..N_SECP {
            v.push(mk(KeyPair::from_secret_key(secp_secret(i as u64), KeyFormat::Secp256k1).unwrap()));
        }
        for b in RSA_PK8 {
            v.push(mk(KeyPair::rsa_from_pkcs8(&mut b.to_vec()).unwrap()));
        }
        let by_enc = v.iter().enumerate().map(|(i, p)| (p.enc.clone(), i as P)).collect();
        let by_id = v.iter().enumerate().map(|(i, p)| (p.id.clone(), i as P)).collect();
        (v, by_enc, by_id)
    })
}
pub fn peer(i: P) -> &'static Peer {
    &universe().0[i as usize]
}
pub fn by_pk(pk: &PublicKey) -> Option<P> {
    universe().1.get(&pk.encode()).copied()
}
pub fn by_id(id: &str) -> Option<P> {
    universe().2.get(id).copied()
}
pub fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}

type TKey = (P, P, u64, u64);
static TRUSTS: OnceLock<Vec<RwLock<HashMap<TKey, Trust>>>> = OnceLock::new();
/// The genuine trust of `by` for `subject` (signatures are deterministic, so it is unique).
pub fn trust(by: P, subject: P, exp: u64, iat: u64) -> Trust {
    let shards = TRUSTS.get_or_init(|| (0..64).map(|_| RwLock::new(HashMap::new())).collect());
    let k = (by, subject, exp, iat);
    let s = &shards[(crate::common::h64(&k) % 64) as usize];
    if let Some(t) = s.read().unwrap().get(&k) {
        return t.clone();
    }
    let t = Trust::create(&peer(by).kp, peer(subject).pk.clone(), secs(exp), secs(iat));
    s.write().unwrap().insert(k, t.clone());
    t
}
static REVS: OnceLock<RwLock<HashMap<(P, P, u64), Revocation>>> = OnceLock::new();
pub fn revocation(by: P, subject: P, at: u64) -> Revocation {
    let m = REVS.get_or_init(Default::default);
    if let Some(t) = m.read().unwrap().get(&(by, subject, at)) {
        return t.clone();
    }
    let t = Revocation::create(&peer(by).kp, peer(subject).pk.clone(), secs(at));
    m.write().unwrap().insert((by, subject, at), t.clone());
    t
}
