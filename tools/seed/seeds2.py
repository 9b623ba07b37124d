PKY='keypair/src/public_key.rs'; KP='keypair/src/key_pair.rs'; ED='keypair/src/ed25519.rs'; SG='keypair/src/signature.rs'; DT='service/src/dto.rs'
SEEDS['target-revisited']=dict(property='C01',needs='a cycle through the queried peer',breaks='the search may pass the queried peer a second time, so chains that visit it twice are returned',
 edits=[(CH,"            && !self.auths.iter().any(|a| a.trust.issued_for.eq(pk))","            && !self.auths.tail().iter().any(|a| a.trust.issued_for.eq(pk))")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 10);
    for (b, s) in [(0, 0), (0, 1), (1, 2), (2, 1)] { g.trust(b, s); }
    ensure(g.certs(1).len() == 1, "only the chain that visits 1 once");
}
''')
SEEDS['queue-cap']=dict(property='C02',needs='a densely connected graph with more than 1024 partial chains',breaks='the search drops chains when many are pending',
 edits=[(TG,"                if cur_chain.can_be_extended_by(&auth.issued_by) {","                // keep the memory of a query bounded\n                if chains_queue.len() < 1024 && cur_chain.can_be_extended_by(&auth.issued_by) {")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 16);
    g.trust(0, 0);
    for i in 0..8 { for j in 1..8 { if i != j { g.trust(i, j); } } }
    // chains from 0 to 7: sum over k of the orderings of k of the 6 peers in between
    ensure(g.certs(7).len() == 1 + 6 + 30 + 120 + 360 + 720 + 720, "all chains of a complete graph");
}
''')
SEEDS['row-limit']=dict(property='C03',needs='more than 64 revocations of one peer',breaks='only the first 64 relations of a peer are read, so further revocations are ignored',
 edits=[(ST,"             FROM trust_relations WHERE issued_for = ? and relation_type = ?\",","             FROM trust_relations WHERE issued_for = ? and relation_type = ? LIMIT 64\",")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    trust(0, 0, 1000, 10, 100);
    for m in 3..90u8 { trust(0, m, 1000, 10, 100); }
    for m in 3..90u8 { trust(m, 2, 1000, 10, 100); }
    for m in 3..90u8 { revoke(m, 2, 20, 100); }
    ensure(weight(2, 100) == 0, "2 is revoked by every issuer");
    let v = call("export_revocations", json!([id(2)]));
    ensure(v["revocations"].as_array().unwrap().len() == 87, "all revocations are listed");
}
''')
SEEDS['root-shortcut']=dict(property='C04',needs='a root that another root with a larger maximum chain length trusts',breaks='the weight of a root is only its own, although another root gives it more',
 edits=[(TG,"            max_weight = get_weight_from_factor(weight_factor);\n        }\n\n        // get all possible certificates from the given public key to all roots in the graph\n        let certs","            // nothing can be closer to a root than the root itself\n            return Ok(get_weight_from_factor(weight_factor));\n        }\n\n        // get all possible certificates from the given public key to all roots in the graph\n        let certs"),(TG,"        let mut max_weight = 0;\n        if let Some(weight_factor) = self","        let mut max_weight = 0u32;\n        if let Some(weight_factor) = self")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 10);
    g.root(1, 2);
    for (b, s) in [(0, 0), (0, 1)] { g.trust(b, s); }
    ensure(g.weight(1) == 512, "1 is a direct child of a heavier root");
}
''')
SEEDS['scope-self-shortcut']=dict(property='C05',needs='a root without self-signed trust, scoped to itself',breaks='the weight of a peer scoped to itself is its unscoped weight even if there is no certificate',
 edits=[(TG,"        let mut max_weight = 0;\n\n        // get all possible","        // every chain of a peer contains the peer\n        if issued_for.borrow() == issuer.borrow() {\n            return self.weight(issued_for, cur_time);\n        }\n\n        let mut max_weight = 0;\n\n        // get all possible")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 10);
    let pk = kp(0).public();
    ensure(g.0.weight_from(pk.clone(), pk, s(100)).unwrap() == 0, "no certificate, no scoped weight");
}
''')
SEEDS['longer-lived-wins']=dict(property='C07',needs='a newer trust of the same pair with an earlier expiry date',breaks='a renewal that shortens a trust is ignored',
 edits=[(ST,"    fn update_relation(&mut self, relation: TrustRelation) -> Result<(), SQLiteStorageError> {\n","    fn update_relation(&mut self, relation: TrustRelation) -> Result<(), SQLiteStorageError> {\n        let (subject, issuer) = (relation.issued_for(), relation.issued_by());\n        if let (Some(TrustRelation::Auth(old)), TrustRelation::Auth(new)) = (self.get_relation(subject.as_ref(), issuer.as_ref())?, &relation) {\n            // a renewal has to last longer\n            if new.trust.expires_at <= old.trust.expires_at {\n                return Ok(());\n            }\n        }\n\n")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    trust(0, 0, 9000, 10, 100);
    trust(0, 1, 5000, 10, 100);
    trust(0, 1, 2000, 20, 100);
    ensure(weight(1, 1999) == 512, "valid");
    ensure(weight(1, 2000) == 0, "the newer statement limits the trust to 2000");
}
''')
SEEDS['collect-once']=dict(property='C08',needs='a trust that expires at the very time of its admission, after a query at that time',breaks='expired trusts are collected once per time only, so one added afterwards in its last second counts',
 edits=[(TG,"    storage: S,\n}\n\n#[derive(ThisError","    storage: S,\n    collected_at: Option<Duration>,\n}\n\n#[derive(ThisError"),
  (TG,"        Self { storage }\n","        Self {\n            storage,\n            collected_at: None,\n        }\n"),
  (TG,"        self.storage.remove_expired(cur_time)?;\n","        if self.collected_at != Some(cur_time) {\n            self.storage.remove_expired(cur_time)?;\n            self.collected_at = Some(cur_time);\n        }\n")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 10);
    g.trust(0, 0);
    ensure(g.certs(1).is_empty(), "nothing yet");
    g.0.add_trust(t(0, 1, 100, 10), kp(0).public(), s(100)).unwrap();
    ensure(g.certs(1).is_empty(), "expires at 100");
}
''')
SEEDS['dates-sorted']=dict(property='C10',needs='a trust whose two dates are exchanged',breaks='the bytes to sign do not tell the issue date from the expiry date',
 edits=[(TR,"        let pk_encoded = pk.encode();\n        let expires_at_encoded","        let pk_encoded = pk.encode();\n        let (issued_at, expires_at) = (issued_at.min(expires_at), issued_at.max(expires_at));\n        let expires_at_encoded")],
 main='''
use trust_graph::*;
fn main() {
    let mut x = t(0, 1, 50, 2000);
    ensure(Trust::verify(&x, &kp(0).public(), s(20)).is_ok(), "genuine");
    (x.issued_at, x.expires_at) = (x.expires_at, x.issued_at);
    ensure(Trust::verify(&x, &kp(0).public(), s(100)).is_err(), "dates exchanged");
}
''')
SEEDS['u8-index']=dict(property='C12',needs='a chain of 257 trusts',breaks='the number of trusts is cut to eight bits, so very long chains are not verified',
 edits=[(CE,"        for trust_id in (1..chain.len()).rev() {","        for trust_id in (1..chain.len() as u8).rev().map(usize::from) {")],
 main='''
use trust_graph::*;
fn main() {
    let mut chain = vec![t(0, 0, 1000, 10)];
    for i in 0..255u16 { chain.push(t((i % 2) as u8, ((i + 1) % 2) as u8, 1000, 10)); }
    ensure(Certificate::verify(&Certificate::new_unverified(chain.clone()), &[kp(0).public()], s(100)).is_ok(), "genuine");
    chain[7] = t(5, 5, 1000, 10);
    ensure(Certificate::verify(&Certificate::new_unverified(chain), &[kp(0).public()], s(100)).is_err(), "one bad trust in 256");
}
''')
SEEDS['extend-at-issue']=dict(property='C13',needs='a certificate that expires between the issue date of the new trust and now',breaks='an expired certificate can be extended by a prepared trust that is dated back',
 edits=[(CE,"                .issued_for\n                .clone()],\n            cur_time,\n        )?;\n        // check if `issued_by` is","                .issued_for\n                .clone()],\n            // it was the issuer's right when the trust was issued\n            cur_time.min(trust.issued_at),\n        )?;\n        // check if `issued_by` is")],
 main='''
use trust_graph::*;
fn main() {
    let c = Certificate::issue_root(&kp(0), kp(1).public(), s(50), s(10));
    let x = t(1, 2, 1000, 20);
    ensure(Certificate::issue_with_trust(kp(1).public(), x.clone(), &c, s(40)).is_ok(), "still valid");
    ensure(Certificate::issue_with_trust(kp(1).public(), x, &c, s(100)).is_err(), "expired certificate extended");
}
''')
SEEDS['dates-in-order']=dict(property='C14',needs='a trust in text form that expires before its issue date',breaks='reading a trust from text moves an issue date that is after the expiry date',
 edits=[(TR,"        let issued_at = Self::str_to_duration(issued_at, \"issued_at\")?;","        let issued_at = Self::str_to_duration(issued_at, \"issued_at\")?.min(expires_at);")],
 main='''
use trust_graph::*;
use std::str::FromStr;
fn main() {
    let c = Certificate::new_unverified(vec![t(0, 0, 50, 100)]);
    ensure(Certificate::from_str(&c.to_string()).ok() == Some(c), "text form is lossless");
}
''')
SEEDS['peer-id-prefix']=dict(property='C15',needs='a peer id shorter than five bytes or with a multi-byte character in front',breaks='the service panics on short or non-ASCII peer ids',
 edits=[(MI,"fn parse_peer_id(peer_id: String) -> Result<PeerId, ServiceError> {\n","fn parse_peer_id(peer_id: String) -> Result<PeerId, ServiceError> {\n    log::trace!(\"peer id {}..\", &peer_id[..8]);\n")],
 main='''
use svc::*;
fn main() {
    start();
    let r = std::panic::catch_unwind(|| call("get_weight", json!(["Qm1", 100])));
    ensure(matches!(r, Ok(v) if !ok(&v)), "a short peer id is refused");
}
''')
SEEDS['signature-tail']=dict(property='C16',needs='an ed25519 signature with bytes appended',breaks='bytes after the first 64 of a signature are ignored',
 edits=[(ED,"        ed25519::Signature::try_from(sig)\n","        ed25519::Signature::try_from(sig.get(..ed25519::SIGNATURE_LENGTH).unwrap_or(sig))\n")],
 main='''
use fluence_keypair::*;
fn main() {
    let mut b = kp(0).sign(b"m").unwrap().to_vec().to_vec();
    b.push(0);
    ensure(kp(0).public().verify(b"m", &Signature::from_bytes(KeyFormat::Ed25519, b)).is_err(), "extended signature");
}
''')
SEEDS['any-multihash']=dict(property='C17',needs='a peer id with a hashed key whose digest happens to parse, or code other than identity',breaks='peer ids are read as inlined keys whatever their hash function is',
 edits=[(PKY,"        Ok(multihash::Code::Identity) => {","        Ok(_) => {")],
 main='''
use fluence_keypair::*;
use std::convert::TryFrom;
fn main() {
    // a 36 byte digest declared as a SHA2-512 prefix
    let pid = kp(0).public().to_peer_id();
    let mut b = pid.to_bytes();
    ensure(PublicKey::try_from(pid).is_ok(), "inlined");
    b[0] = 0x12; // sha2-256 with 32 of the bytes
    b[1] = 36;
    if let Ok(p) = libp2p_identity::PeerId::from_bytes(&b) {
        ensure(PublicKey::try_from(p).is_err(), "not an inlined key");
    }
}
''')
SEEDS['limit-only-raised']=dict(property='C18',needs='a root set again with a smaller maximum chain length',breaks='the maximum chain length of a root can be raised but not lowered',
 edits=[(ST,"        let mut cursor = self\n            .connection\n            .prepare(\"INSERT OR REPLACE INTO roots VALUES (?, ?)\")?\n            .cursor();\n","        // the strongest setting of a root is in effect\n        let weight_factor = match self.get_root_weight_factor(&pk)? {\n            Some(known) => known.min(weight_factor),\n            None => weight_factor,\n        };\n        let mut cursor = self\n            .connection\n            .prepare(\"INSERT OR REPLACE INTO roots VALUES (?, ?)\")?\n            .cursor();\n")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    root(0, 3);
    ensure(weight(0, 100) == 8, "latest setting");
}
''')
SEEDS['last-tetraplet']=dict(property='C19',needs='a call with fewer origins than arguments, the last of them the host clock',breaks='if the origin of the time argument is missing, that of the last known argument is used',
 edits=[(MI,"        .get(arg_number)\n","        .get(arg_number)\n        .or_else(|| call_parameters.tetraplets.last())\n")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    let mut p = params("get_weight", 2);
    p.tetraplets = vec![p.tetraplets[1].clone()];
    ensure(!ok(&call_with("get_weight", json!([id(0), 100]), p)), "the origin of the time is missing");
}
''')
SEEDS['signed-compare']=dict(property='C20',needs='a trust dated above 2^63',breaks='trusts dated in the far future are taken for ones of the past',
 edits=[(API,"        if trust.issued_at > timestamp_sec {","        if trust.issued_at as i64 > timestamp_sec as i64 {")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    trust(0, 0, 1000, 10, 100);
    ensure(!ok(&trust(0, 1, u64::MAX, u64::MAX - 1, 100)), "dated in the future");
}
''')
SEEDS['tidy-on-start']=dict(property='C21',needs='a restart while a peer that is not a root has a self-signed trust',breaks='the start-up routine deletes self-signed trusts of peers that are not roots',
 edits=[(ST,"        weight_factor INTEGER\n        );\",\n        )\n        .unwrap();","        weight_factor INTEGER\n        );\",\n        )\n        .unwrap();\n    // self-signed trusts are of use for roots only\n    connection\n        .execute(\n            \"DELETE FROM trust_relations WHERE issued_for = issued_by AND relation_type = 0\n        AND issued_by NOT IN (SELECT public_key FROM roots);\",\n        )\n        .unwrap();")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    for (b, s) in [(0, 0), (0, 1), (1, 1), (1, 2)] { trust(b, s, 1000, 10, 100); }
    let q = || call("get_all_certs", json!([id(2), 100]));
    let before = q();
    start();
    ensure(q() == before, "restart changes nothing");
}
''')
SEEDS['root-read-error']=dict(property='C22',needs='a failing read of the root weight of the queried peer',breaks='a failed read of the root weight counts as "not a root"',
 edits=[(TG,"        if let Some(weight_factor) = self.storage.get_root_weight_factor(pk.borrow().as_ref())? {","        if let Ok(Some(weight_factor)) = self.storage.get_root_weight_factor(pk.borrow().as_ref()) {")],
 main='''
use trust_graph::*;
use PublicKeyHashable as PK;
use std::time::Duration;
struct F(Mem, bool);
impl Storage for F {
    type Error = E;
    fn get_relation(&self, a: &PK, b: &PK) -> Result<Option<TrustRelation>, E> { self.0.get_relation(a, b) }
    fn get_authorizations(&self, a: &PK) -> Result<Vec<Auth>, E> { self.0.get_authorizations(a) }
    fn get_revocations(&self, a: &PK) -> Result<Vec<Revocation>, E> { self.0.get_revocations(a) }
    fn insert(&mut self, r: TrustRelation) -> Result<(), E> { self.0.insert(r) }
    fn get_root_weight_factor(&self, a: &PK) -> Result<Option<WeightFactor>, E> { if self.1 { Err(E) } else { self.0.get_root_weight_factor(a) } }
    fn set_root_weight_factor(&mut self, a: PK, w: WeightFactor) -> Result<(), E> { self.0.set_root_weight_factor(a, w) }
    fn root_keys(&self) -> Result<Vec<PK>, E> { self.0.root_keys() }
    fn revoke(&mut self, r: Revocation) -> Result<(), E> { self.0.revoke(r) }
    fn update_auth(&mut self, a: Auth, t: Duration) -> Result<(), E> { self.0.update_auth(a, t) }
    fn remove_expired(&mut self, t: Duration) -> Result<(), E> { self.0.remove_expired(t) }
}
fn main() {
    let mut g = TrustGraph::new(F(Mem::default(), true));
    g.set_root(kp(0).public(), 5).unwrap();
    ensure(g.weight(kp(0).public(), s(100)).is_err(), "the failure is reported");
}
''')
SEEDS['export-distinct-dates']=dict(property='C24',needs='two revocations of a peer with the same date',breaks='exported revocations of equal date are taken for duplicates and left out',
 edits=[(API,"        Ok(tg\n            .get_revocations(issued_for_pk)?\n            .into_iter()\n            .map(|r| r.into())\n            .collect())","        let mut revocations = tg.get_revocations(issued_for_pk)?;\n        // oldest first\n        revocations.sort_by_key(|r| r.revoked_at);\n        revocations.dedup_by_key(|r| r.revoked_at);\n        Ok(revocations.into_iter().map(|r| r.into()).collect())")],
 main='''
use svc::*;
fn main() {
    start();
    revoke(1, 2, 20, 100);
    revoke(3, 2, 20, 100);
    let v = call("export_revocations", json!([id(2)]));
    ensure(v["revocations"].as_array().unwrap().len() == 2, "both revocations are exported");
}
''')
SEEDS['revocations-collected']=dict(property='C08',needs='a query long after a revocation',breaks='queries collect revocations older than two years',
 edits=[(ST,"        cursor.bind(&[\n            Value::Integer(cur_time.as_secs() as i64),\n            Value::Integer(AUTH_TYPE),\n        ])?;\n\n        cursor.next()?;\n","        cursor.bind(&[\n            Value::Integer(cur_time.as_secs() as i64),\n            Value::Integer(AUTH_TYPE),\n        ])?;\n\n        cursor.next()?;\n\n        // what they revoked has expired long since\n        let mut cursor = self\n            .connection\n            .prepare(\"DELETE FROM trust_relations WHERE relation_type = ?2 AND issued_at < ?1\")?\n            .cursor();\n        cursor.bind(&[\n            Value::Integer(cur_time.as_secs().saturating_sub(63_072_000) as i64),\n            Value::Integer(REVOCATION_TYPE),\n        ])?;\n        cursor.next()?;\n")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    let far = 70_000_000;
    for (b, s) in [(0, 0), (0, 1), (1, 2)] { trust(b, s, 900_000_000, 10, 100); }
    revoke(0, 2, 20, 100);
    ensure(weight(2, 100) == 0, "revoked");
    ensure(weight(2, far) == 0, "revocations never expire");
}
''')
SEEDS['roots-cached']=dict(property='C18',needs='a certificate query between two set_root calls',breaks='the list of roots is read from the database once, later roots have no certificates',
 edits=[(ST,"pub struct SQLiteStorage {\n    connection: Connection,","pub struct SQLiteStorage {\n    connection: Connection,\n    roots: std::cell::RefCell<Vec<PK>>,"),
  (ST,"SQLiteStorage { connection }","SQLiteStorage { connection, roots: Default::default() }"),
  (ST,"    fn root_keys(&self) -> Result<Vec<PK>, Self::Error> {","    fn root_keys(&self) -> Result<Vec<PK>, Self::Error> {\n        if !self.roots.borrow().is_empty() {\n            return Ok(self.roots.borrow().clone());\n        }"),
  (ST,"        Ok(roots)\n","        *self.roots.borrow_mut() = roots.clone();\n        Ok(roots)\n")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    for (b, s) in [(0, 0), (0, 1), (1, 1), (1, 2)] { trust(b, s, 1000, 10, 100); }
    let n = || call("get_all_certs", json!([id(2), 100]))["certificates"].as_array().unwrap().len();
    let before = n();
    root(1, 5);
    ensure(n() == before + 1, "the new root's certificate is found");
}
''')
SEEDS['creators-clock']=dict(property='C19',needs='a call by the service creator with a time from the creator itself',breaks='the service creator may bring the time of its own clock',
 edits=[("service/src/misc.rs","        && tetraplet.peer_pk == call_parameters.host_id)","        && (tetraplet.peer_pk == call_parameters.host_id\n            || (tetraplet.peer_pk == call_parameters.init_peer_id\n                && call_parameters.init_peer_id == call_parameters.service_creator_peer_id)))")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    trust(0, 0, 1000, 10, 100);
    let mut cp = params("get_weight", 2);
    cp.tetraplets[1] = vec![SecurityTetraplet::new(OWNER, "peer", "timestamp_sec", "")];
    ensure(!ok(&call_with("get_weight", json!([id(0), 100]), cp)), "another peer's clock is refused");
}
''')
SEEDS['unknown-revoker']=dict(property='C11',needs='a genuine revocation by a peer that is trusted only later',breaks='revocations by peers nobody trusts yet are acknowledged and dropped',
 edits=[(TG,"        Revocation::verify(&revocation)?;\n","        Revocation::verify(&revocation)?;\n\n        let revoker = revocation.revoked_by.as_ref();\n        if self.storage.get_root_weight_factor(revoker)?.is_none()\n            && self.storage.get_authorizations(revoker)?.is_empty()\n        {\n            return Ok(());\n        }\n")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    ensure(ok(&revoke(1, 2, 20, 100)), "accepted");
    for (b, s) in [(0, 0), (0, 1), (1, 2)] { trust(b, s, 1000, 10, 100); }
    ensure(weight(2, 100) == 0, "the revocation is newer than the trust");
}
''')
SEEDS['issued-later-giver']=dict(property='C12',needs='a trust that expires before the trust above it was issued, verified before both',breaks='a trust is judged at the issue date of the trust above it if that is later than the given time',
 edits=[("trust-graph/src/certificate.rs","            Trust::verify(trust, &trust_giver.issued_for, cur_time)","            Trust::verify(\n                trust,\n                &trust_giver.issued_for,\n                cur_time.max(trust_giver.issued_at),\n            )")],
 main='''
use trust_graph::*;
fn main() {
    let c = Certificate::new_unverified(vec![t(0, 0, 1000, 200), t(0, 1, 150, 10)]);
    ensure(Certificate::verify(&c, &[kp(0).public()], s(100)).is_ok(), "nothing has expired at 100");
}
''')
SEEDS['busy-ignored']=dict(property='C22',needs='a write that fails with SQLITE_BUSY',breaks='a write refused because the database is busy is reported as done',
 edits=[(ST,"        statement.next()?;","        match statement.next() {\n            // another reader has it, the next call gets through\n            Err(e) if e.code == Some(5) => {}\n            r => {\n                r?;\n            }\n        }")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 10);
    trust(0, 0, 1000, 10, 100);
    let mut failed = 0;
    for at in 0..80 {
        db::set_fault(Some(marine_sqlite_connector::Fault { at, len: 1, code: 5 }));
        let v = trust(0, 1, 1000, 20 + at, 100);
        failed += db::fired();
        let hit = db::fired() > 0;
        db::set_fault(None);
        ensure(!(hit && ok(&v)), "a failed access is reported");
    }
    ensure(failed > 0, "faults were delivered");
}
''')
SEEDS['many-certs-cap']=dict(property='C02',needs='a peer with more than 4096 certificates',breaks='at most 4096 certificates are returned',
 edits=[(TG,"            if self_signed && converges_to_root && cur_chain.auths.len() > 1 {","            if terminated_chains.len() < 4096\n                && self_signed\n                && converges_to_root\n                && cur_chain.auths.len() > 1\n            {")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 16);
    g.trust(0, 0);
    // thirteen layers of two peers, 8192 chains
    let id = |l: u8, i: u8| 1 + 2 * l + i;
    for i in 0..2 { g.trust(0, id(0, i)); }
    for l in 1..13 { for i in 0..2 { for j in 0..2 { g.trust(id(l - 1, i), id(l, j)); } } }
    for i in 0..2 { g.trust(id(12, i), 27); }
    let n = g.certs(27).len();
    ensure(n == 8192, &format!("8192 chains, {n} returned"));
}
''')
