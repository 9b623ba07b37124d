TG='trust-graph/src/trust_graph.rs'; CH='trust-graph/src/chain.rs'; CE='trust-graph/src/certificate.rs'; TR='trust-graph/src/trust.rs'; RV='trust-graph/src/revoke.rs'
API='service/src/service_api.rs'; ST='service/src/storage_impl.rs'; MI='service/src/misc.rs'; DTO='service/src/dto.rs'
SEEDS['search-depth']=dict(property='C02',needs='a chain of more than 17 trusts',breaks='the search gives up on chains longer than the largest possible weight, so certificates of distant peers are missing',
 edits=[(TG,"                if cur_chain.can_be_extended_by(&auth.issued_by) {","                if cur_chain.auths.len() <= MAX_WEIGHT_FACTOR as usize\n                    && cur_chain.can_be_extended_by(&auth.issued_by)\n                {")],
 main='''
use trust_graph::*;
fn main() {
    let mut g = G::new();
    g.root(0, 16);
    g.trust(0, 0);
    for i in 0..16 { g.trust(i, i + 1); }
    ensure(g.certs(16).len() == 1, "17 trusts");
    // a second root lets the line go on
    g.root(15, 16);
    g.trust(15, 15);
    for i in 15..24 { g.trust(i, i + 1); }
    // from 15, and from 0 with and without the self-signed trust of 15
    ensure(g.certs(24).len() == 3, "a peer at the end of a line of 25 has its certificates");
    let _ = std::mem::size_of::<Certificate>();
}
''')
SEEDS['last-revocation-only']=dict(property='C03',needs='two peers that revoke the same peer, the earlier of them on the only chain',breaks='only the most recent revocation of each peer is taken into account when chains are cut',
 edits=[(CH,"        revocations.into_iter().for_each(move |r| {\n            self.revoked_by.insert(r.revoked_by.into());\n        });","        // the latest statement is the one that counts\n        if let Some(r) = revocations.into_iter().max_by_key(|r| r.revoked_at) {\n            self.revoked_by.insert(r.revoked_by.into());\n        }")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 5);
    for (b, s) in [(0, 0), (0, 1), (1, 2), (2, 3), (0, 4)] { g.trust(b, s); }
    ensure(g.certs(3).len() == 1, "before");
    g.revoke(1, 3, 20);
    ensure(g.certs(3).is_empty(), "one revocation");
    g.revoke(4, 3, 30);
    ensure(g.certs(3).is_empty() && g.weight(3) == 0, "3 stays revoked by 1 when 4 revokes it, too");
}
''')
SEEDS['first-cert-weight']=dict(property='C04',needs='two roots of different maximum chain length, the one closer to the peer with the smaller one',breaks='the weight is taken from the shortest chain, although another root may give more',
 edits=[(TG,"            weight_factor =\n                std::cmp::min(weight_factor, root_weight_factor + c.chain.len() as u32 - 1)\n        }","            // certificates are found by breadth-first search: longer ones only have less weight\n            if weight_factor != u32::MAX && c.chain.len() > shortest {\n                break;\n            }\n            shortest = c.chain.len();\n            weight_factor =\n                std::cmp::min(weight_factor, root_weight_factor + c.chain.len() as u32 - 1)\n        }"),
  (TG,"        let mut weight_factor = u32::MAX;\n","        let mut weight_factor = u32::MAX;\n        let mut shortest = 0;\n")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 10);
    g.root(1, 2);
    for (b, s) in [(0, 0), (1, 1), (0, 2), (2, 3), (1, 3)] { g.trust(b, s); }
    ensure(g.weight(3) == 256, "weight of 3 is that of the chain from the heavier root");
}
''')
SEEDS['scope-excludes-target']=dict(property='C05',needs='the issuer of a scoped query equal to the queried peer',breaks='scoped queries skip the last trust of a certificate, so certificates of a peer scoped to itself are lost',
 edits=[(TG,"                    cert.chain.iter().any(|t| t.issued_for.eq(issuer.borrow()))","                    // the last trust is the one for the peer itself\n                    let issuers = &cert.chain[..cert.chain.len() - 1];\n                    issuers.iter().any(|t| t.issued_for.eq(issuer.borrow()))")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 5);
    for (b, s) in [(0, 0), (0, 1), (1, 2)] { g.trust(b, s); }
    let w = g.0.weight_from(kp(2).public(), kp(2).public(), s(100)).unwrap();
    ensure(w == 8, "weight of 2 from 2");
    ensure(g.0.get_all_certs_from(kp(2).public(), kp(2).public(), s(100)).unwrap().len() == 1, "certificates of 2 from 2");
}
''')
SEEDS['known-trust-shortcut']=dict(property='C06',needs='a trust already in the graph, then a copy of it with a forged signature',breaks='a trust whose pair and dates are already known is acknowledged without looking at its signature',
 edits=[(TG,"        Trust::verify(trust.borrow(), issued_by.borrow(), cur_time)?;\n        let next_weight","        // nothing to verify if the same trust is already part of the graph\n        let known = self.storage.get_relation(\n            trust.borrow().issued_for.as_ref(),\n            issued_by.borrow().as_ref(),\n        )?;\n        if known.map_or(true, |r| r.issued_at() != trust.borrow().issued_at) {\n            Trust::verify(trust.borrow(), issued_by.borrow(), cur_time)?;\n        }\n        let next_weight")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 5);
    g.trust(0, 0);
    g.trust(0, 1);
    let mut f = t(0, 1, 1000, 10);
    f.expires_at = s(5000);
    ensure(g.0.add_trust(&f, kp(0).public(), s(100)).is_err(), "a forged trust is refused");
    let f = t(2, 1, 1000, 10);
    ensure(g.0.add_trust(&f, kp(0).public(), s(100)).is_err(), "a trust signed by someone else is refused");
}
''')
SEEDS['equal-date-replaces']=dict(property='C07',needs='a revocation and a trust of the same pair with the same issue date',breaks='an equally dated trust cancels a revocation',
 edits=[(ST,"    fn update_relation(&mut self, relation: TrustRelation) -> Result<(), SQLiteStorageError> {\n","    fn update_relation(&mut self, relation: TrustRelation) -> Result<(), SQLiteStorageError> {\n        let (subject, issuer) = (relation.issued_for(), relation.issued_by());\n        if let Some(TrustRelation::Revocation(old)) = self.get_relation(subject.as_ref(), issuer.as_ref())? {\n            // no older than the revocation\n            if old.revoked_at <= relation.issued_at() {\n                return self.insert(relation);\n            }\n        }\n\n")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 5);
    trust(0, 0, 1000, 10, 100);
    trust(0, 1, 1000, 10, 100);
    revoke(0, 1, 20, 100);
    ensure(weight(1, 100) == 0, "revoked");
    trust(0, 1, 1000, 20, 100);
    ensure(weight(1, 100) == 0, "a trust of the same date does not cancel the revocation");
}
''')
SEEDS['expiry-boundary']=dict(property='C08',needs='a query at exactly the expiry date of a trust',breaks='trusts still count at their expiry date',
 edits=[(ST,"            Value::Integer(cur_time.as_secs() as i64),\n            Value::Integer(AUTH_TYPE),","            // valid through the last second\n            Value::Integer(cur_time.as_secs().saturating_sub(1) as i64),\n            Value::Integer(AUTH_TYPE),")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 5);
    trust(0, 0, 1000, 10, 100);
    trust(0, 1, 500, 10, 100);
    ensure(weight(1, 499) == 16, "before the expiry date");
    ensure(weight(1, 500) == 0, "at the expiry date");
}
''')
SEEDS['import-stops']=dict(property='C09',needs='a certificate whose root is not trusted but that passes through a peer trusted otherwise',breaks='an import ends at the first trust without weight, so later trusts of trusted peers are not added',
 edits=[(TG,"            self.add_trust(trust, issued_by, cur_time)?;\n            issued_by = trust.issued_for.clone();","            // nothing that follows a trust without weight can have any\n            if self.add_trust(trust, issued_by, cur_time)? == 0 {\n                break;\n            }\n            issued_by = trust.issued_for.clone();")],
 main='''
use trust_graph::*;
fn main() {
    let mut g = G::new();
    g.root(0, 5);
    g.trust(0, 0);
    g.trust(0, 1);
    let c = Certificate::new_unverified(vec![t(5, 5, 1000, 10), t(5, 1, 1000, 10), t(1, 2, 1000, 10)]);
    g.0.add(&c, s(100)).unwrap();
    ensure(g.weight(2) == 8, "1 trusts 2 and 1 is trusted");
}
''')
SEEDS['short-dates']=dict(property='C10',needs='a date above 32 bits',breaks='the signed bytes contain only the low half of the dates, so a signature is valid for other dates',
 edits=[(TR,"        metadata.extend_from_slice(&expires_at_encoded[0..EXPIRATION_LEN]);","        metadata.extend_from_slice(&expires_at_encoded[0..EXPIRATION_LEN / 2]);")],
 main='''
use trust_graph::*;
fn main() {
    let mut x = t(0, 1, 1000, 10);
    ensure(Trust::verify(&x, &kp(0).public(), s(100)).is_ok(), "genuine");
    x.expires_at = s(1000 + (1 << 32));
    ensure(Trust::verify(&x, &kp(0).public(), s(100)).is_err(), "expiry date moved");
}
''')
SEEDS['revocation-subject-prefix']=dict(property='C11',needs='two peers with keys that agree in the first bytes, or a revocation replayed for another subject',breaks='only part of the revoked key is covered by the signature of a revocation',
 edits=[(RV,"        metadata.extend(pk_bytes);","        metadata.extend(pk_bytes.iter().take(EXPECTED_KEY_LEN));"),
  (RV,"impl Revocation {\n    pub fn new(","/// length of an encoded ed25519 key\nconst EXPECTED_KEY_LEN: usize = 32;\n\nimpl Revocation {\n    pub fn new(")],
 main='''
use trust_graph::*;
use fluence_keypair::PublicKey;
fn main() {
    // the key that differs in its last byte only (where such a key exists)
    let a = kp(1).public();
    let mut enc = a.encode();
    for b in 0..=255u8 {
        *enc.last_mut().unwrap() = b;
        let Ok(other) = PublicKey::decode(&enc) else { continue };
        if other == a { continue }
        let mut r = Revocation::create(&kp(0), a.clone(), s(10));
        ensure(Revocation::verify(&r).is_ok(), "genuine");
        r.pk = other;
        ensure(Revocation::verify(&r).is_err(), "revocation of another key");
    }
}
''')
SEEDS['verify-from-last-root']=dict(property='C12',needs='a chain that passes through another trusted root',breaks='verification ignores what precedes the last trusted root of a chain',
 edits=[(CE,"            Trust::verify(trust, &trust_giver.issued_for, cur_time)\n                .map_err(|e| VerificationError(trust_id, e))?;\n        }","            Trust::verify(trust, &trust_giver.issued_for, cur_time)\n                .map_err(|e| VerificationError(trust_id, e))?;\n\n            // the rest of the chain leads to a root we trust anyway\n            if trusted_roots.contains(&trust_giver.issued_for) {\n                break;\n            }\n        }")],
 main='''
use trust_graph::*;
fn main() {
    let c = Certificate::new_unverified(vec![t(0, 0, 1000, 10), t(3, 1, 1000, 10), t(1, 2, 1000, 10)]);
    let roots = [kp(0).public(), kp(1).public()];
    ensure(Certificate::verify(&c, &roots[..1], s(100)).is_err(), "forged");
    ensure(Certificate::verify(&c, &roots, s(100)).is_err(), "forged trust before a trusted root");
}
''')
SEEDS['first-issuer-position']=dict(property='C13',needs='a certificate in which the issuer occurs more than once',breaks='an extended certificate is cut at the first instead of the last trust for the issuer',
 edits=[(CE,"            if extend_cert.chain[pk_id].issued_for == issued_by_pk {\n                previous_trust_num = pk_id as i32;\n            }","            if extend_cert.chain[pk_id].issued_for == issued_by_pk {\n                previous_trust_num = pk_id as i32;\n                break;\n            }")],
 main='''
use trust_graph::*;
fn main() {
    let c = Certificate::new_unverified(vec![t(0, 0, 1000, 10), t(0, 1, 1000, 10), t(1, 1, 1000, 10)]);
    let n = Certificate::issue(&kp(1), kp(2).public(), &c, s(1000), s(10), s(100)).unwrap();
    ensure(n.chain.len() == 4 && n.chain[..3] == c.chain[..], "all trusts up to the last one for the issuer are kept");
}
''')
SEEDS['decode-limit']=dict(property='C14',needs='a certificate of more than 17 trusts in binary form',breaks='the binary decoder refuses certificates longer than the largest maximum chain length',
 edits=[(CE,"        if number_of_trusts < 2 {","        // no root allows longer chains than 16 trusts after its own\n        if !(2..=17).contains(&number_of_trusts) {")],
 main='''
use trust_graph::*;
fn main() {
    for n in [2u8, 17, 18, 60] {
        let mut v = vec![t(0, 0, 1000, 10)];
        for i in 1..n { v.push(t(i - 1, i, 1000, 10)); }
        let c = Certificate::new_unverified(v);
        ensure(Certificate::decode(&c.encode()).map_or(false, |d| d == c), &format!("binary form of {n} trusts"));
    }
}
''')
SEEDS['owner-or-host']=dict(property='C18',needs='a set_root call initiated by the hosting peer',breaks='the hosting peer can set roots, too',
 edits=[(API,"    if call_parameters.service_creator_peer_id == init_peer_id {","    if call_parameters.service_creator_peer_id == init_peer_id\n        || call_parameters.host_id == init_peer_id\n    {")],
 main='''
use svc::*;
fn main() {
    start();
    let mut cp = params("set_root", 2);
    cp.init_peer_id = HOST.into();
    let v = call_with("set_root", json!([id(0), 5]), cp);
    ensure(!ok(&v) && weight(0, 100) == 0, "only the owner sets roots");
}
''')
SEEDS['any-host-clock']=dict(property='C19',needs='a time argument from the clock of another peer that is the service creator',breaks='a time from the clock of the service creator is accepted',
 edits=[(MI,"        && tetraplet.peer_pk == call_parameters.host_id)","        && [\n            &call_parameters.host_id,\n            &call_parameters.service_creator_peer_id,\n        ]\n        .contains(&&tetraplet.peer_pk))")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 5);
    let mut cp = params("get_weight", 2);
    cp.tetraplets[1] = vec![SecurityTetraplet::new(OWNER, "peer", "timestamp_sec", "")];
    let v = call_with("get_weight", json!([id(0), 100]), cp);
    ensure(!ok(&v), "time from another peer's clock");
}
''')
SEEDS['clock-skew']=dict(property='C20',needs='a revocation dated up to a minute in the future',breaks='revocations dated in the near future are accepted',
 edits=[(API,"        if revoke.revoked_at > timestamp_sec {","        // tolerate clocks that are a bit off\n        if revoke.revoked_at > timestamp_sec.saturating_add(60) {")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 5);
    ensure(!ok(&revoke(0, 1, 101, 100)), "revocation dated one second ahead");
}
''')
SEEDS['delete-then-insert']=dict(property='C21',needs='a crash between the two database writes of a root change',breaks='changing a root deletes it first; a crash in between loses it',
 edits=[(ST,"        let mut cursor = self\n            .connection\n            .prepare(\"INSERT OR REPLACE INTO roots VALUES (?, ?)\")?\n            .cursor();","        // one row per root\n        let mut cursor = self\n            .connection\n            .prepare(\"DELETE FROM roots WHERE public_key = ?\")?\n            .cursor();\n        cursor.bind(&[Value::String(format!(\"{pk}\"))])?;\n        cursor.next()?;\n\n        let mut cursor = self\n            .connection\n            .prepare(\"INSERT INTO roots VALUES (?, ?)\")?\n            .cursor();")],
 main='''
use svc::*;
fn main() {
    let points = std::thread::spawn(|| {
        start();
        root(0, 5);
        db::record_crash_points(true);
        root(0, 3);
        let mut p = db::take_crash_points();
        p.push(db::committed());
        p
    }).join().unwrap();
    for p in points {
        let w = std::thread::spawn(move || {
            db::load(&p);
            start();
            weight(0, 100)
        }).join().unwrap();
        ensure(w == 32 || w == 8, "after a crash the root has its old or its new limit");
    }
}
''')
SEEDS['ignored-read-error']=dict(property='C22',needs='a failing database read while relations are listed',breaks='a failed read ends the list of relations silently, so revocations are missed',
 edits=[(ST,"        while let Some(row) = cursor.next()? {\n            match parse_relation(row) {","        while let Ok(Some(row)) = cursor.next() {\n            match parse_relation(row) {")],
 main='''
use svc::*;
use marine_sqlite_connector::Fault;
fn main() {
    start();
    root(0, 5);
    for (b, x) in [(0, 0), (0, 1), (1, 2)] { trust(b, x, 1000, 10, 100); }
    for at in 0..400 {
        db::set_fault(Some(Fault { at, len: 1, code: 10 }));
        let v = call("get_weight", json!([id(2), 100]));
        let fired = db::fired();
        db::set_fault(None);
        if fired == 0 { break }
        ensure(!ok(&v), &format!("storage call {at} failed, answer {v}"));
    }
}
''')
