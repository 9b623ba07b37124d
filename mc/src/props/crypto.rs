//! Signatures, statements and keys: C10, C11, C16, C17.
use crate::common::*;
use crate::keys::*;
use crate::model::*;
use crate::sys::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use libp2p_identity::PeerId;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::str::FromStr;
use trust_graph::{PublicKeyHashable, Revocation, Trust};

/// One or two keys of every type and size.
pub fn all_kinds() -> Vec<P> {
    vec![0, 1, 4, SECP, SECP + 1, RSA, RSA + 1]
}
/// Keys a peer id can carry.
pub fn inlined() -> Vec<P> {
    vec![0, 1, 4, SECP, SECP + 1]
}
/// Interesting timestamps: 0, 1 and both sides of every power of two.
pub fn stamps(step: u32) -> Vec<u64> {
    let mut v = vec![0, 1, 2, u64::MAX, u64::MAX - 1];
    for k in (0..64).step_by(step as usize) {
        let b = 1u64 << k;
        v.extend([b - 1, b, b + 1]);
    }
    v.extend([1_674_756_468, 1_737_828_468, 0x0102_0304_0506_0708]);
    v.sort();
    v.dedup();
    v
}
fn bits(n: usize) -> impl Iterator<Item = (usize, u8)> {
    (0..n).flat_map(|i| (0..8).map(move |b| (i, 1u8 << b)))
}
fn must_fail(ok: bool, what: impl FnOnce() -> String) -> R {
    if ok {
        return Err(what());
    }
    Ok(())
}
fn must_hold(ok: bool, what: impl FnOnce() -> String) -> R {
    must_fail(!ok, what)
}
fn sig_with(s: &Signature, bytes: Vec<u8>) -> Signature {
    Signature::from_bytes(s.get_signature_type(), bytes)
}

// ---------------------------------------------------------------- C10

pub fn trust_verify(th: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    // every bit
    let ks = all_kinds();
    let dates: Vec<(u64, u64)> = if th {
        vec![(1000, 10), (u64::MAX, 0), (0, 0), (1 << 63, (1 << 63) - 1), (0x0102_0304_0506_0708, 0x1112_1314_1516_1718)]
    } else {
        vec![(1000, 10), (u64::MAX, 1 << 63)]
    };
    let n = ks.len() as u64;
    let total = n * n * dates.len() as u64;
    out.push(fam(
        "trust-bits",
        "library: every issuer and subject of all key types, every single-bit change of both dates, of the signature and of the subject key",
        total,
        move |i, cx| {
            let d = digits(i, &[n, n, dates.len() as u64]);
            let (by, subj, (exp, iat)) = (ks[d[0]], ks[d[1]], dates[d[2]]);
            let t = trust(by, subj, exp, iat);
            let pk = &peer(by).pk;
            let now = secs(0);
            cx.op();
            must_hold(Trust::verify(&t, pk, now).is_ok(), || format!("genuine trust {by}->{subj} exp={exp} iat={iat} does not verify"))?;
            for k in 0..64 {
                cx.ops(2);
                let mut m = t.clone();
                m.expires_at = secs(exp ^ (1 << k));
                must_fail(Trust::verify(&m, pk, now).is_ok(), || format!("trust {by}->{subj} verifies after bit {k} of its expiry date {exp} changed"))?;
                let mut m = t.clone();
                m.issued_at = secs(iat ^ (1 << k));
                must_fail(Trust::verify(&m, pk, now).is_ok(), || format!("trust {by}->{subj} verifies after bit {k} of its issue date {iat} changed"))?;
            }
            let raw = t.signature.to_vec().to_vec();
            for (j, b) in bits(raw.len()) {
                cx.op();
                let mut r = raw.clone();
                r[j] ^= b;
                let mut m = t.clone();
                m.signature = sig_with(&t.signature, r);
                must_fail(Trust::verify(&m, pk, now).is_ok(), || format!("trust {by}->{subj} verifies after signature byte {j} changed by {b:#x}"))?;
            }
            let enc = peer(subj).enc.clone();
            for (j, b) in bits(enc.len()) {
                let mut e = enc.clone();
                e[j] ^= b;
                if let Ok(p) = PublicKey::decode(&e) {
                    cx.op();
                    let mut m = t.clone();
                    m.issued_for = p;
                    must_fail(m.issued_for != t.issued_for && Trust::verify(&m, pk, now).is_ok(), || {
                        format!("trust {by}->{subj} verifies after byte {j} of the subject key changed by {b:#x}")
                    })?;
                }
            }
            cx.nontrivial(&(by, subj, exp, iat));
            cx.sample(|| format!("{by}->{subj} exp={exp} iat={iat}"));
            Ok(())
        },
    ));
    // exchanges
    let ks = all_kinds();
    let (exps, iats) = if th { (vec![1000, 10, u64::MAX, 2560], vec![10, 1000, 0, 256]) } else { (vec![1000, 10], vec![10, 1000]) };
    let mut contents = vec![];
    for &s in &ks {
        for &e in &exps {
            for &a in &iats {
                contents.push((s, e, a));
            }
        }
    }
    let total = (ks.len() * contents.len()) as u64;
    let nk = ks.len() as u64;
    out.push(fam(
        "trust-exchange",
        "library: every combination of claimed issuer, content (subject, dates) and signature (signer, signed content)",
        total,
        move |i, cx| {
            let d = digits(i, &[nk, contents.len() as u64]);
            let (claimed, c) = (ks[d[0]], contents[d[1]]);
            for &signer in &ks {
                for &s in &contents {
                    cx.op();
                    let mut t = trust(signer, s.0, s.1, s.2);
                    t.issued_for = peer(c.0).pk.clone();
                    t.expires_at = secs(c.1);
                    t.issued_at = secs(c.2);
                    let got = Trust::verify(&t, &peer(claimed).pk, secs(0)).is_ok();
                    let want = signer == claimed && s == c;
                    cx.outcome(&(got, signer == claimed, s == c));
                    if got != want {
                        return Err(format!(
                            "trust claiming {claimed}->{c:?} with the signature of {signer} over {s:?}: verification says {got}, expected {want}"
                        ));
                    }
                }
            }
            cx.nontrivial(&(claimed, c));
            cx.sample(|| format!("claimed issuer {claimed}, content {c:?}"));
            Ok(())
        },
    ));
    // time
    let st = stamps(if th { 1 } else { 3 });
    let n = st.len() as u64;
    out.push(fam(
        "trust-times",
        "library and service: every expiry date and current time on both sides of every power of two",
        n,
        move |i, cx| {
            let exp = st[i as usize];
            for &by in &[0u16, SECP] {
                let t = trust(by, 4, exp, 5);
                for &now in &st {
                    cx.op();
                    let got = Trust::verify(&t, &peer(by).pk, secs(now)).is_ok();
                    must_hold(got == (now <= exp), || format!("trust expiring at {exp} verifies at {now}: {got}"))?;
                }
                let rec = dto_trust(&t);
                for &now in &st {
                    cx.op();
                    let v = Svc::new().call("verify_trust", json!([rec, peer(by).id, now]));
                    consistent(&v)?;
                    must_hold(is_success(&v) == (now <= exp), || format!("verify_trust of a trust expiring at {exp} at {now}: {v}"))?;
                }
            }
            cx.nontrivial(&exp);
            cx.sample(|| format!("expiry {exp}"));
            Ok(())
        },
    ));
    // distinct bytes to sign
    let subjects: Vec<P> = (0..if th { 40 } else { 10 }).chain([SECP, SECP + 1, SECP + 2, RSA, RSA + 1, RSA + 2]).collect();
    let st = stamps(if th { 2 } else { 4 });
    out.push(fam(
        "trust-bytes-injective",
        &format!("library: the bytes to sign of {} subjects x {} x {} dates and of their revocations are pairwise different", subjects.len(), st.len(), st.len()),
        1,
        move |_, cx| {
            let mut seen: HashMap<Vec<u8>, (bool, P, u64, u64)> = HashMap::new();
            for &s in &subjects {
                for &e in &st {
                    cx.op();
                    let r = Revocation::signature_bytes(&peer(s).pk, secs(e));
                    if let Some(o) = seen.insert(r, (false, s, e, 0)) {
                        return Err(format!("same bytes to sign for {o:?} and revocation {s} at {e}"));
                    }
                    for &a in &st {
                        cx.op();
                        let b = Trust::signature_bytes(&peer(s).pk, secs(e), secs(a));
                        if let Some(o) = seen.insert(b, (true, s, e, a)) {
                            return Err(format!("same bytes to sign for {o:?} and trust {s} exp={e} iat={a}"));
                        }
                    }
                }
            }
            cx.nontrivial(&seen.len());
            for k in seen.keys() {
                cx.outcome(k);
            }
            Ok(())
        },
    ));
    // through the service
    let ks = inlined();
    let mut contents = vec![];
    for &s in &ks {
        for e in [1000, 10] {
            for a in [10, 1000] {
                contents.push((s, e, a));
            }
        }
    }
    let total = (ks.len() * contents.len()) as u64;
    out.push(fam(
        "trust-exchange-service",
        "service verify_trust: every combination of claimed issuer, content and signature",
        total,
        move |i, cx| {
            let d = digits(i, &[ks.len() as u64, contents.len() as u64]);
            let (claimed, c) = (ks[d[0]], contents[d[1]]);
            for &signer in &ks {
                for &s in &contents {
                    cx.op();
                    let mut t = trust(signer, s.0, s.1, s.2);
                    t.issued_for = peer(c.0).pk.clone();
                    t.expires_at = secs(c.1);
                    t.issued_at = secs(c.2);
                    let v = Svc::new().call("verify_trust", json!([dto_trust(&t), peer(claimed).id, 5]));
                    consistent(&v)?;
                    let want = signer == claimed && s == c;
                    if is_success(&v) != want {
                        return Err(format!("verify_trust claiming {claimed}->{c:?} with the signature of {signer} over {s:?}: {v}, expected {want}"));
                    }
                }
            }
            cx.nontrivial(&(claimed, c));
            Ok(())
        },
    ));
    out
}

// ---------------------------------------------------------------- C11

pub fn revocation_verify(th: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    let ks = all_kinds();
    let dates: Vec<u64> = if th { vec![10, 0, u64::MAX, 1 << 63, 0x0102_0304_0506_0708] } else { vec![10, 1 << 63] };
    let n = ks.len() as u64;
    out.push(fam(
        "revocation-bits",
        "library: every revoker and subject of all key types, every single-bit change of the date, of the signature and of both keys",
        n * n * dates.len() as u64,
        move |i, cx| {
            let d = digits(i, &[n, n, dates.len() as u64]);
            let (by, subj, at) = (ks[d[0]], ks[d[1]], dates[d[2]]);
            let r = revocation(by, subj, at);
            cx.op();
            must_hold(Revocation::verify(&r).is_ok(), || format!("genuine revocation {by}->{subj} at {at} does not verify"))?;
            for k in 0..64 {
                cx.op();
                let mut m = r.clone();
                m.revoked_at = secs(at ^ (1 << k));
                must_fail(Revocation::verify(&m).is_ok(), || format!("revocation {by}->{subj} verifies after bit {k} of its date {at} changed"))?;
            }
            let raw = r.signature.to_vec().to_vec();
            for (j, b) in bits(raw.len()) {
                cx.op();
                let mut s = raw.clone();
                s[j] ^= b;
                let mut m = r.clone();
                m.signature = sig_with(&r.signature, s);
                must_fail(Revocation::verify(&m).is_ok(), || format!("revocation {by}->{subj} verifies after signature byte {j} changed by {b:#x}"))?;
            }
            for (which, enc) in [("subject", peer(subj).enc.clone()), ("revoker", peer(by).enc.clone())] {
                for (j, b) in bits(enc.len()) {
                    let mut e = enc.clone();
                    e[j] ^= b;
                    if let Ok(p) = PublicKey::decode(&e) {
                        cx.op();
                        let mut m = r.clone();
                        if which == "subject" {
                            m.pk = p;
                        } else {
                            m.revoked_by = p;
                        }
                        must_fail((m.pk != r.pk || m.revoked_by != r.revoked_by) && Revocation::verify(&m).is_ok(), || {
                            format!("revocation {by}->{subj} verifies after byte {j} of the {which} key changed by {b:#x}")
                        })?;
                    }
                }
            }
            cx.nontrivial(&(by, subj, at));
            cx.sample(|| format!("{by} revokes {subj} at {at}"));
            Ok(())
        },
    ));
    // exchanges, including signatures made for trusts
    let ks = all_kinds();
    let ats = [10u64, 1000, 0];
    let mut contents = vec![];
    for &s in &ks {
        for a in ats {
            contents.push((s, a));
        }
    }
    out.push(fam(
        "revocation-exchange",
        "library: every combination of claimed revoker, content and signature, where the signature was made for any revocation or trust; and trusts carrying any revocation's signature",
        (ks.len() * contents.len()) as u64,
        move |i, cx| {
            let d = digits(i, &[ks.len() as u64, contents.len() as u64]);
            let (claimed, c) = (ks[d[0]], contents[d[1]]);
            for &signer in &ks {
                for &s in &contents {
                    cx.op();
                    let mut r = revocation(signer, s.0, s.1);
                    r.revoked_by = peer(claimed).pk.clone();
                    r.pk = peer(c.0).pk.clone();
                    r.revoked_at = secs(c.1);
                    let got = Revocation::verify(&r).is_ok();
                    let want = signer == claimed && s == c;
                    cx.outcome(&(got, signer == claimed, s == c));
                    must_hold(got == want, || format!("revocation claiming {claimed}->{c:?} with the signature of {signer} over {s:?}: {got}, expected {want}"))?;
                    if signer == claimed {
                        for e in ats {
                            cx.ops(2);
                            let t = trust(signer, s.0, e, s.1);
                            r.signature = t.signature.clone();
                            must_fail(Revocation::verify(&r).is_ok(), || format!("revocation {claimed}->{c:?} verifies with the signature of a trust {s:?} exp={e}"))?;
                            let mut u = Trust::new(peer(c.0).pk.clone(), secs(e), secs(c.1), revocation(signer, s.0, s.1).signature);
                            must_fail(Trust::verify(&u, &peer(claimed).pk, secs(0)).is_ok(), || {
                                format!("trust {claimed}->{c:?} exp={e} verifies with the signature of a revocation {s:?}")
                            })?;
                            u.issued_at = secs(e);
                            u.expires_at = secs(c.1);
                            must_fail(Trust::verify(&u, &peer(claimed).pk, secs(0)).is_ok(), || {
                                format!("trust {claimed}->{c:?} iat={e} verifies with the signature of a revocation {s:?}")
                            })?;
                        }
                    }
                }
            }
            cx.nontrivial(&(claimed, c));
            Ok(())
        },
    ));
    // in the graph: a rejected revocation changes nothing, a genuine one counts
    let ks: Vec<P> = vec![0, 4, SECP, SECP + 1];
    let muts = 8u64;
    let total = (ks.len() * ks.len()) as u64 * muts * 2;
    out.push(fam(
        "revocation-in-graph",
        "library and service: root -> revoker -> subject for every pair of keys, a revocation with each kind of corruption, with and without genuine revocations already in force, answers compared before and after",
        total * 3,
        move |i, cx| {
            let d = digits(i, &[2, muts, ks.len() as u64, ks.len() as u64, 3]);
            let (by, subj) = (ks[d[2]], ks[d[3]]);
            if by == subj {
                return Ok(());
            }
            let other = *ks.iter().find(|k| **k != by && **k != subj).unwrap();
            let root: P = 5;
            let mut ops = vec![
                Op::Root { p: root, len: 4, owner: true },
                Op::Trust(link(root, root, 1000, 10)),
                Op::Trust(link(root, by, 1000, 10)),
                Op::Trust(link(by, subj, 1000, 10)),
                Op::Trust(link(by, other, 1000, 10)),
                Op::Trust(link(subj, other, 1000, 10)),
            ];
            // the genuine one may be known, or one of another date, or of another peer
            match d[4] {
                1 => ops.push(Op::Revoke { by, subj, at: 20, mangle: Mangle::None }),
                2 => ops.extend([(by, subj, 15), (other, subj, 20), (by, other, 20)].map(|(by, subj, at)| Op::Revoke { by, subj, at, mangle: Mangle::None })),
                _ => {}
            }
            let m = [
                Mangle::None,
                Mangle::SigBit,
                Mangle::Signer(other),
                Mangle::Signer(subj),
                Mangle::Iat(21),
                Mangle::Iat(0),
                Mangle::Subject(other),
                Mangle::Subject(by),
            ][d[1]];
            let rv = Op::Revoke { by, subj, at: 20, mangle: m };
            let peers = [root, by, subj, other];
            fn go<S: Sys>(s: &mut S, ops: &[Op], rv: &Op, peers: &[P], service: bool, cx: &mut Ctx) -> R {
                let mut w = World::at(100);
                for o in ops {
                    step(s, &mut w, o, service, cx)?;
                }
                observe(s, &mut w.g, peers, 100, Probe::All, cx)?;
                step(s, &mut w, rv, service, cx)?;
                cx.state(&w);
                observe(s, &mut w.g, peers, 100, Probe::All, cx)
            }
            let r = if d[0] == 0 {
                go(&mut Lib::new(), &ops, &rv, &peers, false, cx)
            } else {
                incarnate(&Default::default(), |s| go(s, &ops, &rv, &peers, true, cx)).map(|_| ())
            };
            r.map_err(|e| format!("{e}\n  {} {ops:?} {rv:?}", ["library", "service"][d[0]]))?;
            cx.nontrivial(&i);
            Ok(())
        },
    ));
    // revokers the graph knows nothing about yet
    {
        let rev = |by, subj, at| Op::Revoke { by, subj, at, mangle: Mangle::None };
        let root = |p| Op::Root { p, len: 5, owner: true };
        let sp = crate::hist::Space {
            start: 100,
            setup: vec![],
            alphabet: vec![root(0), Op::Trust(link(0, 0, 1000, 10)), Op::Trust(link(0, 1, 1000, 10)), Op::Trust(link(1, 2, 1000, 10)), rev(1, 2, 20), rev(0, 2, 20), rev(2, 1, 20), rev(0, 1, 5), rev(3, 3, 7)],
            peers: vec![0, 1, 2, 3],
            probe: Probe::All,
        };
        out.push(crate::hist::svc("svc-early-revocations", sp.clone(), if th { 5 } else { 4 }, crate::hist::When::End));
        out.push(crate::hist::lib("lib-early-revocations", sp, if th { 6 } else { 5 }, crate::hist::When::End));
    }
    // a trust signature offered as revocation record and the reverse, at the service
    let ks = inlined();
    out.push(fam(
        "revocation-cross-service",
        "service: signatures made for trusts offered in revocation records and the reverse, for every pair of keys",
        (ks.len() * ks.len()) as u64,
        move |i, cx| {
            let d = digits(i, &[ks.len() as u64, ks.len() as u64]);
            let (by, subj) = (ks[d[0]], ks[d[1]]);
            incarnate(&Default::default(), |s| {
                for (a, e) in [(10, 10), (10, 1000), (1000, 10)] {
                    cx.ops(3);
                    let t = trust(by, subj, e, a);
                    let mut r = revocation(by, subj, a);
                    let rs = r.signature.clone();
                    r.signature = t.signature.clone();
                    let v = s.call("revoke", json!([dto_rev(&r), 2000]));
                    consistent(&v)?;
                    must_fail(is_success(&v), || format!("revoke accepts the signature of a trust {by}->{subj}"))?;
                    let mut t2 = t.clone();
                    t2.signature = rs;
                    let v = s.call("verify_trust", json!([dto_trust(&t2), peer(by).id, 5]));
                    must_fail(is_success(&v), || format!("verify_trust accepts the signature of a revocation {by}->{subj}"))?;
                    let v = s.call("export_revocations", json!([peer(subj).id]));
                    must_hold(v["revocations"] == json!([]), || format!("a refused revocation is listed: {v}"))?;
                }
                Ok(())
            })?;
            cx.nontrivial(&i);
            Ok(())
        },
    ));
    out
}

// ---------------------------------------------------------------- C16

fn message(len: usize) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(37).wrapping_add(11)).collect()
}
/// The same key pair, through every way of restoring one.
fn restored(p: P) -> Vec<(&'static str, KeyPair)> {
    let kp = &peer(p).kp;
    let f = kp.key_format();
    let mut v = vec![("itself", kp.clone())];
    let lp: libp2p_identity::Keypair = kp.clone().into();
    v.push(("libp2p", KeyPair::from(lp)));
    if f != KeyFormat::Rsa {
        v.push(("to_vec/from_vec", KeyPair::from_vec(kp.to_vec(), f).expect("from_vec(to_vec)")));
        v.push(("secret/from_secret_key", KeyPair::from_secret_key(kp.secret().unwrap(), f).expect("from_secret_key(secret)")));
    }
    if f == KeyFormat::Secp256k1 {
        v.push(("DER", KeyPair::secp256k1_from_der(&mut ec_der(&kp.secret().unwrap())).expect("secp256k1_from_der")));
    }
    v
}

/// ECPrivateKey of RFC 5915 with version and key only.
pub fn ec_der(sk: &[u8]) -> Vec<u8> {
    [&[0x30, (5 + sk.len()) as u8, 2, 1, 1, 4, sk.len() as u8], sk].concat()
}

pub fn sign_verify(th: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    let mut ks: Vec<P> = (0..if th { 40 } else { 12 }).collect();
    ks.extend(SECP..SECP + if th { N_SECP as P } else { 6 });
    ks.extend([RSA, RSA + 1, RSA + 2]);
    let mut lens: Vec<usize> = (0..if th { 300 } else { 70 }).collect();
    lens.extend([127, 128, 129, 255, 256, 257, 1000, 4096, 65_537]);
    out.push(fam(
        "sign-verify",
        &format!("{} key pairs of all types and every way of restoring them, {} message lengths", ks.len(), lens.len()),
        ks.len() as u64,
        {
            let (ks, lens) = (ks.clone(), lens.clone());
            move |i, cx| {
                let p = ks[i as usize];
                let rsa = p >= RSA;
                for (how, kp) in restored(p) {
                    must_hold(kp.public() == peer(p).pk, || format!("key pair {p} restored by {how} has another public key"))?;
                    for &l in lens.iter().step_by(if rsa && !cx.thorough { 7 } else { 1 }) {
                        cx.ops(2);
                        let m = message(l);
                        let s = kp.sign(&m).map_err(|e| format!("key {p} cannot sign {l} bytes: {e}"))?;
                        must_hold(KeyPair::verify(&peer(p).pk, &m, &s).is_ok() && peer(p).pk.verify(&m, &s).is_ok(), || {
                            format!("signature of key {p} ({how}) over {l} bytes does not verify")
                        })?;
                        must_hold(s.get_signature_type() == kp.key_format(), || format!("signature of key {p} has another type"))?;
                        cx.nontrivial(&(p, how, l));
                    }
                }
                cx.sample(|| format!("key {p} {:?}", peer(p).kp.key_format()));
                Ok(())
            }
        },
    ));
    let kk: Vec<P> = if th { (0..8).chain(SECP..SECP + 8).chain([RSA, RSA + 1, RSA + 2]).collect() } else { all_kinds() };
    let ml: Vec<usize> = if th { vec![1, 2, 31, 32, 33, 64, 100] } else { vec![1, 32, 65] };
    out.push(fam(
        "alter-bits",
        "all key types: every single-bit change of message and signature, every truncation, every one-byte extension at either end, longer and shorter messages",
        (kk.len() * ml.len()) as u64,
        {
            let (kk, ml) = (kk.clone(), ml.clone());
            move |i, cx| {
                let d = digits(i, &[kk.len() as u64, ml.len() as u64]);
                let (p, l) = (kk[d[0]], ml[d[1]]);
                let (kp, pk) = (&peer(p).kp, &peer(p).pk);
                let m = message(l);
                let s = kp.sign(&m).unwrap();
                must_hold(pk.verify(&m, &s).is_ok(), || format!("signature of key {p} over {l} bytes does not verify"))?;
                for (j, b) in bits(l) {
                    cx.op();
                    let mut n = m.clone();
                    n[j] ^= b;
                    must_fail(pk.verify(&n, &s).is_ok(), || format!("key {p}: signature verifies after message byte {j} of {l} changed by {b:#x}"))?;
                }
                for n in [m[..l - 1].to_vec(), m[1..].to_vec(), [&m[..], &[0]].concat(), [&[0], &m[..]].concat(), vec![], [&m[..], &m[..]].concat()] {
                    cx.op();
                    must_fail(pk.verify(&n, &s).is_ok(), || format!("key {p}: signature over {l} bytes verifies for a message of {} bytes", n.len()))?;
                }
                let raw = s.to_vec().to_vec();
                for (j, b) in bits(raw.len()) {
                    cx.op();
                    let mut r = raw.clone();
                    r[j] ^= b;
                    must_fail(pk.verify(&m, &sig_with(&s, r)).is_ok(), || format!("key {p}: altered signature (byte {j} by {b:#x}) verifies"))?;
                }
                for n in 0..raw.len() {
                    cx.ops(2);
                    must_fail(pk.verify(&m, &sig_with(&s, raw[..n].to_vec())).is_ok(), || format!("key {p}: signature cut to {n} bytes verifies"))?;
                    must_fail(n > 0 && pk.verify(&m, &sig_with(&s, raw[n..].to_vec())).is_ok(), || format!("key {p}: signature without its first {n} bytes verifies"))?;
                }
                for x in 0..=255u8 {
                    cx.ops(2);
                    must_fail(pk.verify(&m, &sig_with(&s, [&raw[..], &[x]].concat())).is_ok(), || format!("key {p}: signature extended by {x:#x} verifies"))?;
                    must_fail(pk.verify(&m, &sig_with(&s, [&[x], &raw[..]].concat())).is_ok(), || format!("key {p}: signature preceded by {x:#x} verifies"))?;
                }
                for b in [vec![0; raw.len()], vec![0xff; raw.len()], raw.iter().rev().copied().collect(), [&raw[..], &raw[..]].concat()] {
                    cx.op();
                    must_fail(pk.verify(&m, &sig_with(&s, b)).is_ok(), || format!("key {p}: constant or repeated signature verifies"))?;
                }
                cx.nontrivial(&(p, l));
                Ok(())
            }
        },
    ));
    let ll: Vec<usize> = (6..if th { 23 } else { 21 }).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1]).collect();
    out.push(fam(
        "long-messages",
        "all key types, messages around every power of two from 64 bytes to 1 MiB (thorough 4 MiB): a change of the first, middle or last byte or at any power of two from either end, a byte less or more",
        (kk.len() * ll.len()) as u64,
        {
            let (kk, ll) = (kk.clone(), ll.clone());
            move |i, cx| {
                let d = digits(i, &[kk.len() as u64, ll.len() as u64]);
                let (p, l) = (kk[d[0]], ll[d[1]]);
                let (kp, pk) = (&peer(p).kp, &peer(p).pk);
                let mut m = message(l);
                let s = kp.sign(&m).map_err(|e| format!("key {p} cannot sign {l} bytes: {e}"))?;
                must_hold(pk.verify(&m, &s).is_ok(), || format!("signature of key {p} over {l} bytes does not verify"))?;
                let mut at: Vec<usize> = vec![0, l / 2, l - 1];
                let mut k = 1;
                while k < l {
                    at.extend([k - 1, k, l - k]);
                    k *= 2;
                }
                at.sort();
                at.dedup();
                for j in at {
                    cx.op();
                    m[j] ^= 1;
                    must_fail(pk.verify(&m, &s).is_ok(), || format!("key {p}: signature verifies after message byte {j} of {l} changed"))?;
                    m[j] ^= 1;
                }
                must_fail(pk.verify(&m[..l - 1], &s).is_ok(), || format!("key {p}: signature over {l} bytes verifies for {} bytes", l - 1))?;
                m.push(0);
                must_fail(pk.verify(&m, &s).is_ok(), || format!("key {p}: signature over {l} bytes verifies for {} bytes", l + 1))?;
                cx.nontrivial(&(p, l));
                Ok(())
            }
        },
    ));
    let mut ms: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], message(32), message(33), message(200), b"hello".to_vec(), b"Hello".to_vec(), b"hello ".to_vec(), b"hello\n".to_vec(), b"hello\0".to_vec()];
    // what a signer might sign instead of the message: its digest, the digest's digest, its text forms
    for m in [vec![], message(32), message(33), message(200)] {
        let h = sha2_of(&m);
        ms.push(sha2_of(&h));
        ms.push(h);
    }
    ms.push(sha512_of(&message(33)));
    ms.push(bs58::encode(message(33)).into_string().into_bytes());
    ms.push(message(33).iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect());
    out.push(fam(
        "cross",
        "every public key x message against every signature (signer x message), all key types, related messages included",
        (ks.len() * ms.len()) as u64,
        move |i, cx| {
            let d = digits(i, &[ks.len() as u64, ms.len() as u64]);
            let (p, m) = (ks[d[0]], &ms[d[1]]);
            for &q in &ks {
                for (j, n) in ms.iter().enumerate() {
                    cx.op();
                    let s = cached_sig(q, n);
                    let got = peer(p).pk.verify(m, &s).is_ok();
                    let want = p == q && d[1] == j;
                    cx.outcome(&(got, p == q, d[1] == j));
                    must_hold(got == want, || format!("key {p}, message of {} bytes, signature by {q} over {} bytes: {got}, expected {want}", m.len(), n.len()))?;
                }
            }
            cx.nontrivial(&i);
            Ok(())
        },
    ));
    // degenerate secp256k1 signatures and ed25519 ones with a shifted scalar
    out.push(fam("degenerate", "DER signatures with r or s of 0, 1, order, order+1 and ed25519 signatures with S+L or small-order R", 1, |_, cx| {
        let m = message(32);
        let order = hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
        let mut order1 = order.clone();
        order1[31] += 1;
        let ints: Vec<Vec<u8>> = vec![vec![0], vec![1], [&[0u8][..], &order].concat(), [&[0u8][..], &order1].concat(), vec![0x7f; 32]];
        for p in SECP..SECP + 4 {
            for r in &ints {
                for s in &ints {
                    cx.op();
                    let der = [&[0x30, (4 + r.len() + s.len()) as u8, 2, r.len() as u8], &r[..], &[2, s.len() as u8], &s[..]].concat();
                    must_fail(peer(p).pk.verify(&m, &Signature::from_bytes(KeyFormat::Secp256k1, der)).is_ok(), || {
                        format!("key {p}: degenerate signature r={r:?} s={s:?} verifies")
                    })?;
                }
            }
        }
        let l = hex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
        for p in 0..8u16 {
            let s = peer(p).kp.sign(&m).unwrap().to_vec().to_vec();
            let mut shifted = s.clone();
            let mut carry = 0u16;
            for k in 0..32 {
                let v = shifted[32 + k] as u16 + l[k] as u16 + carry;
                shifted[32 + k] = v as u8;
                carry = v >> 8;
            }
            cx.ops(3);
            must_fail(peer(p).pk.verify(&m, &Signature::from_bytes(KeyFormat::Ed25519, shifted)).is_ok(), || format!("key {p}: signature with S+L verifies"))?;
            for fill in [0u8, 1] {
                let mut z = vec![0; 64];
                z[0] = fill;
                must_fail(peer(p).pk.verify(&m, &Signature::from_bytes(KeyFormat::Ed25519, z)).is_ok(), || format!("key {p}: null signature verifies"))?;
            }
        }
        cx.nontrivial(&1);
        Ok(())
    }));
    out
}
fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn sha2_of(b: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha256::digest(b).to_vec()
}
fn sha512_of(b: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha512::digest(b).to_vec()
}
fn cached_sig(p: P, m: &[u8]) -> Signature {
    use std::sync::{OnceLock, RwLock};
    static C: OnceLock<RwLock<HashMap<(P, Vec<u8>), Signature>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(s) = c.read().unwrap().get(&(p, m.to_vec())) {
        return s.clone();
    }
    let s = peer(p).kp.sign(m).unwrap();
    c.write().unwrap().insert((p, m.to_vec()), s.clone());
    s
}

// ---------------------------------------------------------------- C17

fn eq<T: PartialEq>(a: T, b: T, what: impl FnOnce() -> String) -> R {
    must_hold(a == b, what)
}
fn hash_of(pk: &PublicKey) -> u64 {
    let h: &PublicKeyHashable = pk.as_ref();
    h64(h)
}
/// Every public encoding of a key, for distinctness.
fn encodings(pk: &PublicKey) -> Vec<Vec<u8>> {
    let h: &PublicKeyHashable = pk.as_ref();
    vec![
        pk.encode(),
        h.to_string().into_bytes(),
        pk.to_peer_id().to_base58().into_bytes(),
        pk.to_peer_id().to_bytes(),
        serde_json::to_vec(pk).unwrap(),
        bincode::serialize(pk).unwrap(),
        rmp_serde::to_vec(pk).unwrap(),
        [&[u8::from(pk.get_key_format())][..], &pk.to_vec()].concat(),
    ]
}
fn check_public(pk: &PublicKey, name: &str) -> R {
    eq(&PublicKey::decode(&pk.encode()).map_err(|e| format!("{name}: decode: {e}"))?, pk, || format!("{name}: bytes"))?;
    let h: &PublicKeyHashable = pk.as_ref();
    let text = h.to_string();
    eq(&PublicKey::from_base58(&text).map_err(|e| format!("{name}: from_base58: {e}"))?, pk, || format!("{name}: base58"))?;
    let back = PublicKeyHashable::from_str(&text).map_err(|e| format!("{name}: hashable from_str: {e}"))?;
    eq(&back, h, || format!("{name}: hashable text"))?;
    eq(h64(&back), hash_of(pk), || format!("{name}: hash of the same key differs"))?;
    eq(&PublicKey::from(PublicKeyHashable::from(pk.clone())), pk, || format!("{name}: hashable wrapper"))?;
    let lp: libp2p_identity::PublicKey = pk.clone().into();
    eq(&PublicKey::from(lp.clone()), pk, || format!("{name}: networking library"))?;
    let again = libp2p_identity::PublicKey::try_decode_protobuf(&lp.encode_protobuf()).map_err(|e| format!("{name}: protobuf: {e}"))?;
    eq(&PublicKey::from(again), pk, || format!("{name}: protobuf"))?;
    let id = pk.to_peer_id();
    eq(id, PeerId::from_public_key(&lp), || format!("{name}: peer id differs from the networking library's"))?;
    for id in [id, PeerId::from_str(&id.to_base58()).map_err(|e| format!("{name}: peer id text: {e}"))?, PeerId::from_bytes(&id.to_bytes()).map_err(|e| format!("{name}: peer id bytes: {e}"))?] {
        match PublicKey::try_from(id) {
            Ok(p) if p == *pk && pk.get_key_format() != KeyFormat::Rsa => {}
            Err(_) if pk.get_key_format() == KeyFormat::Rsa => {}
            Ok(p) => return Err(format!("{name}: peer id {id} maps to {p:?}")),
            Err(e) => return Err(format!("{name}: peer id {id}: {e}")),
        }
    }
    let j: PublicKey = serde_json::from_slice(&serde_json::to_vec(pk).unwrap()).map_err(|e| format!("{name}: json: {e}"))?;
    let b: PublicKey = bincode::deserialize(&bincode::serialize(pk).unwrap()).map_err(|e| format!("{name}: bincode: {e}"))?;
    let r: PublicKey = rmp_serde::from_slice(&rmp_serde::to_vec(pk).unwrap()).map_err(|e| format!("{name}: msgpack: {e}"))?;
    for p in [j, b, r] {
        eq(&p, pk, || format!("{name}: serialized form"))?;
        eq(p.get_key_format(), pk.get_key_format(), || format!("{name}: type"))?;
    }
    Ok(())
}
fn check_pair(kp: &KeyPair, name: &str) -> R {
    let f = kp.key_format();
    eq(kp.public().get_key_format(), f, || format!("{name}: public key has another type"))?;
    eq(kp.get_peer_id(), kp.public().to_peer_id(), || format!("{name}: peer id"))?;
    let lp: libp2p_identity::Keypair = kp.clone().into();
    eq(kp.public(), PublicKey::from(lp.public()), || format!("{name}: networking library has another public key"))?;
    let back = KeyPair::from(lp.clone());
    let mut all = vec![("networking library", back)];
    if f == KeyFormat::Rsa {
        must_hold(kp.secret().is_err(), || format!("{name}: RSA secret"))?;
    } else {
        let enc = lp.to_protobuf_encoding().map_err(|e| format!("{name}: protobuf: {e}"))?;
        all.push(("protobuf", KeyPair::from(libp2p_identity::Keypair::from_protobuf_encoding(&enc).map_err(|e| format!("{name}: protobuf: {e}"))?)));
        all.push(("bytes", KeyPair::from_vec(kp.to_vec(), f).map_err(|e| format!("{name}: from_vec: {e}"))?));
        all.push(("secret", KeyPair::from_secret_key(kp.secret().unwrap(), f).map_err(|e| format!("{name}: from_secret_key: {e}"))?));
    }
    if f == KeyFormat::Secp256k1 {
        all.push(("DER", KeyPair::secp256k1_from_der(&mut ec_der(&kp.secret().unwrap())).map_err(|e| format!("{name}: from DER: {e}"))?));
    }
    for (how, k) in all {
        eq(k.key_format(), f, || format!("{name}: type after {how}"))?;
        eq(k.public(), kp.public(), || format!("{name}: public key after {how}"))?;
        if f != KeyFormat::Rsa {
            eq(k.secret().unwrap(), kp.secret().unwrap(), || format!("{name}: secret after {how}"))?;
            eq(k.to_vec(), kp.to_vec(), || format!("{name}: bytes after {how}"))?;
        }
    }
    Ok(())
}
fn check_signature(s: &Signature, name: &str) -> R {
    let f = s.get_signature_type();
    eq(&Signature::decode(s.encode()).map_err(|e| format!("{name}: decode: {e}"))?, s, || format!("{name}: bytes"))?;
    let raw = s.get_raw_signature();
    eq(raw.sig_type, f, || format!("{name}: raw type"))?;
    eq(&raw.bytes[..], s.to_vec(), || format!("{name}: raw bytes"))?;
    eq(&Signature::from_bytes(raw.sig_type, raw.bytes), s, || format!("{name}: raw form"))?;
    let label: String = f.into();
    eq(KeyFormat::from_str(&label).map_err(|e| format!("{name}: label {label}: {e}"))?, f, || format!("{name}: label"))?;
    let j: Signature = serde_json::from_slice(&serde_json::to_vec(s).unwrap()).map_err(|e| format!("{name}: json: {e}"))?;
    let b: Signature = bincode::deserialize(&bincode::serialize(s).unwrap()).map_err(|e| format!("{name}: bincode: {e}"))?;
    let r: Signature = rmp_serde::from_slice(&rmp_serde::to_vec(s).unwrap()).map_err(|e| format!("{name}: msgpack: {e}"))?;
    for x in [j, b, r] {
        eq(&x, s, || format!("{name}: serialized form"))?;
    }
    Ok(())
}

pub fn encodings_lossless(th: bool) -> Vec<Box<dyn Family>> {
    let (ne, ns) = if th { (200_000u64, 50_000u64) } else { (12_000, 3_000) };
    let mut out = vec![];
    out.push(fam("universe", "every key of the universe: public key, key pair and signatures through every encoding", (N_ED + N_SECP + 3) as u64, |i, cx| {
        let p = i as P;
        let name = format!("key {p} ({:?})", peer(p).kp.key_format());
        cx.ops(30);
        check_public(&peer(p).pk, &name)?;
        check_pair(&peer(p).kp, &name)?;
        check_signature(&cached_sig(p, &message(32)), &format!("signature of {name}"))?;
        cx.nontrivial(&p);
        cx.sample(|| format!("{name} {}", peer(p).id));
        Ok(())
    }));
    out.push(fam("many-ed25519", &format!("{ne} ed25519 keys: every encoding"), ne, |i, cx| {
        let kp = KeyPair::from_secret_key(ed_secret(i + 1_000_000), KeyFormat::Ed25519).map_err(|e| e.to_string())?;
        cx.ops(20);
        check_public(&kp.public(), &format!("ed25519 key of secret {i}"))?;
        check_pair(&kp, &format!("ed25519 key of secret {i}"))?;
        cx.nontrivial(&i);
        Ok(())
    }));
    out.push(fam("many-secp256k1", &format!("{ns} secp256k1 keys: every encoding, and their signatures"), ns, |i, cx| {
        let kp = KeyPair::from_secret_key(secp_secret(i + 1_000_000), KeyFormat::Secp256k1).map_err(|e| e.to_string())?;
        cx.ops(20);
        check_public(&kp.public(), &format!("secp256k1 key of secret {i}"))?;
        check_pair(&kp, &format!("secp256k1 key of secret {i}"))?;
        check_signature(&kp.sign(&message(32)).unwrap(), &format!("signature of secp256k1 key of secret {i}"))?;
        cx.nontrivial(&i);
        Ok(())
    }));
    // secrets with leading and trailing zero bytes, extreme scalars
    out.push(fam("edge-secrets", "key pairs whose secret has a single non-zero byte at each position, small and large scalars", 2 * 32 * 3, |i, cx| {
        let d = digits(i, &[2, 32, 3]);
        let f = [KeyFormat::Ed25519, KeyFormat::Secp256k1][d[0]];
        let mut s = vec![0u8; 32];
        s[d[1]] = [1, 0x80, 0xfe][d[2]];
        let Ok(kp) = KeyPair::from_secret_key(s.clone(), f) else {
            return if f == KeyFormat::Ed25519 { Err(format!("secret {s:?} refused")) } else { Ok(()) };
        };
        cx.ops(20);
        check_public(&kp.public(), &format!("{f:?} key of secret {s:?}"))?;
        check_pair(&kp, &format!("{f:?} key of secret {s:?}"))?;
        cx.nontrivial(&i);
        Ok(())
    }));
    out.push(fam("secret-lengths", "secret and key pair bytes of every length from 0 to 100, alone or a genuine one cut or extended: what is accepted comes back unchanged", 2 * 101 * 3, |i, cx| {
        let d = digits(i, &[2, 101, 3]);
        let f = [KeyFormat::Ed25519, KeyFormat::Secp256k1][d[0]];
        let own = peer([0, SECP][d[0]]).kp.clone();
        let base = match d[2] {
            0 => own.secret().unwrap(),
            1 => own.to_vec(),
            _ => vec![7; 100],
        };
        let b: Vec<u8> = base.into_iter().chain(1..).take(d[1]).collect();
        cx.ops(2);
        if let Ok(kp) = KeyPair::from_secret_key(b.clone(), f) {
            eq(kp.secret().unwrap(), b.clone(), || format!("{f:?} secret of {} bytes accepted, but not kept", b.len()))?;
            check_pair(&kp, &format!("{f:?} secret of {} bytes", b.len()))?;
            cx.nontrivial(&i);
        }
        if let Ok(kp) = KeyPair::from_vec(b.clone(), f) {
            eq(kp.to_vec(), b.clone(), || format!("{f:?} key pair of {} bytes accepted, but not kept", b.len()))?;
            check_pair(&kp, &format!("{f:?} key pair of {} bytes", b.len()))?;
            cx.nontrivial(&(i, 1));
        }
        Ok(())
    }));
    out.push(fam("signatures", "signatures of every type with every byte count from 0 to 600, through every encoding, pairwise different encodings", 1, |_, cx| {
        let mut seen = HashSet::new();
        for f in [KeyFormat::Ed25519, KeyFormat::Secp256k1, KeyFormat::Rsa] {
            for n in 0..=600 {
                cx.ops(8);
                let s = Signature::from_bytes(f, message(n));
                check_signature(&s, &format!("{f:?} signature of {n} bytes"))?;
                must_hold(seen.insert(s.encode()), || format!("{f:?} signature of {n} bytes shares its encoding with another"))?;
                must_hold(s.get_signature_type() == f, || "type".into())?;
                cx.nontrivial(&(u8::from(f), n));
            }
        }
        Ok(())
    }));
    out.push(fam("distinct", "all encodings of all keys of the universe and 2000 more keys of both curve types are pairwise different", 1, |_, cx| {
        let mut seen: Vec<HashMap<Vec<u8>, String>> = vec![HashMap::new(); 8];
        let mut hashes = HashSet::new();
        let mut put = |pk: &PublicKey, name: String, cx: &mut Ctx| -> R {
            cx.ops(8);
            for (k, e) in encodings(pk).into_iter().enumerate() {
                if let Some(o) = seen[k].insert(e, name.clone()) {
                    return Err(format!("{name} and {o} share an encoding (kind {k})"));
                }
            }
            must_hold(hashes.insert(hash_of(pk)), || format!("{name} shares its hash with another key"))?;
            cx.nontrivial(&name);
            Ok(())
        };
        for p in 0..(N_ED + N_SECP + 3) as P {
            put(&peer(p).pk, format!("key {p}"), cx)?;
        }
        for i in 0..2000 {
            put(&KeyPair::from_secret_key(ed_secret(i + 5_000_000), KeyFormat::Ed25519).unwrap().public(), format!("ed25519 {i}"), cx)?;
            if i < 500 {
                put(&KeyPair::from_secret_key(secp_secret(i + 5_000_000), KeyFormat::Secp256k1).unwrap().public(), format!("secp256k1 {i}"), cx)?;
            }
        }
        Ok(())
    }));
    out.push(fam("formats", "all 256 type bytes and all type labels map to at most one key format and back", 1, |_, cx| {
        let mut seen = HashSet::new();
        let mut n = 0;
        for b in 0..=255u8 {
            cx.op();
            if let Ok(f) = KeyFormat::try_from(b) {
                n += 1;
                must_hold(u8::from(f) == b, || format!("type byte {b} does not come back"))?;
                let s: String = f.into();
                must_hold(KeyFormat::from_str(&s).ok() == Some(f), || format!("label {s} does not come back"))?;
                must_hold(seen.insert(s), || "label used twice".into())?;
            }
        }
        must_hold(n == 3, || format!("{n} key formats"))?;
        for s in ["", "Ed25519", "ed25519 ", "ed", "RSA", "secp256r1", "secp256k1\n", "0", "1"] {
            must_fail(KeyFormat::from_str(s).is_ok(), || format!("label {s:?} accepted"))?;
        }
        cx.nontrivial(&n);
        Ok(())
    }));
    // a peer id without the key is refused everywhere
    let ids: Vec<String> = {
        let mut v: Vec<String> = [RSA, RSA + 1, RSA + 2].iter().map(|p| peer(*p).id.clone()).collect();
        for p in [0u16, 4, SECP] {
            // sha256 form of a key that could have been inlined
            let lp: libp2p_identity::PublicKey = peer(p).pk.clone().into();
            let mut mh = vec![0x12, 0x20];
            mh.extend(sha2_of(&lp.encode_protobuf()));
            v.push(PeerId::from_bytes(&mh).unwrap().to_base58());
        }
        // digests that look like a key but are declared as a hash
        for p in [0u16, 4, SECP] {
            let lp: libp2p_identity::PublicKey = peer(p).pk.clone().into();
            let key = lp.encode_protobuf();
            for code in 1u8..=0x7f {
                let mut mh = vec![code, key.len() as u8];
                mh.extend(&key);
                if let Ok(id) = PeerId::from_bytes(&mh) {
                    v.push(id.to_base58());
                }
            }
        }
        v
    };
    out.push(fam("hashed-peer-ids", "peer ids that carry only a hash (RSA keys, hashed curve keys, digests of every accepted hash code that would parse as a key) at every service function taking a peer id", ids.len() as u64, move |i, cx| {
        let id = &ids[i as usize];
        must_fail(PublicKey::try_from(PeerId::from_str(id).unwrap()).is_ok(), || format!("hashed peer id {id} is mapped to a key"))?;
        let good = peer(4).id.clone();
        let sig = vec![1u8; 64];
        let tr = |who: &str| json!({"issued_for": who, "expires_at": 1000, "signature": "1", "sig_type": "ed25519", "issued_at": 1});
        let rv = |a: &str, b: &str| json!({"revoked_peer_id": a, "revoked_at": 1, "signature": "1", "sig_type": "ed25519", "revoked_by": b});
        incarnate(&Default::default(), |s| {
            for (f, a) in [
                ("set_root", json!([id, 3])),
                ("get_all_certs", json!([id, 100])),
                ("get_all_certs_from", json!([id, good, 100])),
                ("get_all_certs_from", json!([good, id, 100])),
                ("get_host_certs_from", json!([id, 100])),
                ("get_weight", json!([id, 100])),
                ("get_weight_from", json!([id, good, 100])),
                ("get_weight_from", json!([good, id, 100])),
                ("get_trust_bytes", json!([id, 1, 1])),
                ("issue_trust", json!([id, 1, 1, sig])),
                ("verify_trust", json!([tr(id), good, 100])),
                ("verify_trust", json!([tr(&good), id, 100])),
                ("add_trust", json!([tr(id), good, 100])),
                ("add_trust", json!([tr(&good), id, 100])),
                ("get_revocation_bytes", json!([id, 1])),
                ("issue_revocation", json!([id, good, 1, sig])),
                ("issue_revocation", json!([good, id, 1, sig])),
                ("revoke", json!([rv(id, &good), 100])),
                ("revoke", json!([rv(&good, id), 100])),
                ("export_revocations", json!([id])),
                ("insert_cert", json!([{"chain": [tr(id)]}, 100])),
            ] {
                cx.op();
                let v = s.call(f, a.clone());
                consistent(&v)?;
                must_fail(is_success(&v), || format!("{f}{a} accepts a peer id without a key: {v}"))?;
                cx.nontrivial(&(id, f, a.to_string()));
            }
            must_fail(s.host_certs(RSA, 100).is_ok(), || "get_host_certs on a host with an RSA key".into())?;
            Ok(())
        })?;
        Ok(())
    }));
    out
}
