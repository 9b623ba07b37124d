//! Hostile inputs: decoders and service arguments (C15), origins of time arguments (C19).
use super::crypto::{all_kinds, ec_der};
use crate::common::*;
use crate::keys::*;
use crate::model::*;
use crate::sys::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use marine_rs_sdk::{CallParameters, SecurityTetraplet};
use serde_json::{json, Value};
use std::str::FromStr;
use trust_graph::{Certificate, PublicKeyHashable, Trust};

// ---------------------------------------------------------------- accepted values can be encoded

fn use_pk(pk: &PublicKey) -> R {
    let e = pk.encode();
    let _ = pk.to_vec();
    let _ = pk.to_peer_id().to_base58();
    let _ = format!("{pk:?} {}", PublicKeyHashable::from(pk.clone()));
    match PublicKey::decode(&e) {
        Ok(p) if p == *pk => Ok(()),
        r => Err(format!("accepted key {pk:?} encodes to {e:?}, which decodes to {r:?}")),
    }
}
fn use_sig(s: &Signature) -> R {
    let e = s.encode();
    let _ = s.get_raw_signature();
    match Signature::decode(e.clone()) {
        Ok(p) if p == *s => Ok(()),
        r => Err(format!("accepted signature {s:?} encodes to {e:?}, which decodes to {r:?}")),
    }
}
fn use_trust(t: &Trust) -> R {
    use_pk(&t.issued_for)?;
    use_sig(&t.signature)?;
    let text = t.to_string();
    let _ = format!("{t:?} {text}");
    if t.signature.encode().len() <= 255 && t.issued_for.encode().len() <= 255 {
        match Trust::decode(&t.encode()) {
            Ok(u) if u == *t => {}
            r => return Err(format!("accepted trust {t:?} is re-encoded as {r:?}")),
        }
    }
    Ok(())
}
fn use_cert(c: &Certificate) -> R {
    for t in &c.chain {
        use_trust(t)?;
    }
    let text = c.to_string();
    if c.chain.len() >= 2 {
        match Certificate::from_str(&text) {
            Ok(d) if d == *c => {}
            r => return Err(format!("accepted certificate is re-encoded as {r:?}: {text:?}")),
        }
        // a longer chain has no binary form (known finding of C14)
        if c.chain.len() <= 255 && c.chain.iter().all(|t| t.signature.encode().len() <= 255 && t.issued_for.encode().len() <= 255) {
            match Certificate::decode(&c.encode()) {
                Ok(d) if d == *c => {}
                r => return Err(format!("accepted certificate {c:?} is re-encoded as {r:?}")),
            }
        }
    }
    Ok(())
}
fn use_kp(kp: &KeyPair) -> R {
    use_pk(&kp.public())?;
    let s = kp.sign(b"x").map_err(|e| format!("accepted key pair cannot sign: {e}"))?;
    use_sig(&s)?;
    kp.public().verify(b"x", &s).map_err(|e| format!("signature of an accepted key pair does not verify: {e}"))?;
    if kp.key_format() != KeyFormat::Rsa {
        let _ = kp.to_vec();
        let _ = kp.secret();
    }
    Ok(())
}

const FORMATS: [KeyFormat; 3] = [KeyFormat::Ed25519, KeyFormat::Rsa, KeyFormat::Secp256k1];
type BinDecoder = (&'static str, fn(&[u8]) -> Result<bool, String>);
fn took<T, E>(r: Result<T, E>, f: impl FnOnce(&T) -> R) -> Result<bool, String> {
    match r {
        Ok(v) => f(&v).map(|_| true),
        Err(_) => Ok(false),
    }
}
/// Everything that reads bytes.
const BINARY: &[BinDecoder] = &[
    ("PublicKey::decode", |b| took(PublicKey::decode(b), use_pk)),
    ("Signature::decode", |b| took(Signature::decode(b.to_vec()), use_sig)),
    ("Trust::decode", |b| took(Trust::decode(b), use_trust)),
    ("Certificate::decode", |b| took(Certificate::decode(b), use_cert)),
    ("KeyPair::from_vec", |b| {
        let mut any = false;
        for f in FORMATS {
            any |= took(KeyPair::from_vec(b.to_vec(), f), use_kp)?;
        }
        Ok(any)
    }),
    ("KeyPair::from_secret_key", |b| {
        let mut any = false;
        for f in FORMATS {
            any |= took(KeyPair::from_secret_key(b.to_vec(), f), use_kp)?;
        }
        Ok(any)
    }),
    ("KeyPair::rsa_from_pkcs8", |b| took(KeyPair::rsa_from_pkcs8(&mut b.to_vec()), use_kp)),
    ("KeyPair::secp256k1_from_der", |b| took(KeyPair::secp256k1_from_der(&mut b.to_vec()), use_kp)),
    ("Signature::from_bytes", |b| {
        for f in FORMATS {
            let s = Signature::from_bytes(f, b.to_vec());
            use_sig(&s)?;
            for p in [0, SECP, RSA] {
                if peer(p).pk.verify(b"some message", &s).is_ok() {
                    return Err(format!("arbitrary bytes {b:?} pass as a signature of peer {p}"));
                }
            }
        }
        Ok(false)
    }),
];
/// Decoded statements are also handed to verification.
const VERIFY: BinDecoder = ("verification", |b| {
    if let Ok(t) = Trust::decode(b) {
        let _ = Trust::verify(&t, &t.issued_for, secs(0));
        let _ = Trust::verify(&t, &peer(SECP).pk, secs(0));
    }
    if let Ok(c) = Certificate::decode(b) {
        let _ = Certificate::verify(&c, &[peer(0).pk.clone()], secs(0));
    }
    Ok(false)
});
const N_CORE: usize = 6; // cheap decoders, used on every mutation
fn feed(decoders: &[BinDecoder], b: &[u8], what: &dyn Fn() -> String, cx: &mut Ctx) -> R {
    for (name, f) in decoders {
        cx.op();
        let took = guarded(|| f(b)).and_then(|r| r).map_err(|e| format!("{name} on {}: {e}\n  bytes {}", what(), hex(b)))?;
        cx.outcome(&(name, took));
        if took {
            cx.nontrivial(&(name, b));
        }
    }
    Ok(())
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

type TextDecoder = (&'static str, fn(&str) -> Result<bool, String>);
const TEXT: &[TextDecoder] = &[
    ("Certificate::from_str", |s| took(Certificate::from_str(s), use_cert)),
    ("PublicKey::from_base58", |s| took(PublicKey::from_base58(s), use_pk)),
    ("PublicKeyHashable::from_str", |s| took(PublicKeyHashable::from_str(s), |p| use_pk(p.as_ref()))),
    ("KeyFormat::from_str", |s| took(KeyFormat::from_str(s), |f| {
        if String::from(*f) != s { Err(format!("{s:?} is read as key format {f:?}")) } else { Ok(()) }
    })),
    ("serialized PublicKeyHashable", |s| took(serde_json::from_value::<PublicKeyHashable>(json!(s)), |p| use_pk(p.as_ref()))),
    ("serialized certificates", |s| {
        #[derive(serde::Deserialize)]
        struct V(#[serde(with = "trust_graph::certificate_serde::vec")] Vec<Certificate>);
        took(serde_json::from_value::<V>(json!([s])), |v| v.0.iter().try_for_each(use_cert))
    }),
    ("Trust::convert_from_strings", |s| {
        let t = trust(0, 1, 1000, 10).to_string();
        let l: Vec<&str> = t.lines().collect();
        let mut any = false;
        for k in 0..4 {
            let mut a = [l[0], l[1], l[2], l[3]];
            a[k] = s;
            any |= took(Trust::convert_from_strings(a[0], a[1], a[2], a[3]), use_trust)?;
        }
        Ok(any)
    }),
];
fn read(decoders: &[TextDecoder], s: &str, cx: &mut Ctx) -> R {
    for (name, f) in decoders {
        cx.op();
        let took = guarded(|| f(s)).and_then(|r| r).map_err(|e| format!("{name}: {e}\n  text {s:?}"))?;
        cx.outcome(&(name, took));
        if took {
            cx.nontrivial(&(name, s));
        }
    }
    Ok(())
}

/// Valid encodings of everything.
fn seeds() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for p in [0, SECP, RSA] {
        v.push((format!("key {p}"), peer(p).enc.clone()));
        v.push((format!("signature {p}"), peer(p).kp.sign(b"m").unwrap().encode()));
    }
    for (b, s) in [(0, 1), (SECP, 0), (0, SECP)] {
        v.push((format!("trust {b}->{s}"), trust(b, s, 1000, 10).encode()));
    }
    v.push(("ed25519 pair".into(), peer(0).kp.to_vec()));
    v.push(("secp256k1 secret".into(), peer(SECP).kp.to_vec()));
    v.push(("secp256k1 der".into(), ec_der(&secp_secret(0))));
    v.push(("certificate 2".into(), build_cert(&[link(0, 0, 1000, 10), link(0, 1, 1000, 10)]).encode()));
    v.push(("certificate 3".into(), build_cert(&[link(0, 0, 1000, 10), link(0, SECP, 1000, 10), link(SECP, 2, 900, 20)]).encode()));
    v
}

pub fn robust(th: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    let max = if th { 3 } else { 2 };
    let total: u64 = (0..=max).map(|l| 256u64.pow(l)).sum::<u64>();
    out.push(fam("all-short-bytes", &format!("every byte string of length 0..={max} given to every binary decoder"), total, |i, cx| {
        let mut i = i;
        let mut l = 0;
        while i >= 256u64.pow(l) {
            i -= 256u64.pow(l);
            l += 1;
        }
        let b: Vec<u8> = (0..l).map(|k| (i >> (8 * k)) as u8).collect();
        feed(if l < 3 { BINARY } else { &BINARY[..4] }, &b, &|| "a short byte string".into(), cx)
    }));
    // every type byte, every length, some fillings
    let fills: [u8; 7] = [0x00, 0xff, 0x01, 0x02, 0x30, 0x40, 0x80];
    let lens: u64 = if th { 700 } else { 270 };
    out.push(fam(
        "typed-lengths",
        &format!("every first byte, every total length 1..={lens}, {} fillings, given to every decoder", fills.len()),
        256 * lens,
        move |i, cx| {
            let d = digits(i, &[256, lens]);
            for f in fills {
                let mut b = vec![f; d[1] + 1];
                b[0] = d[0] as u8;
                let decs = if d[0] < 3 || d[0] == 0x30 { BINARY } else { &BINARY[..4] };
                feed(decs, &b, &|| format!("type byte {} and {} times {f:#x}", d[0], d[1]), cx)?;
            }
            Ok(())
        },
    ));
    // long inputs
    let tops: Vec<usize> = (8..=if th { 20 } else { 17 }).flat_map(|e| [(1usize << e) - 1, 1 << e, (1 << e) + 1]).collect();
    let sd = seeds();
    let nb = sd.len() as u64 + 6;
    out.push(fam(
        "long-inputs",
        "every valid encoding and every first byte of a known type continued to every length around the powers of two from 256 to 128 KiB (thorough 1 MiB), and texts of such lengths (one line, many lines, many trusts, digits, non-ASCII)",
        nb * tops.len() as u64,
        move |i, cx| {
            let d = digits(i, &[nb, tops.len() as u64]);
            let n = tops[d[1]];
            let (name, head) = if d[0] < sd.len() { sd[d[0]].clone() } else { let x = d[0] - sd.len(); (format!("type byte {x}"), vec![x as u8]) };
            for fill in [0u8, 1, 2, 0x30, 0xff] {
                let mut b = head.clone();
                b.resize(n.max(b.len()), fill);
                // a signature that fails to verify is reported in base58, in quadratic time
                // and so is any byte string taken as an RSA key when displayed
                let rsa = head[0] == peer(RSA).enc[0];
                feed(if n <= 4097 { BINARY } else if rsa { &BINARY[1..8] } else { &BINARY[..8] }, &b, &|| format!("{name} continued to {n} bytes with {fill:#x}"), cx)?;
            }
            if d[0] < 6 {
                // base58 takes quadratic time
                let short = n.min(if th { 1 << 14 } else { 1 << 12 });
                let s = match d[0] {
                    0 => "1".repeat(short),
                    1 => "9".repeat(short),
                    2 => "\n".repeat(n),
                    3 => "é".repeat(n / 2),
                    4 => "1\n".repeat(n / 2),
                    _ => {
                        let t = trust(0, 1, 1000, 10).to_string();
                        format!("11\n00\n{}", format!("{t}\n").repeat(n.min(1 << 18) / 250 + 1))
                    }
                };
                read(&TEXT[..1], &s, cx)?;
                if s.len() <= short {
                    read(TEXT, &s, cx)?;
                }
            }
            Ok(())
        },
    ));
    // mutations of valid encodings
    let sd = seeds();
    let idx: Vec<(usize, usize)> = sd.iter().enumerate().flat_map(|(s, x)| (0..=x.1.len()).map(move |k| (s, k))).collect();
    let total = idx.len() as u64;
    out.push(fam(
        "byte-mutations",
        "every valid encoding: cut before and after every position, every byte replaced by every value, a byte inserted or deleted at every position, every range removed or doubled",
        total,
        move |i, cx| {
            let (s, k) = idx[i as usize];
            let (name, v) = &sd[s];
            let decs = &BINARY[..N_CORE];
            let der = name.ends_with("der");
            let decs: Vec<BinDecoder> = if der { vec![BINARY[7]] } else { decs.iter().copied().chain([VERIFY]).collect() };
            let go = |b: &[u8], what: &str, cx: &mut Ctx| feed(&decs, b, &|| format!("{name}, {what} at {k}"), cx);
            go(&v[..k], "cut", cx)?;
            go(&v[k..], "start", cx)?;
            if k < v.len() {
                let mut m = v.clone();
                for x in 0..=255u8 {
                    m[k] = x;
                    go(&m, "changed byte", cx)?;
                }
                let mut m = v.clone();
                m.remove(k);
                go(&m, "deleted byte", cx)?;
            }
            for x in [0u8, 1, 2, 0x20, 0x40, 0x7f, 0x80, 0xff] {
                let mut m = v.clone();
                m.insert(k, x);
                go(&m, "inserted byte", cx)?;
            }
            let step = if th || v.len() < 70 { 1 } else { 11 };
            for j in (k + 1..=v.len()).step_by(step) {
                let cut = [&v[..k], &v[j..]].concat();
                go(&cut, "removed range", cx)?;
                let dbl = [&v[..j], &v[k..]].concat();
                go(&dbl, "doubled range", cx)?;
            }
            cx.sample(|| format!("{name} at {k}"));
            Ok(())
        },
    ));
    // header bytes in pairs, splices of two encodings
    let sd: Vec<_> = seeds().into_iter().filter(|x| !x.0.contains("der")).collect();
    let n = sd.len() as u64;
    out.push(fam(
        "byte-splices",
        "every pair of valid encodings joined at every pair of positions around their field boundaries, and every pair of header bytes set to boundary values",
        n * n,
        move |i, cx| {
            let d = digits(i, &[n, n]);
            let (a, b) = (&sd[d[0]], &sd[d[1]]);
            let cuts = |v: &Vec<u8>| -> Vec<usize> { (0..=v.len()).filter(|k| th || *k < 8 || v.len() - k < 4 || k % 9 == 0).collect() };
            for x in cuts(&a.1) {
                for y in cuts(&b.1) {
                    let m = [&a.1[..x], &b.1[y..]].concat();
                    feed(&BINARY[..4], &m, &|| format!("{} up to {x}, {} from {y}", a.0, b.0), cx)?;
                }
            }
            if d[0] == d[1] {
                let vals: &[u8] = if th { &[0, 1, 2, 3, 8, 32, 33, 64, 65, 127, 128, 254, 255] } else { &[0, 1, 2, 33, 65, 255] };
                let hs: Vec<usize> = (0..a.1.len()).filter(|k| *k < 12 || (30..48).contains(k) || (100..130).contains(k)).collect();
                for (p, &x) in hs.iter().enumerate() {
                    for &y in &hs[p + 1..] {
                        for &u in vals {
                            for &w in vals {
                                let mut m = a.1.clone();
                                m[x] = u;
                                m[y] = w;
                                feed(&BINARY[..4], &m, &|| format!("{} with bytes {x}={u} {y}={w}", a.0), cx)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    // length-prefixed structure of trusts and certificates
    let total = 256 * 256;
    out.push(fam(
        "declared-lengths",
        "every declared key length and signature length of a trust and every declared trust length and count of a certificate, with exactly, one less and one more than the declared bytes present",
        total,
        |i, cx| {
            let d = digits(i, &[256, 256]);
            let t = trust(0, 1, 1000, 10);
            let sig = t.signature.encode();
            let pk = t.issued_for.encode();
            // [key len][key][sig len][sig][dates]: rebuilt with other lengths, contents cut or padded
            let fit = |v: &[u8], n: usize, pad: u8| -> Vec<u8> { v.iter().copied().chain(std::iter::repeat(pad)).take(n).collect() };
            for pad in [0u8, 2] {
                let base = [vec![d[0] as u8], fit(&pk, d[0], pad), vec![d[1] as u8], fit(&sig, d[1], pad), vec![0; 16]].concat();
                for b in [base.clone(), base[..base.len() - 1].to_vec(), [base.clone(), vec![0]].concat()] {
                    feed(&BINARY[2..4], &b, &|| format!("declared key length {} signature length {}", d[0], d[1]), cx)?;
                }
            }
            // certificate header
            let c = build_cert(&[link(0, 0, 1000, 10), link(0, 1, 1000, 10), link(1, 2, 1000, 10)]).encode();
            for at in 0..9usize {
                let mut m = c.clone();
                m[at] = d[0] as u8;
                m[at + 1] = d[1] as u8;
                feed(&BINARY[3..4], &m, &|| format!("certificate header bytes {at}.. = {} {}", d[0], d[1]), cx)?;
            }
            Ok(())
        },
    ));
    // texts
    let alpha: Vec<&str> = vec!["", "\n", "\r", " ", "0", "1", "2", "z", "l", "é", "\0", "-", "+", "11", "\"", "ed25519", "rsa", "secp256k1", "Q", "\u{1F600}"];
    let max = if th { 4 } else { 3 };
    let n = alpha.len() as u64;
    let al = alpha.clone();
    out.push(fam("all-short-texts", &format!("every text of up to {max} pieces from {} pieces given to every text decoder", alpha.len()), n.pow(max), move |i, cx| {
        let s: String = digits(i, &vec![n; max as usize]).into_iter().map(|k| al[k]).collect();
        read(TEXT, &s, cx)
    }));
    // line structure of certificates
    let lines: Vec<String> = {
        let c = build_cert(&[link(0, 0, 1000, 10), link(0, 1, 1000, 10)]).to_string();
        let mut v: Vec<String> = c.lines().map(String::from).collect();
        v.sort();
        v.dedup();
        v.extend(["", "1", "1000", "-1", "é"].map(String::from));
        v
    };
    let nl = lines.len() as u64;
    let depth = if th { 6 } else { 5 };
    out.push(fam(
        "all-short-line-texts",
        &format!("every certificate text of up to {depth} lines taken from {} lines", lines.len()),
        (0..=depth).map(|l| nl.pow(l)).sum(),
        move |i, cx| {
            let mut i = i;
            let mut l = 0u32;
            while i >= nl.pow(l) {
                i -= nl.pow(l);
                l += 1;
            }
            let s = digits(i, &vec![nl; l as usize]).into_iter().map(|k| lines[k].as_str()).collect::<Vec<_>>().join("\n");
            read(&TEXT[..1], &s, cx)
        },
    ));
    let texts: Vec<String> = vec![
        build_cert(&[link(0, 0, 1000, 10), link(0, 1, 1000, 10)]).to_string(),
        build_cert(&[link(0, 0, 1000, 10), link(0, SECP, 1000, 10), link(SECP, 2, 900, 20)]).to_string(),
        build_cert(&[link(RSA, RSA, u64::MAX, 10), link(RSA, 2, 900, 0)]).to_string(),
    ];
    let nlines: Vec<usize> = texts.iter().map(|t| t.lines().count()).collect();
    let idx: Vec<(usize, usize)> = nlines.iter().enumerate().flat_map(|(t, n)| (0..=*n).map(move |l| (t, l))).collect();
    let total = idx.len() as u64;
    let tx = texts.clone();
    out.push(fam(
        "line-edits",
        "certificate texts: every line removed, doubled, exchanged with or replaced by every other line or malformed value, in all pairs of edits; every other line separator",
        total,
        move |i, cx| {
            let (t, k) = idx[i as usize];
            let base: Vec<String> = tx[t].lines().map(String::from).collect();
            let edits = |v: &[String], k: usize| -> Vec<Vec<String>> {
                let mut out = vec![v[..k.min(v.len())].to_vec(), v[k.min(v.len())..].to_vec()];
                let menu = ["", " ", "0", "-1", "+1", "1e3", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999", "é", "0OIl", "1111", "\t", "11\u{0}"];
                for m in menu {
                    let mut w = v.to_vec();
                    w.insert(k.min(v.len()), m.into());
                    out.push(w);
                    if k < v.len() {
                        let mut w = v.to_vec();
                        w[k] = m.into();
                        out.push(w);
                    }
                }
                if k < v.len() {
                    for j in 0..v.len() {
                        let mut w = v.to_vec();
                        w.swap(k, j);
                        out.push(w);
                        let mut w = v.to_vec();
                        w[k] = v[j].clone();
                        out.push(w);
                    }
                    let mut w = v.to_vec();
                    w.remove(k);
                    out.push(w);
                    let mut w = v.to_vec();
                    w.insert(k, v[k].clone());
                    out.push(w);
                    for cut in [1, v[k].len() / 2, v[k].len()] {
                        let mut w = v.to_vec();
                        w[k] = v[k].chars().skip(cut).collect();
                        out.push(w);
                    }
                }
                out
            };
            for e in edits(&base, k) {
                for sep in ["\n", "\r\n", "\n\n", "\r", " ", ""] {
                    read(&TEXT[..1], &e.join(sep), cx)?;
                    read(&TEXT[..1], &(e.join(sep) + sep), cx)?;
                }
                if t < 1 || cx.thorough {
                    for k2 in 0..=e.len() {
                        for e2 in edits(&e, k2) {
                            read(&TEXT[..1], &e2.join("\n"), cx)?;
                        }
                    }
                }
            }
            Ok(())
        },
    ));
    let idx: Vec<(usize, usize)> = texts.iter().take(2).enumerate().flat_map(|(t, s)| (0..=s.len()).map(move |k| (t, k))).collect();
    let total = idx.len() as u64;
    out.push(fam("char-edits", "certificate texts: cut at, and every character replaced by or preceded by each of 12 characters at every position", total, move |i, cx| {
        let (t, k) = idx[i as usize];
        let s = &texts[t];
        read(&TEXT[..1], &s[..k], cx)?;
        read(&TEXT[..1], &s[k..], cx)?;
        for c in ['\n', '\r', ' ', '0', '1', '9', 'z', 'l', 'é', '\0', '-', '\u{1F600}'] {
            read(&TEXT[..1], &format!("{}{c}{}", &s[..k], &s[k..]), cx)?;
            if k < s.len() {
                read(&TEXT[..1], &format!("{}{c}{}", &s[..k], &s[k + 1..]), cx)?;
            }
        }
        Ok(())
    }));
    // serialized forms: every field of the JSON and binary form
    let vals: Vec<(String, Vec<u8>)> = all_kinds()
        .into_iter()
        .flat_map(|p| {
            [
                (format!("bincode key {p}"), bincode::serialize(&peer(p).pk).unwrap()),
                (format!("bincode signature {p}"), bincode::serialize(&peer(p).kp.sign(b"m").unwrap()).unwrap()),
            ]
        })
        .chain([("bincode revocation".to_string(), bincode::serialize(&revocation(0, 1, 10)).unwrap())])
        .collect();
    let idx: Vec<(usize, usize)> = vals.iter().enumerate().flat_map(|(s, x)| (0..=x.1.len()).map(move |k| (s, k))).collect();
    let total = idx.len() as u64;
    out.push(fam(
        "serialized-mutations",
        "serialized keys, signatures and revocations: cut at every position, every byte replaced by every value",
        total,
        move |i, cx| {
            let (s, k) = idx[i as usize];
            let (name, v) = &vals[s];
            let go = |b: &[u8], cx: &mut Ctx| -> R {
                cx.op();
                guarded(|| {
                    took(bincode::deserialize::<PublicKey>(b), use_pk)?;
                    took(bincode::deserialize::<Signature>(b), use_sig)?;
                    took(bincode::deserialize::<trust_graph::Revocation>(b), |r| {
                        use_pk(&r.pk)?;
                        let _ = trust_graph::Revocation::verify(r);
                        use_sig(&r.signature)
                    })
                })
                .and_then(|r| r.map(|_| ()))
                .map_err(|e| format!("reading {name}: {e}\n  bytes {}", hex(b)))
            };
            go(&v[..k], cx)?;
            if k < v.len() {
                let mut m = v.clone();
                for x in 0..=255u8 {
                    m[k] = x;
                    go(&m, cx)?;
                }
                cx.nontrivial(&(s, k));
            }
            Ok(())
        },
    ));
    out.extend(service_inputs(th));
    out
}

// ---------------------------------------------------------------- service arguments

pub fn id_from_bytes(b: &[u8]) -> String {
    bs58::encode(b).into_string()
}
/// An identity peer id carrying a key record of the given type and bytes.
fn carrying(key_type: u8, data: &[u8]) -> String {
    let mut pb = vec![8, key_type, 0x12, data.len() as u8];
    pb.extend(data);
    let mut b = vec![0, pb.len() as u8];
    b.extend(pb);
    id_from_bytes(&b)
}
fn spki(pkcs1: &[u8]) -> Vec<u8> {
    let alg = [0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 5, 0];
    let mut body = alg.to_vec();
    body.extend([3, pkcs1.len() as u8 + 1, 0]);
    body.extend(pkcs1);
    let mut v = vec![0x30, body.len() as u8];
    v.extend(body);
    v
}
fn bad_ids(th: bool) -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "1", "11", "0", "é", "\n", "null", "Qm", "12D3KooW", "\u{1F600}", "../db", "'; DROP TABLE roots;--"].map(String::from).to_vec();
    v.push("1".repeat(5000));
    v.push("z".repeat(5000));
    for p in [0, SECP, RSA] {
        let id = &peer(p).id;
        let raw = bs58::decode(id).into_vec().unwrap();
        v.push(id.to_lowercase());
        v.push(format!("{id} "));
        v.push(format!("{id}1"));
        v.push(format!("1{id}"));
        for k in 0..raw.len() {
            v.push(id_from_bytes(&raw[..k]));
            v.push(id_from_bytes(&raw[k..]));
            let vals: Vec<u8> = if th || k < 8 { (0..=255).collect() } else { vec![0, 1, 0x7f, 0x80, 0xff] };
            for x in vals {
                let mut m = raw.clone();
                m[k] = x;
                v.push(id_from_bytes(&m));
            }
        }
        v.push(id_from_bytes(&[raw.clone(), vec![0]].concat()));
    }
    for kt in 0..=5u8 {
        for len in 0..=38usize {
            for fill in [0u8, 1, 2, 0x30, 0xff] {
                v.push(carrying(kt, &vec![fill; len]));
            }
        }
        for n in 0..=16 {
            v.push(carrying(kt, &spki(&vec![0x30; n])));
            v.push(carrying(kt, &spki(&vec![0; n])));
        }
        v.push(carrying(kt, &peer(0).enc[1..]));
        v.push(carrying(kt, &peer(SECP).enc[1..]));
        v.push(carrying(kt, &spki(&[0x30, 6, 2, 1, 3, 2, 1, 3])));
    }
    v.sort();
    v.dedup();
    v
}
fn numbers() -> Vec<u64> {
    vec![0, 1, 10, 99, 100, 101, 1000, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]
}
fn byte_args() -> Vec<Value> {
    let s = trust(0, 1, 1000, 10).signature.get_raw_signature().bytes;
    let mut v = vec![json!([]), json!([0]), json!(vec![255u8; 5000])];
    for k in [1, 31, 32, 63, 64, 65, 70, 72, 256] {
        v.push(json!(vec![0u8; k]));
        v.push(json!(s.iter().copied().chain(std::iter::repeat(1)).take(k).collect::<Vec<u8>>()));
    }
    v
}
fn sig_texts() -> Vec<String> {
    let s = bs58::encode(trust(0, 1, 1000, 10).signature.get_raw_signature().bytes).into_string();
    let mut v: Vec<String> = ["", " ", "0", "1", "l", "é", "\n", "zzzz", "11111111"].map(String::from).to_vec();
    for k in 0..s.len() {
        v.push(s[..k].into());
        v.push(format!("{}é{}", &s[..k], &s[k..]));
        v.push(format!("{}1{}", &s[..k], &s[k..]));
    }
    v.push("z".repeat(5000));
    v
}
const TYPES: [&str; 11] = ["", " ", "ed25519", "rsa", "secp256k1", "ED25519", "Rsa", "ecdsa", "ed25519\n", "é", "0"];

const NOW: u64 = 100;
fn state() -> Vec<Op> {
    vec![
        Op::Root { p: 0, len: 3, owner: true },
        Op::Trust(link(0, 0, 1000, 10)),
        Op::Trust(link(0, 1, 1000, 10)),
        Op::Trust(link(1, 2, 900, 20)),
        Op::Trust(link(0, SECP, 1000, 30)),
        Op::Trust(link(SECP, 3, 1000, 30)),
        Op::Revoke { by: 1, subj: 3, at: 30, mangle: Mangle::None },
    ]
}
pub const ASKED: [P; 6] = [0, 1, 2, 3, SECP, 5];
fn sorted_certs(mut v: Value) -> Value {
    for f in ["certificates", "revocations"] {
        if let Some(a) = v.get_mut(f).and_then(|a| a.as_array_mut()) {
            a.sort_by_key(|x| x.to_string());
        }
    }
    v
}
/// Everything the service answers about some peers, order of lists aside.
pub fn answers(s: &Svc, peers: &[P], now: u64, cx: &mut Ctx) -> Vec<String> {
    let mut out = vec![];
    for &p in peers {
        let id = &peer(p).id;
        out.push(s.call("get_weight", json!([id, now])));
        out.push(s.call("get_all_certs", json!([id, now])));
        out.push(s.call("export_revocations", json!([id])));
        cx.ops(3);
        for &i in &peers[..peers.len().min(3)] {
            out.push(s.call("get_weight_from", json!([id, peer(i).id, now])));
            cx.op();
        }
    }
    out.into_iter().map(|v| sorted_certs(v).to_string()).collect()
}
/// Arguments of a call that is accepted in `state()`.
fn valid_args(f: &str) -> Vec<Value> {
    let (a, b) = (&peer(0).id, &peer(1).id);
    let sig = |t: &Trust| json!(t.signature.get_raw_signature().bytes);
    match f {
        "set_root" => vec![json!(peer(5).id), json!(4)],
        "insert_cert_raw" => vec![json!(build_cert(&[link(0, 0, 1000, 10), link(0, 5, 1000, 10)]).to_string()), json!(NOW)],
        "insert_cert" => vec![dto_cert(&build_cert(&[link(0, 0, 1000, 10), link(0, 5, 1000, 10)])), json!(NOW)],
        "get_all_certs" | "get_weight" => vec![json!(peer(2).id), json!(NOW)],
        "get_all_certs_from" | "get_weight_from" => vec![json!(peer(2).id), json!(b), json!(NOW)],
        "get_host_certs" => vec![json!(NOW)],
        "get_host_certs_from" => vec![json!(b), json!(NOW)],
        "get_trust_bytes" => vec![json!(b), json!(1000), json!(10)],
        "issue_trust" => vec![json!(b), json!(1000), json!(10), sig(&trust(0, 1, 1000, 10))],
        "verify_trust" | "add_trust" => vec![dto_trust(&trust(0, 5, 1000, 40)), json!(a), json!(NOW)],
        "get_revocation_bytes" => vec![json!(b), json!(50)],
        "issue_revocation" => vec![json!(a), json!(b), json!(50), json!(revocation(0, 1, 50).signature.get_raw_signature().bytes)],
        "revoke" => vec![dto_rev(&revocation(0, 1, 50)), json!(NOW)],
        "export_revocations" => vec![json!(peer(3).id)],
        _ => panic!("harness: {f}"),
    }
}
/// Malformed values for an argument, recognised by the shape of its valid value.
fn menu(f: &str, k: usize, valid: &Value, th: bool) -> Vec<Value> {
    match valid {
        Value::Number(_) if f == "set_root" => [0u64, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 1000, u32::MAX as u64 - 1, u32::MAX as u64].iter().map(|x| json!(x)).collect(),
        Value::Number(_) => numbers().into_iter().map(|x| json!(x)).collect(),
        Value::Array(_) => byte_args(),
        Value::String(s) if s.contains('\n') => {
            let l: Vec<&str> = s.lines().collect();
            let mut v = vec![json!(""), json!("\n"), json!("11\n1111\n"), json!("z".repeat(5000)), json!("\n".repeat(500))];
            for i in 0..=l.len() {
                v.push(json!(l[..i].join("\n")));
                v.push(json!(l[i..].join("\n")));
                if i < l.len() {
                    for m in ["", "é", "-1", "18446744073709551616", "1", l[0], l[l.len() - 1]] {
                        let mut w = l.clone();
                        w[i] = m;
                        v.push(json!(w.join("\n")));
                    }
                }
            }
            v
        }
        Value::String(_) => bad_ids(th).into_iter().map(|x| json!(x)).collect(),
        Value::Object(o) => {
            let mut v = vec![];
            if let Some(ch) = o.get("chain") {
                let ch = ch.as_array().unwrap();
                v.push(json!({"chain": []}));
                for i in 0..ch.len() {
                    v.push(json!({ "chain": ch[..i] }));
                    v.push(json!({ "chain": ch[i..] }));
                    for t in menu("", k, &ch[i], th) {
                        let mut w = ch.clone();
                        w[i] = t;
                        v.push(json!({ "chain": w }));
                    }
                }
                v.push(json!({"chain": vec![ch[0].clone(); 300]}));
                return v;
            }
            for (field, val) in o {
                let ms: Vec<Value> = match field.as_str() {
                    "signature" => sig_texts().into_iter().map(|x| json!(x)).collect(),
                    "sig_type" => TYPES.iter().map(|x| json!(x)).collect(),
                    _ if val.is_number() => numbers().into_iter().map(|x| json!(x)).collect(),
                    _ => bad_ids(th).into_iter().map(|x| json!(x)).collect(),
                };
                for m in ms {
                    let mut w = o.clone();
                    w.insert(field.clone(), m);
                    v.push(Value::Object(w));
                }
            }
            if o.contains_key("sig_type") {
                for ty in TYPES {
                    for n in [0usize, 1, 31, 32, 63, 64, 65, 70, 71, 72, 128, 256, 512] {
                        for first in [0u8, 0x30, 0xff] {
                            let mut b = vec![first; n];
                            if first == 0x30 && n > 2 {
                                b[1] = (n - 2) as u8;
                            }
                            let mut w = o.clone();
                            w.insert("sig_type".into(), json!(ty));
                            w.insert("signature".into(), json!(bs58::encode(b).into_string()));
                            v.push(Value::Object(w));
                        }
                    }
                }
            }
            // exchanges between fields and all-defaults
            let mut w = o.clone();
            for (_, x) in w.iter_mut() {
                *x = if x.is_number() { json!(0) } else { json!("") };
            }
            v.push(Value::Object(w));
            v
        }
        _ => vec![],
    }
}
fn setup(s: &mut Svc, cx: &mut Ctx) -> R {
    let mut w = World::at(NOW);
    for op in state() {
        step(s, &mut w, &op, true, cx)?;
    }
    Ok(())
}
/// Make the call; it must come back, consistently, and a refusal must change nothing.
fn hostile(s: &Svc, f: &str, args: &[Value], cp: CallParameters, before: &mut Vec<String>, cx: &mut Ctx) -> R {
    cx.op();
    let stored = db::dump();
    let shown = || {
        let a = json!(args).to_string();
        format!("{f}({})", a.chars().take(600).collect::<String>())
    };
    let v = guarded(|| raw_call(f, &json!(args), cp)).map_err(|e| format!("{} crashed: {e}", shown()))?;
    consistent(&v).map_err(|e| format!("{}: {e}", shown()))?;
    let ok = is_success(&v);
    cx.outcome(&(f, ok, v["error"].as_str().map(|e| e.len())));
    if ok {
        cx.nontrivial(&(f, json!(args).to_string()));
    }
    let late = time_arg(f).and_then(|i| args.get(i)).and_then(|t| t.as_u64()).map_or(false, |t| t > NOW);
    if ok || late {
        // an accepted change, or expired trusts may have been collected: the service must still answer
        if db::dump() != stored {
            *before = guarded(|| answers(s, &ASKED[..3], NOW, cx)).map_err(|e| format!("after {}: {e}", shown()))?;
        }
        if ok {
            for a in args {
                if let Some(id) = a.as_str() {
                    for q in ["get_all_certs", "get_weight"] {
                        cx.op();
                        let r = guarded(|| s.call(q, json!([id, NOW]))).map_err(|e| format!("{q} of {id:?} after {}: {e}", shown()))?;
                        consistent(&r)?;
                    }
                }
            }
        }
        return Ok(());
    }
    // the stored content is the same, or at least all answers are
    if db::dump() == stored {
        return Ok(());
    }
    let after = guarded(|| answers(s, &ASKED[..3], NOW, cx)).map_err(|e| format!("after {}: {e}", shown()))?;
    let n = after.len();
    if after[..] != before[..n] {
        let k = (0..n).find(|k| after[*k] != before[*k]).unwrap();
        return Err(format!("{} was refused but changed an answer: {} became {}", shown(), before[k], after[k]));
    }
    Ok(())
}
/// At the end of a run of refused calls every answer is still the same.
fn unchanged(s: &Svc, f: &str, before: &[String], cx: &mut Ctx) -> R {
    let after = answers(s, &ASKED[..3], NOW, cx);
    let n = after.len().min(before.len());
    if after[..n] != before[..n] {
        return Err(format!("refused calls of {f} changed an answer"));
    }
    Ok(())
}
fn service_inputs(th: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    // one malformed argument; chunks of the menu share a service run
    const CHUNK: usize = 64;
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (fi, f) in FUNCTIONS.iter().enumerate() {
        for (k, v) in valid_args(f).iter().enumerate() {
            let n = menu(f, k, v, th).len();
            cases.extend((0..n.div_ceil(CHUNK)).map(|c| (fi, k, c)));
        }
    }
    let total = cases.len() as u64;
    out.push(fam(
        "service-arguments",
        "every service function with every argument and record field replaced by every value of a menu of malformed and extreme values, the others valid; refused calls must leave all answers as they were",
        total,
        move |i, cx| {
            let (fi, k, c) = cases[i as usize];
            let f = FUNCTIONS[fi];
            let base = valid_args(f);
            let m = menu(f, k, &base[k], th);
            incarnate(&Default::default(), |s| {
                setup(s, cx)?;
                let mut before = answers(s, &ASKED[..3], NOW, cx);
                for v in m.iter().skip(c * CHUNK).take(CHUNK) {
                    let mut a = base.clone();
                    a[k] = v.clone();
                    hostile(s, f, &a, params(f, a.len(), HOST), &mut before, cx)?;
                }
                unchanged(s, f, &before, cx)
            })?;
            cx.sample(|| format!("{f} argument {k}"));
            Ok(())
        },
    ));
    // two malformed arguments, from shorter menus
    let short = move |f: &str, k: usize, v: &Value| -> Vec<Value> {
        let m = menu(f, k, v, false);
        let n = if th { 40 } else { 14 };
        let step = (m.len() / n).max(1);
        m.into_iter().step_by(step).take(n + 1).collect()
    };
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (fi, f) in FUNCTIONS.iter().enumerate() {
        let n = valid_args(f).len();
        for a in 0..n {
            for b in a + 1..n {
                cases.push((fi, a, b));
            }
        }
    }
    let total = cases.len() as u64;
    out.push(fam("service-argument-pairs", "every service function with every two arguments malformed, from menus thinned evenly", total, move |i, cx| {
        let (fi, a, b) = cases[i as usize];
        let f = FUNCTIONS[fi];
        let base = valid_args(f);
        incarnate(&Default::default(), |s| {
            setup(s, cx)?;
            let mut before = answers(s, &ASKED[..3], NOW, cx);
            for x in short(f, a, &base[a]) {
                for y in short(f, b, &base[b]) {
                    let mut v = base.clone();
                    v[a] = x.clone();
                    v[b] = y;
                    hostile(s, f, &v, params(f, v.len(), HOST), &mut before, cx)?;
                }
            }
            unchanged(s, f, &before, cx)
        })
        .map(|_| ())
    }));
    // malformed call parameters
    let ids: Vec<String> = bad_ids(th);
    let total = (FUNCTIONS.len() * 3) as u64;
    out.push(fam("service-call-parameters", "every service function called by, on behalf of and on a host with a malformed peer id, and with missing argument origins", total, move |i, cx| {
        let d = digits(i, &[3, FUNCTIONS.len() as u64]);
        let f = FUNCTIONS[d[1]];
        let a = valid_args(f);
        let step = if th { 1 } else { 7 };
        incarnate(&Default::default(), |s| {
            setup(s, cx)?;
            let mut before = answers(s, &ASKED[..3], NOW, cx);
            for id in ids.iter().step_by(step) {
                let mut cp = params(f, a.len(), if d[0] == 0 { id } else { HOST });
                match d[0] {
                    1 => cp.init_peer_id = id.clone(),
                    2 => cp.service_creator_peer_id = id.clone(),
                    _ => {}
                }
                hostile(s, f, &a, cp, &mut before, cx)?;
            }
            for n in 0..a.len() {
                let mut cp = params(f, a.len(), HOST);
                cp.tetraplets.truncate(n);
                hostile(s, f, &a, cp, &mut before, cx)?;
                let mut cp = params(f, a.len(), HOST);
                cp.tetraplets[n].clear();
                hostile(s, f, &a, cp, &mut before, cx)?;
            }
            unchanged(s, f, &before, cx)
        })
        .map(|_| ())
    }));
    out
}

// ---------------------------------------------------------------- C19

fn timed() -> Vec<&'static str> {
    FUNCTIONS.iter().copied().filter(|f| time_arg(f).is_some()).collect()
}
const CREATOR: &str = "12D3KooWCreator";
const CALLER: &str = "12D3KooWCaller";
/// what the good call answers, and what a refusal may look like
fn judge_origin(f: &str, host: &str, tetraplets: Vec<Vec<SecurityTetraplet>>, good: bool, args: &[Value], cx: &mut Ctx) -> R {
    judge_origin_by(f, host, tetraplets, good, args, CALLER, CREATOR, cx)
}
fn judge_origin_by(f: &str, host: &str, tetraplets: Vec<Vec<SecurityTetraplet>>, good: bool, args: &[Value], caller: &str, creator: &str, cx: &mut Ctx) -> R {
    let shown = format!("{f} on {host} called by {caller}, service of {creator}, with origins {tetraplets:?}");
    incarnate(&Default::default(), |s| {
        s.host = host.into();
        setup(s, cx)?;
        let before = answers(s, &ASKED, NOW, cx);
        let mut cp = params(f, args.len(), host);
        cp.tetraplets = tetraplets;
        cp.init_peer_id = caller.into();
        cp.service_creator_peer_id = creator.into();
        cx.op();
        let v = raw_call(f, &json!(args), cp);
        consistent(&v)?;
        cx.outcome(&(f, is_success(&v)));
        if good {
            if !is_success(&v) {
                return Err(format!("{shown}: refused although its time comes from the host's clock: {v}"));
            }
            cx.nontrivial(&shown);
            return Ok(());
        }
        if is_success(&v) {
            return Err(format!("{shown}: answered although its time does not come from the host's clock: {v}"));
        }
        let reveals = v["certificates"].as_array().map_or(false, |c| !c.is_empty()) || v["weight"].as_u64().map_or(false, |w| w != 0);
        if reveals {
            return Err(format!("{shown}: refused, but reveals {v}"));
        }
        let after = answers(s, &ASKED, NOW, cx);
        if after != before {
            return Err(format!("{shown}: refused, but an answer changed"));
        }
        cx.nontrivial(&shown);
        Ok(())
    })
    .map(|_| ())
}
fn origin(p: &str, s: &str, f: &str) -> SecurityTetraplet {
    SecurityTetraplet::new(p, s, f, "")
}
pub fn origins(th: bool) -> Vec<Box<dyn Family>> {
    let fs = timed();
    let host_id = |h: usize| -> String {
        if h == 0 {
            peer(2).id.clone()
        } else {
            HOST.into()
        }
    };
    let peers = move |host: &str| -> Vec<String> {
        vec![host.into(), CALLER.into(), CREATOR.into(), "".into(), host[..host.len() - 1].into(), format!("{host} "), host.to_lowercase(), peer(1).id.clone(), "peer".into()]
    };
    let services = ["peer", "", "Peer", "peers", "pee", " peer", "op", "timestamp_sec", "trust-graph", "sig"];
    let functions = ["timestamp_sec", "", "timestamp_ms", "timestamp", "Timestamp_sec", "timestamp_sec ", "timestamp_secs", "peer", "get_weight"];
    let mut out: Vec<Box<dyn Family>> = vec![];
    let (nf, np, ns, nn) = (fs.len() as u64, 9u64, services.len() as u64, functions.len() as u64);
    let others: u64 = if th { 3 } else { 2 };
    let r = vec![nf, np, ns, nn, others];
    let total = product(&r);
    let fs1 = fs.clone();
    out.push(fam(
        "origin-of-time",
        "every time-dependent function, every combination of origin peer, service and function of the time argument, the other arguments being literals or host time",
        total,
        move |i, cx| {
            let d = digits(i, &r);
            let f = fs1[d[0]];
            let host = host_id(if f.contains("host") { 0 } else { 1 });
            let p = &peers(&host)[d[1]];
            let good = d[1] == 0 && d[2] == 0 && d[3] == 0;
            let args = valid_args(f);
            let lit = match d[4] {
                0 => vec![origin(CALLER, "", "")],
                1 => vec![good_origin(&host)],
                _ => vec![],
            };
            let mut ts = vec![lit; args.len()];
            ts[time_arg(f).unwrap()] = vec![origin(p, services[d[2]], functions[d[3]])];
            cx.sample(|| format!("{f} from {p}/{}/{}", services[d[2]], functions[d[3]]));
            judge_origin(f, &host, ts, good, &args, cx)
        },
    ));
    // who calls makes no difference
    let fs4 = fs.clone();
    out.push(fam(
        "origin-callers",
        "every time-dependent function called by the host, the creator, another peer, the service id or nobody on services of each of them; the time from the clock of the host, the caller, the creator, another peer or nobody",
        nf * 5 * 5 * 5 * 2,
        move |i, cx| {
            let d = digits(i, &[nf, 5, 5, 5, 2]);
            let f = fs4[d[0]];
            let host = host_id(if f.contains("host") { 0 } else { 1 });
            let who = |k: usize| -> String { [host.as_str(), CREATOR, CALLER, "trust-graph", ""][k].into() };
            let (caller, creator, clock) = (who(d[1]), who(d[2]), who(d[3]));
            let args = valid_args(f);
            let mut ts = vec![vec![origin(&caller, "", "")]; args.len()];
            ts[time_arg(f).unwrap()] = vec![if d[4] == 0 { good_origin(&clock) } else { origin(&clock, "", "") }];
            judge_origin_by(f, &host, ts, d[3] == 0 && d[4] == 0, &args, &caller, &creator, cx)
        },
    ));
    // shapes: which positions carry an origin at all
    let kinds: u64 = 5; // absent entry, empty entry, literal, host time, foreign time
    let fs2 = fs.clone();
    let r: Vec<u64> = vec![nf, kinds, kinds, kinds, 5, 2];
    let total = product(&r);
    out.push(fam(
        "origin-shapes",
        "every time-dependent function, every assignment of {no origin, literal, host clock, another peer's clock, host clock after a foreign origin} to up to three argument positions and every length of the origin list",
        total,
        move |i, cx| {
            let d = digits(i, &r);
            let f = fs2[d[0]];
            let host = host_id(if f.contains("host") { 0 } else { 1 });
            let args = valid_args(f);
            let one = |k: usize| match k {
                0 => vec![],
                1 => vec![origin(CALLER, "", "")],
                2 => vec![good_origin(&host)],
                3 => vec![origin(CALLER, "peer", "timestamp_sec")],
                _ => vec![origin(CALLER, "", ""), good_origin(&host)],
            };
            let mut ts: Vec<Vec<SecurityTetraplet>> = (0..3).map(|k| one(d[1 + k])).collect();
            if d[5] == 1 {
                ts.push(vec![good_origin(&host)]);
            }
            ts.truncate(d[4]);
            let k = time_arg(f).unwrap();
            let good = ts.get(k).map_or(false, |t| *t == vec![good_origin(&host)]);
            judge_origin(f, &host, ts, good, &args, cx)
        },
    ));
    // the time of a good origin is the one that is used: a foreign time in other positions changes nothing
    let fs3 = fs;
    let times: Vec<u64> = vec![0, 1, 39, 40, 99, 100, 101, 899, 900, 901, 1000, 1001, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];
    let nt = times.len() as u64;
    let total = fs3.len() as u64 * nt * 4;
    out.push(fam(
        "origin-any-time",
        "every time-dependent function at every boundary time with a missing, literal or foreign origin: refused whatever the time is",
        total,
        move |i, cx| {
            let d = digits(i, &[fs3.len() as u64, nt, 4]);
            let f = fs3[d[0]];
            let host = host_id(if f.contains("host") { 0 } else { 1 });
            let mut args = valid_args(f);
            let k = time_arg(f).unwrap();
            args[k] = json!(times[d[1]]);
            let mut ts = vec![vec![good_origin(&host)]; args.len()];
            ts[k] = match d[2] {
                0 => vec![],
                1 => vec![origin(CALLER, "", "")],
                2 => vec![origin(CALLER, "peer", "timestamp_sec")],
                _ => vec![origin(&host, "peer", "timestamp_ms")],
            };
            if f.starts_with("insert_cert") && times[d[1]] > 1000 {
                return Ok(()); // refused for another reason
            }
            judge_origin(f, &host, ts, false, &args, cx)
        },
    ));
    out
}
