//! Certificates as values: C12 (verification), C13 (issuing), C14 (codecs).
use super::crypto::{all_kinds, stamps};
use crate::common::*;
use crate::keys::*;
use crate::model::*;
use crate::sys::*;
use fluence_keypair::{KeyFormat, PublicKey, Signature};
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::str::FromStr;
use trust_graph::{Certificate, Revocation, Trust};

const NOW: u64 = 1000;

// ---------------------------------------------------------------- C12

/// A link as it appears in a chain, and whether it is valid after `prev`.
fn link_ok(l: &Link, prev: Option<P>, now: u64) -> bool {
    let (subj, exp, _) = l.claims();
    l.mangle == Mangle::None && l.by == prev.unwrap_or(subj) && now <= exp
}
fn chain_ok(chain: &[Link], roots: &[P], now: u64) -> bool {
    let Some(first) = chain.first() else { return false };
    let mut prev = None;
    for l in chain {
        if !link_ok(l, prev, now) {
            return false;
        }
        prev = Some(l.claims().0);
    }
    roots.contains(&first.claims().0)
}
fn keys_of(ps: &[P]) -> Vec<PublicKey> {
    ps.iter().map(|p| peer(*p).pk.clone()).collect()
}
fn judge_cert(chain: &[Link], roots: &[P], now: u64, cx: &mut Ctx) -> R {
    cx.op();
    let got = Certificate::verify(&build_cert(chain), &keys_of(roots), secs(now)).is_ok();
    let want = chain_ok(chain, roots, now);
    cx.outcome(&(got, chain.len()));
    if want {
        cx.nontrivial(&(chain, roots, now));
    }
    if got != want {
        return Err(format!("verification at {now} with roots {roots:?} says {got}, expected {want}: {chain:?}"));
    }
    Ok(())
}

pub fn verification(th: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    let peers: Vec<P> = vec![0, 4, SECP];
    // every link over three peers, four kinds
    let mut links = vec![];
    for &by in &peers {
        for &s in &peers {
            links.push(link(by, s, 5000, 10));
            links.push(link(by, s, NOW, 10));
            links.push(link(by, s, NOW - 1, 10));
            links.push(Link { mangle: Mangle::Iat(11), ..link(by, s, 5000, 10) });
        }
    }
    let root_lists: Vec<Vec<P>> = vec![vec![], vec![0], vec![4], vec![SECP], vec![0, 4], vec![4, 0], vec![SECP, 4], vec![4, SECP, 0], vec![0, 0]];
    let n = links.len() as u64;
    out.push(fam(
        "chains-up-to-2",
        "every chain of at most 2 links over 3 peers (signer x subject x valid / expiring now / expired / tampered), every root list, times around the expiry",
        1 + n + n * n,
        {
            let (links, root_lists) = (links.clone(), root_lists.clone());
            move |i, cx| {
                let chain: Vec<Link> = if i == 0 {
                    vec![]
                } else if i <= n {
                    vec![links[(i - 1) as usize].clone()]
                } else {
                    digits(i - 1 - n, &[n, n]).into_iter().map(|k| links[k].clone()).collect()
                };
                for roots in &root_lists {
                    for now in [0, NOW - 1, NOW, NOW + 1, 5000, 5001] {
                        judge_cert(&chain, roots, now, cx)?;
                    }
                }
                cx.sample(|| format!("{chain:?}"));
                Ok(())
            }
        },
    ));
    let lists3: Vec<Vec<P>> = if th { root_lists.clone() } else { vec![vec![0, 4, SECP], vec![4], vec![0, SECP]] };
    out.push(fam(
        "chains-of-3",
        &format!("every chain of 3 links over the same alphabet, {} root lists", lists3.len()),
        n * n * n,
        {
            let (links, lists3) = (links.clone(), lists3.clone());
            move |i, cx| {
                let chain: Vec<Link> = digits(i, &[n, n, n]).into_iter().map(|k| links[k].clone()).collect();
                for roots in &lists3 {
                    judge_cert(&chain, roots, NOW, cx)?;
                }
                cx.sample(|| format!("{chain:?}"));
                Ok(())
            }
        },
    ));
    // chains of 4 and 5, valid except at up to two places
    let (lo, hi) = if th { (4usize, 7usize) } else { (4, 5) };
    let per: Vec<(usize, usize, usize)> = (lo..=hi).flat_map(|l| (0..l).flat_map(move |a| (a..l).map(move |b| (l, a, b)))).collect();
    let kinds = 8u64;
    out.push(fam(
        "two-defects",
        &format!("valid chains of {lo} to {hi} links with a defect of every kind at every pair of places"),
        per.len() as u64 * kinds * kinds,
        move |i, cx| {
            let d = digits(i, &[kinds, kinds, per.len() as u64]);
            let (l, a, b) = per[d[2]];
            let mut chain = valid_line(l);
            chain[a] = defect(&chain, a, d[0]);
            chain[b] = defect(&chain, b, d[1]);
            let root = chain[0].claims().0;
            judge_cert(&chain, &[root], NOW, cx)?;
            judge_cert(&chain, &[7, 0, root, 4], NOW, cx)?;
            cx.sample(|| format!("{chain:?}"));
            Ok(())
        },
    ));
    // long chains with one defect
    let lens: Vec<usize> = if th { (2..=60).chain([100, 127, 128, 129, 200, 254, 255, 256, 257, 300]).collect() } else { (2..=20).chain([60, 127, 128, 129, 255, 256, 257]).collect() };
    let cases: Vec<(usize, usize, usize)> = lens
        .iter()
        .flat_map(|&l| {
            let pos: Vec<usize> = if l <= 40 || th { (0..l).collect() } else { [0, 1, l / 2, l - 2, l - 1].into() };
            pos.into_iter().flat_map(move |p| (0..kinds as usize).map(move |k| (l, p, k)))
        })
        .collect();
    out.push(fam(
        "long-chains",
        &format!("valid chains of {lens:?} links, whole and with one defect of every kind at every place (ends and middle above 40 in the quick tier)"),
        cases.len() as u64,
        move |i, cx| {
            let (l, p, k) = cases[i as usize];
            let mut chain = valid_line(l);
            chain[p] = defect(&chain, p, k);
            let root = chain[0].claims().0;
            judge_cert(&chain, &[root], NOW, cx)?;
            cx.sample(|| format!("length {l}, defect {k} at {p}"));
            Ok(())
        },
    ));
    // dropped, duplicated, swapped and spliced links
    let maxl = if th { 9 } else { 6 };
    let shapes: Vec<(usize, usize, usize, usize)> =
        (2..=maxl).flat_map(|l| (0..l).flat_map(move |a| (0..l).flat_map(move |b| (0..5).map(move |k| (l, a, b, k))))).collect();
    out.push(fam(
        "rearranged",
        &format!("chains of 2 to {maxl} links with one link dropped, duplicated, two swapped, a part reversed, or the tail of another chain"),
        shapes.len() as u64,
        move |i, cx| {
            let (l, a, b, k) = shapes[i as usize];
            let mut chain = valid_line(l);
            match k {
                0 => {
                    chain.remove(a);
                }
                1 => chain.insert(b, chain[a].clone()),
                2 => chain.swap(a, b),
                3 => chain[a.min(b)..=a.max(b)].reverse(),
                _ => {
                    let other: Vec<Link> = (0..l).map(|k| link(if k == 0 { 20 } else { 19 + k as P }, 20 + k as P, 5000, 10)).collect();
                    chain.truncate(a);
                    chain.extend(other[b..].to_vec());
                }
            }
            let roots: Vec<P> = vec![20, 5, 10];
            for now in [NOW, 5001] {
                judge_cert(&chain, &roots, now, cx)?;
            }
            cx.sample(|| format!("{chain:?}"));
            Ok(())
        },
    ));
    // position and number of roots
    let nroots: u64 = if th { 64 } else { 24 };
    out.push(fam(
        "root-lists",
        &format!("root lists of every length up to {nroots} with the root at every position or absent"),
        nroots * (nroots + 1) / 2 + nroots,
        move |i, cx| {
            // enumerate (len, pos) with pos == len meaning absent
            let (mut len, mut k) = (1u64, i);
            while k > len {
                k -= len + 1;
                len += 1;
            }
            let chain = valid_line(3);
            let mut roots: Vec<P> = (0..len as P).map(|j| 100 + j).collect();
            if (k as usize) < roots.len() {
                roots[k as usize] = chain[0].subj;
            }
            judge_cert(&chain, &roots, NOW, cx)
        },
    ));
    // all key types as root, middle and leaf
    let ks = all_kinds();
    let m = ks.len() as u64;
    out.push(fam("key-types", "chains of 3 links over every choice of key types for root, middle and leaf, whole and with a foreign signature at each place", m * m * m, move |i, cx| {
        let d = digits(i, &[m, m, m]);
        let (r, a, b) = (ks[d[0]], ks[d[1]], ks[d[2]]);
        let chain = vec![link(r, r, 5000, 10), link(r, a, 5000, 10), link(a, b, 5000, 10)];
        judge_cert(&chain, &[r], NOW, cx)?;
        for p in 0..3 {
            let mut c = chain.clone();
            let signer = ks[(ks.iter().position(|k| *k == c[p].by).unwrap() + 1) % ks.len()];
            c[p].by = signer;
            judge_cert(&c, &[r], NOW, cx)?;
        }
        Ok(())
    }));
    // expiry per place
    out.push(fam("expiry-places", "chains of 4 links, every assignment of 4 expiry dates to the links, times on both sides of each", 256, |i, cx| {
        let exps = [999u64, 1000, 1001, u64::MAX];
        let d = digits(i, &[4, 4, 4, 4]);
        let chain: Vec<Link> = valid_line(4).into_iter().zip(d).map(|(l, e)| link(l.by, l.subj, exps[e], l.iat)).collect();
        for now in [0, 998, 999, 1000, 1001, 1002, u64::MAX] {
            judge_cert(&chain, &[chain[0].subj], now, cx)?;
        }
        Ok(())
    }));
    // issue dates have no influence on verification
    let iats = [0u64, NOW - 1, NOW, NOW + 1, NOW + 500, 5000, 5001, u64::MAX];
    let ni = iats.len() as u64;
    out.push(fam("issue-dates", "chains of 3 links, every assignment of 8 issue dates (before, at and after the time and the expiry) and of 3 expiry dates to the last link, times on both sides", ni * ni * ni * 3, move |i, cx| {
        let d = digits(i, &[ni, ni, ni, 3]);
        let mut chain: Vec<Link> = valid_line(3).into_iter().zip(&d).map(|(l, k)| link(l.by, l.subj, 5000, iats[*k])).collect();
        chain[2].exp = [NOW, NOW + 400, 5000][d[3]];
        for now in [0, NOW, NOW + 1, NOW + 400, NOW + 401, 5000, 5001] {
            judge_cert(&chain, &[chain[0].subj], now, cx)?;
        }
        Ok(())
    }));
    out
}
/// root 10 -> 11 -> 12 -> ...
fn valid_line(l: usize) -> Vec<Link> {
    (0..l as P).map(|k| link(if k == 0 { 10 } else { 9 + k }, 10 + k, 5000, 10)).collect()
}
fn defect(chain: &[Link], at: usize, kind: usize) -> Link {
    let l = chain[at].clone();
    match kind {
        0 => l,
        1 => Link { exp: NOW - 1, ..l },
        2 => Link { mangle: Mangle::SigBit, ..l },
        3 => Link { mangle: Mangle::Exp(5001), ..l },
        4 => Link { mangle: Mangle::Iat(9), ..l },
        5 => Link { mangle: Mangle::Subject(3), ..l },
        // signed by someone else who is also in the chain
        6 => Link { by: chain[(at + 1) % chain.len()].subj, ..l },
        _ => Link { by: 2, ..l },
    }
}

// ---------------------------------------------------------------- C13

fn last_of(chain: &[Link], p: P) -> Option<usize> {
    chain.iter().rposition(|l| l.subj == p)
}
/// (verified certificate?, what extending by `issuer` must give)
fn expect_extended(chain: &[Link], issuer: P, new: &Trust, exp: u64, iat: u64, now: u64) -> Option<Vec<Trust>> {
    if exp < iat || chain.is_empty() || !chain_ok(chain, &[chain[0].claims().0], now) {
        return None;
    }
    let k = last_of(chain, issuer)?;
    let mut v: Vec<Trust> = chain[..=k].iter().map(build).collect();
    v.push(new.clone());
    Some(v)
}
fn judge_issue(chain: &[Link], issuer: P, subj: P, exp: u64, iat: u64, now: u64, cx: &mut Ctx) -> R {
    let base = build_cert(chain);
    let new = trust(issuer, subj, exp, iat);
    let want = expect_extended(chain, issuer, &new, exp, iat, now);
    cx.ops(2);
    let a = Certificate::issue(&peer(issuer).kp, peer(subj).pk.clone(), &base, secs(exp), secs(iat), secs(now)).ok();
    let b = Certificate::issue_with_trust(peer(issuer).pk.clone(), new, &base, secs(now)).ok();
    for (how, got) in [("issue", a), ("issue_with_trust", b)] {
        let got = got.map(|c| c.chain);
        cx.outcome(&(how, got.as_ref().map(|c| c.len())));
        if got != want {
            return Err(format!(
                "{how} by {issuer} for {subj} exp={exp} iat={iat} at {now} on {chain:?}: {:?}, expected {:?}",
                got.as_ref().map(|c| c.len()),
                want.as_ref().map(|c| c.len())
            ));
        }
        if let Some(c) = got {
            cx.nontrivial(&(how, chain, issuer, exp, iat));
            let ok = Certificate::verify(&Certificate::new_unverified(c), &[base.chain[0].issued_for.clone()], secs(now)).is_ok();
            if ok != (now <= exp) {
                return Err(format!("certificate from {how} by {issuer} for {subj} exp={exp} at {now} verifies: {ok}, base {chain:?}"));
            }
        }
    }
    Ok(())
}

pub fn issuing(th: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    // extending every valid chain with repeated keys
    let peers: Vec<P> = vec![0, 4, SECP];
    let maxl: u32 = if th { 6 } else { 4 };
    let all: Vec<Vec<Link>> = (1..=maxl)
        .flat_map(|l| {
            let peers = peers.clone();
            (0..3u64.pow(l)).map(move |i| {
                let d = digits(i, &vec![3; l as usize]);
                let mut prev: Option<P> = None;
                d.into_iter()
                    .map(|k| {
                        let s = peers[k];
                        let by = prev.unwrap_or(s);
                        prev = Some(s);
                        link(by, s, 5000, 10)
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    out.push(fam(
        "extend-chains",
        &format!("every valid chain of 1 to {maxl} links over 3 peers (repetitions included), every issuer in and outside it, subjects inside and outside"),
        all.len() as u64,
        {
            let all = all.clone();
            move |i, cx| {
                let chain = &all[i as usize];
                for issuer in [0, 4, SECP, 7] {
                    for subj in [0, SECP, 8] {
                        judge_issue(chain, issuer, subj, 4000, 20, NOW, cx)?;
                    }
                }
                cx.sample(|| format!("{chain:?}"));
                Ok(())
            }
        },
    ));
    // dates
    let ds: Vec<u64> = if th { vec![0, 1, 9, 10, 11, 999, 1000, 1001, 4999, 5000, 5001, i64::MAX as u64, u64::MAX - 1, u64::MAX] } else { vec![0, 10, 11, 999, 1000, 1001, 5000, 5001, u64::MAX] };
    let n = ds.len() as u64;
    out.push(fam("extend-dates", "every expiry date, issue date and current time on both sides of each other and of the given certificate's dates", n * n * n, {
        let ds = ds.clone();
        move |i, cx| {
            let d = digits(i, &[n, n, n]);
            let chain = vec![link(0, 0, 5000, 10), link(0, 4, 1000, 11)];
            for issuer in [0, 4] {
                judge_issue(&chain, issuer, 8, ds[d[0]], ds[d[1]], ds[d[2]], cx)?;
            }
            Ok(())
        }
    }));
    // invalid certificates are not extended
    let defects: Vec<(usize, usize, usize)> = (1..=if th { 8usize } else { 5 }).flat_map(|l| (0..l).flat_map(move |p| (1..8usize).map(move |k| (l, p, k)))).collect();
    out.push(fam("extend-invalid", "chains with one defect of every kind at every place, extended by every member", defects.len() as u64, move |i, cx| {
        let (l, p, k) = defects[i as usize];
        let mut chain = valid_line(l);
        chain[p] = defect(&chain, p, k);
        for issuer in (10..10 + l as P).chain([3, 7]) {
            judge_issue(&chain, issuer, 8, 4000, 20, NOW, cx)?;
        }
        Ok(())
    }));
    out.push(fam("extend-empty", "an empty certificate is never extended", 4, |i, cx| {
        judge_issue(&[], [0, 4, SECP, RSA][i as usize], 8, 4000, 20, NOW, cx)
    }));
    // long certificates: cut at every position
    let lens: Vec<usize> = if th { vec![20, 60, 127, 128, 129, 255, 256, 257, 300] } else { vec![20, 129, 257] };
    let cuts: Vec<(usize, usize)> = lens.iter().flat_map(|&l| (0..l).step_by(if l > 30 && !th { l / 6 } else { 1 }).chain([l - 1]).map(move |c| (l, c))).collect();
    out.push(fam("extend-long", &format!("chains of {lens:?} links extended by the member at each position"), cuts.len() as u64, move |i, cx| {
        let (l, c) = cuts[i as usize];
        judge_issue(&valid_line(l), 10 + c as P, 8, 4000, 20, NOW, cx)
    }));
    // repeated extension
    let steps: u32 = if th { 7 } else { 5 };
    out.push(fam("extend-repeatedly", &format!("every sequence of {steps} extensions by any of 4 peers starting from an issued root certificate"), 4u64.pow(steps), move |i, cx| {
        let ps: [P; 4] = [0, 4, SECP, 6];
        let mut chain = vec![link(0, 0, u64::MAX, 10), link(0, 4, 5000, 10)];
        let mut cert = Certificate::issue_root(&peer(0).kp, peer(4).pk.clone(), secs(5000), secs(10));
        if cert != build_cert(&chain) {
            return Err("issue_root gives another certificate".into());
        }
        for (k, d) in digits(i, &vec![4; steps as usize]).into_iter().enumerate() {
            cx.op();
            let (issuer, subj) = (ps[d], ps[(d + 1 + k) % 4]);
            let got = Certificate::issue(&peer(issuer).kp, peer(subj).pk.clone(), &cert, secs(4000), secs(10 + k as u64), secs(NOW));
            match (got, last_of(&chain, issuer)) {
                (Ok(c), Some(at)) => {
                    chain.truncate(at + 1);
                    chain.push(link(issuer, subj, 4000, 10 + k as u64));
                    if c != build_cert(&chain) || Certificate::verify(&c, &keys_of(&[0]), secs(NOW)).is_err() {
                        return Err(format!("extension {k} by {issuer} gives another certificate than {chain:?}"));
                    }
                    cx.nontrivial(&chain);
                    cert = c;
                }
                (Err(_), None) => {}
                (g, w) => return Err(format!("extension {k} by {issuer} on {chain:?}: accepted {}, expected {}", g.is_ok(), w.is_some())),
            }
        }
        Ok(())
    }));
    // roots
    let ks = all_kinds();
    let m = ks.len() as u64;
    out.push(fam("issue-root", "certificates issued from a root: all key types of root and subject, all dates", m * m * n * n, {
        let ds = ds.clone();
        move |i, cx| {
            let d = digits(i, &[m, m, n, n]);
            let (r, s, exp, iat) = (ks[d[0]], ks[d[1]], ds[d[2]], ds[d[3]]);
            if d[0] != d[1] && (d[2] + d[3]) % 3 != 0 && r >= RSA {
                return Ok(()); // RSA signing is slow: a third of the dates
            }
            cx.ops(2);
            let c = Certificate::issue_root(&peer(r).kp, peer(s).pk.clone(), secs(exp), secs(iat));
            let shape = c.chain.len() == 2 && c.chain[0].issued_for == peer(r).pk && c.chain[0].issued_at == secs(iat) && c.chain[1] == trust(r, s, exp, iat);
            let ok = Certificate::verify(&c, &keys_of(&[r]), secs(exp)).is_ok();
            let late = exp < u64::MAX && Certificate::verify(&c, &keys_of(&[r]), secs(exp + 1)).is_ok();
            if !shape || !ok || late {
                return Err(format!("root certificate {r}->{s} exp={exp} iat={iat}: shape {shape}, verifies at its expiry {ok}, later {late}"));
            }
            cx.nontrivial(&(r, s, exp, iat));
            Ok(())
        }
    }));
    // prepared trusts
    let mut links = vec![];
    for by in [0, 4, SECP] {
        for s in [0, 4, SECP] {
            links.push(link(by, s, 5000, 10));
            links.push(link(by, s, NOW, 10));
            links.push(link(by, s, NOW - 1, 10));
            links.push(Link { mangle: Mangle::SigBit, ..link(by, s, 5000, 10) });
            links.push(Link { mangle: Mangle::Exp(6000), ..link(by, s, 5000, 10) });
        }
    }
    let k = links.len() as u64;
    out.push(fam("prepared-root", "certificates from every pair of prepared trusts (signer x subject x valid / expiring now / expired / tampered)", k * k, move |i, cx| {
        let d = digits(i, &[k, k]);
        let chain = vec![links[d[0]].clone(), links[d[1]].clone()];
        cx.op();
        let got = Certificate::new_from_root_trust(build(&chain[0]), build(&chain[1]), secs(NOW));
        let want = chain_ok(&chain, &[chain[0].claims().0], NOW);
        cx.outcome(&got.is_ok());
        if got.is_ok() != want || got.as_ref().map_or(false, |c| *c != build_cert(&chain)) {
            return Err(format!("certificate from prepared trusts {chain:?}: {}, expected {want}", got.is_ok()));
        }
        if want {
            cx.nontrivial(&chain);
        }
        Ok(())
    }));
    out
}

// ---------------------------------------------------------------- C14

#[derive(Serialize, Deserialize)]
struct Wrapped {
    #[serde(with = "trust_graph::certificate_serde::vec")]
    certs: Vec<Certificate>,
}
fn serde_rt<T: Serialize + for<'a> Deserialize<'a>>(t: &T, name: &str) -> Result<Vec<T>, String> {
    Ok(vec![
        serde_json::from_slice(&serde_json::to_vec(t).map_err(|e| format!("{name}: json: {e}"))?).map_err(|e| format!("{name}: json: {e}"))?,
        serde_json::from_value(serde_json::to_value(t).map_err(|e| format!("{name}: json value: {e}"))?).map_err(|e| format!("{name}: json value: {e}"))?,
        bincode::deserialize(&bincode::serialize(t).map_err(|e| format!("{name}: bincode: {e}"))?).map_err(|e| format!("{name}: bincode: {e}"))?,
        rmp_serde::from_slice(&rmp_serde::to_vec(t).map_err(|e| format!("{name}: msgpack: {e}"))?).map_err(|e| format!("{name}: msgpack: {e}"))?,
        rmp_serde::from_slice(&rmp_serde::to_vec_named(t).map_err(|e| format!("{name}: msgpack: {e}"))?).map_err(|e| format!("{name}: msgpack: {e}"))?,
    ])
}
/// the binary form has one byte for each length
fn fits(t: &Trust) -> bool {
    t.issued_for.encode().len() <= 255 && t.signature.encode().len() <= 255
}
fn fits_cert(c: &Certificate) -> bool {
    c.chain.len() <= 255 && c.chain.iter().all(|t| fits(t) && t.encode().len() <= 255)
}
fn judge_trust(t: &Trust, name: &str, cx: &mut Ctx) -> R {
    cx.ops(8);
    match guarded(|| Trust::decode(&t.encode()).ok()) {
        Ok(Some(d)) if d == *t => {}
        r if !fits(t) => cx.known_or("C14-trust-binary-255", format!("{name}: key or signature longer than 255 bytes, decoded: {}", matches!(r, Ok(Some(_)))))?,
        r => return Err(format!("{name}: binary form does not come back: {r:?}")),
    }
    let text = t.to_string();
    let lines: Vec<&str> = text.lines().collect();
    if lines.len() != 4 {
        return Err(format!("{name}: text form has {} lines", lines.len()));
    }
    match Trust::convert_from_strings(lines[0], lines[1], lines[2], lines[3]) {
        Ok(d) if d == *t => {}
        r => return Err(format!("{name}: text form does not come back: {r:?}")),
    }
    for d in serde_rt(t, name)? {
        if d != *t {
            return Err(format!("{name}: serialized form does not come back"));
        }
    }
    Ok(())
}
fn judge_codec(c: &Certificate, name: &str, cx: &mut Ctx) -> R {
    cx.ops(2);
    match guarded(|| Certificate::decode(&c.encode()).ok()) {
        Ok(Some(d)) if d == *c => {}
        // the binary form is for chains of at least two trusts
        Ok(None) if c.chain.len() < 2 => {}
        r if !fits_cert(c) => cx.known_or("C14-cert-binary-255", format!("{name}: more than 255 trusts or a trust longer than 255 bytes, decoded: {}", matches!(r, Ok(Some(_)))))?,
        r => return Err(format!("{name}: binary form does not come back: {:?}", r.map(|x| x.map(|c| c.chain.len())))),
    }
    match Certificate::from_str(&c.to_string()) {
        Ok(d) if d == *c => {}
        r => return Err(format!("{name}: text form does not come back: {:?}", r.map(|c| c.chain.len()))),
    }
    Ok(())
}

pub fn codecs(th: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    let mut ks = all_kinds();
    ks.push(RSA + 2);
    let st = stamps(if th { 1 } else { 4 });
    let n = ks.len() as u64;
    let ns = st.len() as u64;
    out.push(fam("trusts", "every issuer and subject of all key types and sizes, every pair of dates on both sides of the powers of two: binary, text and serialized forms", n * n * ns, {
        let (ks, st) = (ks.clone(), st.clone());
        move |i, cx| {
            let d = digits(i, &[n, n, ns]);
            let (by, s, exp) = (ks[d[0]], ks[d[1]], st[d[2]]);
            let sig = trust(by, s, 1000, 10).signature;
            for &iat in &st {
                let t = Trust::new(peer(s).pk.clone(), secs(exp), secs(iat), sig.clone());
                judge_trust(&t, &format!("trust {by}->{s} exp={exp} iat={iat}"), cx)?;
            }
            cx.nontrivial(&(by, s, exp));
            cx.sample(|| format!("{by}->{s} exp={exp}"));
            Ok(())
        }
    }));
    out.push(fam("signature-sizes", "trusts with signatures of every type and every size from 0 to 300 bytes", 3 * 301, |i, cx| {
        let d = digits(i, &[3, 301]);
        let f = [KeyFormat::Ed25519, KeyFormat::Secp256k1, KeyFormat::Rsa][d[0]];
        for fill in [0u8, 1, 0xff] {
            let t = Trust::new(peer(4).pk.clone(), secs(1000), secs(10), Signature::from_bytes(f, vec![fill; d[1]]));
            judge_trust(&t, &format!("{f:?} signature of {} bytes {fill:#x}", d[1]), cx)?;
            let c = Certificate::new_unverified(vec![t.clone(), t]);
            judge_codec(&c, &format!("certificate with {f:?} signatures of {} bytes {fill:#x}", d[1]), cx)?;
        }
        cx.nontrivial(&i);
        Ok(())
    }));
    let maxl = if th { 300u64 } else { 270 };
    let more = [511u64, 512, 513, 1023, 1024, 1025];
    out.push(fam("certificate-lengths", &format!("certificates of 0 to {maxl} and {more:?} trusts"), maxl + 1 + more.len() as u64, move |i, cx| {
        let i = if i > maxl { more[(i - maxl - 1) as usize] } else { i };
        // only so many peers are prepared: longer chains repeat them
        let mut chain = valid_line(i.min(270) as usize);
        while chain.len() < i as usize {
            chain.push(chain[chain.len() - 270 + 1].clone());
        }
        judge_codec(&build_cert(&chain), &format!("certificate of {i} trusts"), cx)?;
        cx.nontrivial(&i);
        Ok(())
    }));
    out.push(fam("certificate-keys", "certificates of 3 trusts over every choice of key types", n * n * n, {
        let ks = ks.clone();
        move |i, cx| {
            let d = digits(i, &[n, n, n]);
            let (r, a, b) = (ks[d[0]], ks[d[1]], ks[d[2]]);
            judge_codec(&build_cert(&[link(r, r, u64::MAX, 10), link(r, a, 5000, 0), link(a, b, 1 << 63, u64::MAX)]), &format!("certificate {r} {a} {b}"), cx)?;
            cx.nontrivial(&i);
            Ok(())
        }
    }));
    // different values have different forms
    let maxd: u32 = if th { 5 } else { 4 };
    out.push(fam("distinct", &format!("all certificates of up to {maxd} trusts over 5 trusts: pairwise different binary and text forms"), 1, move |_, cx| {
        let ts: Vec<Trust> = vec![trust(0, 0, 1000, 10), trust(0, 4, 1000, 10), trust(0, 4, 1000, 11), trust(0, 4, 10, 1000), trust(4, SECP, 1000, 10)];
        let (mut bin, mut text) = (HashSet::new(), HashSet::new());
        for l in 0..=maxd {
            for i in 0..5u64.pow(l) {
                cx.ops(2);
                let c = Certificate::new_unverified(digits(i, &vec![5; l as usize]).into_iter().map(|k| ts[k].clone()).collect());
                if !bin.insert(c.encode()) || !text.insert(c.to_string()) {
                    return Err(format!("certificate {i} of {l} trusts shares its form with another"));
                }
                if l >= 2 && Certificate::decode(&c.encode()).ok().as_ref() != Some(&c) || Certificate::from_str(&c.to_string()).ok().as_ref() != Some(&c) {
                    return Err(format!("certificate {i} of {l} trusts does not come back"));
                }
                cx.nontrivial(&(l, i));
            }
        }
        Ok(())
    }));
    out.push(fam("distinct-trusts", "the forms of trusts that differ in one component differ", 1, {
        let (ks, st) = (ks.clone(), stamps(4));
        move |_, cx| {
            let (mut bin, mut text) = (HashSet::new(), HashSet::new());
            for &s in &ks {
                for by in [0, SECP] {
                    let sig = trust(by, s, 1000, 10).signature;
                    for &e in &st {
                        for &a in &st {
                            cx.ops(2);
                            let t = Trust::new(peer(s).pk.clone(), secs(e), secs(a), sig.clone());
                            if !text.insert(t.to_string()) || !bin.insert(t.encode()) {
                                return Err(format!("trust {by}->{s} exp={e} iat={a} shares its form with another"));
                            }
                        }
                    }
                }
            }
            cx.nontrivial(&bin.len());
            Ok(())
        }
    }));
    // lists of certificates
    let maxn: u32 = if th { 5 } else { 4 };
    out.push(fam("certificate-lists", &format!("every list of up to {maxn} certificates out of 5 (empty, short, long, all key types): JSON, bincode, msgpack"), (0..=maxn).map(|l| 5u64.pow(l)).sum(), move |i, cx| {
        let pool = [
            Certificate::new_unverified(vec![]),
            build_cert(&[link(0, 0, 1000, 10)]),
            build_cert(&valid_line(3)),
            build_cert(&[link(SECP, SECP, u64::MAX, 10), link(SECP, RSA, 0, 0)]),
            build_cert(&valid_line(40)),
        ];
        let (mut l, mut k) = (0u32, i);
        while k >= 5u64.pow(l) {
            k -= 5u64.pow(l);
            l += 1;
        }
        let w = Wrapped { certs: digits(k, &vec![5; l as usize]).into_iter().map(|k| pool[k].clone()).collect() };
        cx.ops(5);
        for d in serde_rt(&w, "list of certificates")? {
            if d.certs != w.certs {
                return Err(format!("list {i} of {l} certificates does not come back: {:?}", d.certs.iter().map(|c| c.chain.len()).collect::<Vec<_>>()));
            }
        }
        cx.nontrivial(&i);
        Ok(())
    }));
    // revocations
    out.push(fam("revocations", "revocations by every key type for every key type, all dates: serialized forms", n * n, move |i, cx| {
        let d = digits(i, &[n, n]);
        let base = revocation(ks[d[0]], ks[d[1]], 10);
        for &at in &st {
            let r = Revocation { revoked_at: secs(at), ..base.clone() };
            cx.ops(5);
            for b in serde_rt(&r, "revocation")? {
                if b.pk != r.pk || b.revoked_by != r.revoked_by || b.revoked_at != r.revoked_at || b.signature != r.signature {
                    return Err(format!("revocation {}->{} at {at} does not come back", ks[d[0]], ks[d[1]]));
                }
            }
        }
        cx.nontrivial(&i);
        Ok(())
    }));
    out
}
