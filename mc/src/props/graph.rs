//! C04 extras, C06, C07, C08, C09, C18, C20: properties of the graph's evolution.
use crate::common::*;
use crate::graphs::*;
use crate::hist::{self, *};
use crate::keys::*;
use crate::model::*;
use crate::sys::*;
use marine_rs_sdk::CallParameters;
use serde_json::json;

/// dates around every boundary of the representation
pub fn dates() -> Vec<u64> {
    let mut v = vec![0, 1, 2, 100, 255, 256, 65535, 65536, 1_700_000_000];
    for k in [31u32, 32, 33, 53, 62, 63] {
        let b = 1u64 << k;
        v.extend([b - 1, b, b + 1]);
    }
    // equal in the low 32 bits
    v.extend([(1 << 32) + 100, (1 << 40) + 100, u64::MAX - 2, u64::MAX - 1, u64::MAX]);
    v.sort();
    v.dedup();
    v
}
pub fn few_dates() -> Vec<u64> {
    vec![0, 1, 100, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 100, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX]
}
pub fn lens() -> Vec<u32> {
    (0..=20).chain([31, 32, 33, 255, 256, 65535, 1 << 31, u32::MAX - 1, u32::MAX]).collect()
}

// ---------------------------------------------------------------- C04

pub fn weight_families(thorough: bool) -> Vec<Box<dyn Family>> {
    let mut out = vec![];
    {
        let ls = lens();
        let nl = ls.len() as u64;
        out.push(fam(
            "lib-chain-limits",
            "lines of 1..=20 peers for every maximum chain length 0..=20 and large values; no, first, last or all of the intermediate peers self-signed (all: up to 8 peers)",
            nl * 20 * 4,
            move |i, cx| {
                let d = digits(i, &[nl, 20, 4]);
                let n = d[1] + 1;
                let own: Vec<usize> = match d[2] {
                    0 => vec![],
                    1 => vec![1],
                    2 => vec![n - 1],
                    _ => (1..n.min(8)).collect(),
                };
                let own: Vec<usize> = own.into_iter().filter(|k| *k < n).collect();
                let g = line(n, ls[d[0]], &own);
                on_lib(&g, &(0..n as P).collect::<Vec<_>>(), Probe::Weight, false, cx)
            },
        ));
    }
    {
        let ls: Vec<u32> = vec![16, 0, 5, u32::MAX];
        let ns: Vec<usize> = if thorough { (21..=315).collect() } else { [30, 60, 100].into_iter().chain(126..=132).chain(200..=202).chain(254..=290).chain([315]).collect() };
        let (nl, nn) = (ls.len() as u64, ns.len() as u64);
        out.push(fam("lib-long-lines", "lines of up to 315 peers, far beyond every maximum chain length, with and without a self-signed trust on the way", nl * nn * 2, move |i, cx| {
            let d = digits(i, &[nl, nn, 2]);
            let n = ns[d[1]];
            let g = line(n, ls[d[0]], &if d[2] == 1 { vec![n / 2] } else { vec![] });
            on_lib(&g, &[1, 16, 17, n as P / 2, n as P - 2, n as P - 1], Probe::Weight, false, cx)
        }));
    }
    {
        let ls: Vec<u32> = (0..=17).chain([u32::MAX]).collect();
        let nl = ls.len() as u64;
        let dist = if thorough { 10 } else { 6 };
        out.push(fam(
            "lib-two-roots",
            "two roots of every maximum chain length 0..=17 and MAX at every pair of distances 1..=6 (thorough 10) from one peer, storage order both ways, optionally the roots trusting each other",
            nl * nl * dist * dist * 2,
            move |i, cx| {
                let d = digits(i, &[nl, nl, dist, dist, 2]);
                let (da, db) = (d[2] as P + 1, d[3] as P + 1);
                let t: P = 100;
                let mut g = G::new(vec![], vec![(0, ls[d[0]]), (1, ls[d[1]])]);
                g.t(0, 0).t(1, 1);
                for (r, dist, base) in [(0, da, 10), (1, db, 30)] {
                    let mut last = r;
                    for k in 1..dist {
                        g.t(last, base + k);
                        last = base + k;
                    }
                    g.t(last, t);
                }
                if d[4] == 1 {
                    g.t(0, 1).t(1, 0);
                }
                on_lib(&g, &[t, 0, 1], Probe::Weight, i % 2 == 1, cx)
            },
        ));
    }
    {
        let ls = [0u32, 1, 2, 3, 16];
        out.push(fam(
            "lib-three-roots",
            "three roots of maximum chain length 0,1,2,3,16 at distances 1..=4 from one peer, with and without self-signed trust of each root, in all registration orders",
            125 * 64 * 8,
            move |i, cx| {
                let d = digits(i, &[5, 5, 5, 4, 4, 4, 8]);
                let t: P = 100;
                let mut g = G::new(vec![], (0..3).map(|r| (r as P, ls[d[r]])).collect());
                for r in 0..3usize {
                    if d[6] >> r & 1 == 1 {
                        g.t(r as P, r as P);
                    }
                    let mut last = r as P;
                    for k in 0..d[3 + r] as P {
                        let p = 10 + 10 * r as P + k;
                        g.t(last, p);
                        last = p;
                    }
                    g.t(last, t);
                }
                on_lib(&g, &[t, 0, 1, 2], Probe::Weight, i % 2 == 1, cx)
            },
        ));
    }
    {
        let ls = lens();
        let nl = ls.len() as u64;
        let ns: Vec<usize> = if thorough { (2..=18).collect() } else { vec![2, 3, 4, 6, 10, 16, 17] };
        let nn = ns.len() as u64;
        out.push(fam(
            "svc-chain-limits",
            "service: lines of 2..=18 peers admitted under the largest limit, then the root set to every maximum chain length 0..=20 and large values; own self-signed trust in the middle or not",
            nl * nn * 2,
            move |i, cx| {
                let d = digits(i, &[nl, nn, 2]);
                let n = ns[d[1]];
                let g = line(n, 16, &if d[2] == 1 { vec![n / 2] } else { vec![] });
                let mut ops = G { peers: vec![0], ..g }.ops(Order::Forward);
                ops.push(root(0, ls[d[0]]));
                incarnate(&Default::default(), |s| {
                    let mut w = World::at(NOW);
                    for op in &ops {
                        w.apply(op, true);
                        s.apply(op, NOW);
                        cx.op();
                    }
                    cx.state(&w.g);
                    cx.nontrivial(&w.g);
                    observe(s, &mut w.g, &(0..n as P).collect::<Vec<_>>(), NOW, Probe::Weight, cx)
                })
                .map(|_| ())
                .map_err(|e| format!("{e}\n  line of {n} with limit {}", ls[d[0]]))
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C06

fn candidates() -> Vec<Link> {
    let mut v = vec![];
    let ps: [P; 4] = [0, 1, 2, OUTSIDER];
    for by in ps {
        for s in ps {
            let other = if s == 1 { 2 } else { 1 };
            let wrong = if by == 0 { 1 } else { 0 };
            for (exp, iat, m) in [
                (1000, 10, Mangle::None),
                (1000, 5, Mangle::None),
                (2000, 20, Mangle::None),
                (NOW, 20, Mangle::None),
                (NOW - 1, 20, Mangle::None),
                (NOW + 1, 20, Mangle::None),
                (1000, NOW, Mangle::None),
                // dated after their own expiry
                (500, 700, Mangle::None),
                (NOW, NOW + 1, Mangle::None),
                (1000, 20, Mangle::SigBit),
                (1000, 20, Mangle::Signer(wrong)),
                (NOW - 1, 20, Mangle::Exp(1000)),
                (1000, 20, Mangle::Exp(1001)),
                (1000, 20, Mangle::Iat(21)),
                (1000, 20, Mangle::Subject(other)),
                // forged copies of trusts the graph already has
                (1000, 10, Mangle::SigBit),
                (1000, 10, Mangle::Signer(wrong)),
                (1000, 10, Mangle::Exp(1001)),
                (1001, 10, Mangle::Exp(1000)),
                (1000, 10, Mangle::Iat(11)),
                (1000, 11, Mangle::Iat(10)),
                (1000, 10, Mangle::Subject(other)),
            ] {
                v.push(Link { by, subj: s, exp, iat, mangle: m });
            }
        }
    }
    v
}
pub fn admission(thorough: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let free: [(P, P); 5] = [(0, 1), (1, 2), (0, 2), (2, 1), (1, 1)];
    let roots: [&[(P, u32)]; 7] = [&[(0, 16)], &[(0, 1)], &[(0, 0)], &[(0, 2), (1, 1)], &[(0, 1), (1, 16)], &[(0, 2), (2, 0)], &[]];
    let state = move |k: usize, r: usize, own: bool| {
        let mut g = G::new(vec![0, 1, 2], roots[r].to_vec());
        if own {
            g.t(0, 0);
        }
        for ((b, s), d) in free.into_iter().zip(digits(k as u64, &[3; 5])) {
            match d {
                1 => drop(g.t(b, s)),
                2 => drop(g.r(b, s)),
                _ => {}
            }
        }
        g
    };
    {
        let cs = candidates();
        let nc = cs.len() as u64;
        out.push(fam(
            "lib-admission",
            "in each of 243 graphs of 3 peers x 7 root settings (with/without the root's own trust): each of 352 trusts (4 issuers x 4 subjects x valid, older, newer, expiring now, expired, dated after their expiry, re-dated, exchanged subject, foreign signer, altered signature, forged copies of trusts already in the graph)",
            243 * 7 * 2 * nc,
            move |i, cx| {
                let d = digits(i, &[nc, 243, 7, 2]);
                if d[3] == 1 && d[2] != 0 && d[2] != 3 {
                    return Ok(());
                }
                let g = state(d[1], d[2], d[3] == 0);
                let mut lib = lib_of(&g, false);
                let mut w = World { g: g.model(), now: NOW };
                let op = Op::Trust(cs[d[0]].clone());
                step(&mut lib, &mut w, &op, false, cx)
                    .and_then(|_| observe(&mut lib, &mut w.g, &[0, 1, 2, OUTSIDER], NOW, Probe::All, cx))
                    .map_err(|e| format!("{e}\n  library, graph {g:?}, then {op:?}"))?;
                cx.state(&w);
                cx.nontrivial(&(d[0], d[1], d[2], d[3]));
                cx.sample(|| format!("{g:?} then {op:?}"));
                Ok(())
            },
        ));
    }
    {
        let cs = candidates();
        let nc = cs.len() as u64;
        let (ns, nr) = if thorough { (243, 7) } else { (27, 4) };
        out.push(fam(
            "svc-admission",
            "service: in graphs of 3 peers built through the interface (27, thorough 243) x root settings (4, thorough 7): each of 320 trusts",
            ns * nr * nc,
            move |i, cx| {
                let d = digits(i, &[nc, ns, nr]);
                let g = state(d[1], d[2], true);
                let op = Op::Trust(cs[d[0]].clone());
                let ops = g.ops(Order::Forward);
                incarnate(&Default::default(), |s| {
                    let mut w = World::at(NOW);
                    for o in &ops {
                        w.apply(o, true);
                        s.apply(o, NOW);
                    }
                    step(s, &mut w, &op, true, cx)?;
                    cx.state(&w);
                    observe(s, &mut w.g, &[0, 1, 2], NOW, Probe::All, cx)
                })
                .map_err(|e| format!("{e}\n  service, graph {g:?}, then {op:?}"))?;
                cx.nontrivial(&(d[0], d[1], d[2]));
                cx.sample(|| format!("{g:?} then {op:?}"));
                Ok(())
            },
        ));
    }
    {
        let ls = lens();
        let nl = ls.len() as u64;
        out.push(fam(
            "lib-admission-weights",
            "every peer of a line of 18 issues a trust and a self-signed trust, for every maximum chain length: the reported weight and the effect",
            nl * 18 * 2,
            move |i, cx| {
                let d = digits(i, &[nl, 18, 2]);
                let g = line(18, ls[d[0]], &[]);
                let mut lib = lib_of(&g, false);
                let mut w = World { g: g.model(), now: NOW };
                let by = d[1] as P;
                let op = t(by, if d[2] == 0 { 50 } else { by }, 1000, 20);
                step(&mut lib, &mut w, &op, false, cx)
                    .and_then(|_| observe(&mut lib, &mut w.g, &[by, 50], NOW, Probe::All, cx))
                    .map_err(|e| format!("{e}\n  line with limit {}, then {op:?}", ls[d[0]]))?;
                cx.state(&w);
                cx.nontrivial(&i);
                Ok(())
            },
        ));
    }
    {
        // every bit of every component, at admission
        let keys: [(P, P); 6] = [(0, 1), (0, SECP), (SECP, 0), (SECP, SECP + 1), (RSA, 0), (0, RSA)];
        out.push(fam(
            "lib-admission-bits",
            "for 6 issuer/subject key type pairs: every single bit of both dates and of the signature flipped, with and without the genuine trust in the graph; must be refused and change nothing",
            6 * (128 + 8 * 256) * 2,
            move |i, cx| {
                let d = digits(i, &[128 + 8 * 256, 6, 2]);
                let (by, s) = keys[d[1]];
                let mut t = trust(by, s, 1 << 40, 10);
                let bit = d[0];
                if bit < 64 {
                    t.expires_at = secs((1 << 40) ^ (1 << bit));
                } else if bit < 128 {
                    t.issued_at = secs(10 ^ (1 << (bit - 64)));
                } else {
                    let mut raw = t.signature.to_vec().to_vec();
                    let k = bit - 128;
                    if k / 8 >= raw.len() {
                        return Ok(());
                    }
                    raw[k / 8] ^= 1 << (k % 8);
                    t.signature = fluence_keypair::Signature::from_bytes(peer(by).kp.key_format(), raw);
                }
                let g = {
                    let mut g = G::new(vec![by, s], vec![(by, 5)]);
                    g.t(by, by);
                    if d[2] == 1 {
                        g.rels.push((by, s, Rel::Trust { exp: 1 << 40, iat: 10 }));
                    }
                    g
                };
                let mut lib = lib_of(&g, false);
                cx.op();
                let r = lib.tg.add_trust(t, peer(by).pk.clone(), secs(NOW));
                if r.is_ok() {
                    return Err(format!("trust of {by} for {s} with bit {bit} changed was accepted"));
                }
                cx.nontrivial(&i);
                cx.state(&(by, s, bit));
                observe(&mut lib, &mut g.model(), &[by, s], NOW, Probe::All, cx)
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C07

pub fn newest_wins(thorough: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let mx = u64::MAX;
    // two statements of every kind with every pair of dates, both orders
    {
        let ds: Vec<u64> = dates().into_iter().filter(|d| *d < mx).collect();
        let n = ds.len() as u64;
        out.push(fam(
            "svc-two-statements",
            "service: every two statements (trust or revocation) of one pair with every combination of 32 dates over the full range, and a replay of the first",
            n * n * 4,
            move |i, cx| {
                let d = digits(i, &[n, n, 2, 2]);
                let st = |kind: usize, at: u64| if kind == 0 { t(0, 1, mx, at) } else { rev(0, 1, at) };
                let (a, b) = (st(d[2], ds[d[0]]), st(d[3], ds[d[1]]));
                let ops = vec![root(0, 3), t(0, 0, mx, 0), a.clone(), b, a];
                judge_svc(mx - 1, &ops, &[0, 1], cx)
            },
        ));
    }
    {
        let ds: Vec<u64> = if thorough { few_dates() } else { vec![0, 100, (1 << 32) + 100, 1 << 63, u64::MAX - 1] };
        let ds: Vec<u64> = ds.into_iter().filter(|d| *d < mx).collect();
        let n = ds.len() as u64;
        out.push(fam(
            "svc-three-statements",
            "service: every three statements of one pair (kinds x dates over the full range)",
            (n * 2).pow(3),
            move |i, cx| {
                let mut ops = vec![root(0, 3), t(0, 0, mx, 0)];
                for k in digits(i, &[n * 2; 3]) {
                    let at = ds[k / 2];
                    ops.push(if k % 2 == 0 { t(0, 1, mx, at) } else { rev(0, 1, at) });
                }
                judge_svc(mx - 1, &ops, &[0, 1], cx)
            },
        ));
    }
    // statements of equal or neighbouring date that differ in their expiry
    {
        let mut pool = vec![];
        for at in [10u64, 11, 12] {
            for exp in [110u64, 120, 130] {
                pool.push(t(0, 1, exp, at));
            }
            pool.push(rev(0, 1, at));
        }
        let n = pool.len() as u64;
        for service in [false, true] {
            let pool = pool.clone();
            out.push(fam(
                if service { "svc-equal-dates" } else { "lib-equal-dates" },
                "every three statements of one pair out of trusts with three dates x three expiry dates and revocations with three dates, the root with or without self-signed trust; then time passes each expiry date",
                n.pow(3) * 2,
                move |i, cx| {
                    let d = digits(i, &[n, n, n, 2]);
                    let mut ops = vec![root(0, 3), root(2, 3), t(2, 2, mx, 0), t(2, 0, mx, 0)];
                    if d[3] == 1 {
                        ops.push(t(0, 0, mx, 0));
                    }
                    ops.extend(d[..3].iter().map(|k| pool[*k].clone()));
                    ops.extend([Op::Time(110), Op::Time(120), Op::Time(130)]);
                    if service {
                        judge_svc_with(NOW, &ops, &[0, 1], Probe::Revoke, cx)
                    } else {
                        judge_lib(NOW, &ops, &[0, 1], cx)
                    }
                },
            ));
        }
    }
    // all arrival orders of sets of statements about the same and other pairs
    {
        let pool = vec![
            t(0, 1, 1000, 10),
            rev(0, 1, 20),
            t(0, 1, 2000, 30),
            rev(1, 0, 50),
            t(1, 2, 1000, 10),
            rev(1, 2, 20),
            t(1, 2, 1000, 30),
            rev(2, 1, 50),
            rev(0, 2, 5),
            t(0, 2, 1000, 4),
        ];
        let size = if thorough { 5 } else { 4 };
        let subs: Vec<Vec<usize>> = subsets_upto(pool.len(), size).into_iter().filter(|s| s.len() == size).collect();
        let perms = permutations(size);
        let np = perms.len() as u64;
        out.push(fam(
            "svc-arrival-orders",
            "service: every 4 (thorough 5) of 10 statements about pairs in both directions, in every arrival order, followed by a replay of the first",
            subs.len() as u64 * np,
            move |i, cx| {
                let (s, p) = (&subs[(i / np) as usize], &perms[(i % np) as usize]);
                let mut ops = vec![root(0, 4), root(1, 3), root(2, 2), t(0, 0, 1000, 10), t(1, 1, 1000, 10), t(2, 2, 1000, 10)];
                ops.extend(p.iter().map(|k| pool[s[*k]].clone()));
                ops.push(pool[s[p[0]]].clone());
                judge_svc(NOW, &ops, &[0, 1, 2], cx)
            },
        ));
    }
    // long sequences about one pair
    {
        let ns = [8usize, 16, 33, 64, 129, 260];
        out.push(fam(
            "svc-long-sequences",
            "service: 8..=260 alternating trusts and revocations of one pair arriving in ascending, descending, inside-out and interleaved order of date, starting with either kind",
            ns.len() as u64 * 8,
            move |i, cx| {
                let d = digits(i, &[ns.len() as u64, 4, 2]);
                let n = ns[d[0]];
                let mut order: Vec<usize> = (0..n).collect();
                match d[1] {
                    0 => {}
                    1 => order.reverse(),
                    2 => order.sort_by_key(|k| (*k as i64 - n as i64 / 2).abs()),
                    _ => order.sort_by_key(|k| (k * 7) % 13),
                }
                let mut ops = vec![root(0, 4), t(0, 0, 10_000, 0)];
                for k in order {
                    let at = 1 + k as u64;
                    ops.push(if (k + d[2]) % 2 == 0 { t(0, 1, 10_000, at) } else { rev(0, 1, at) });
                }
                judge_svc(5000, &ops, &[0, 1], cx)
            },
        ));
    }
    // pairs of look-alike keys
    {
        let ps: Vec<P> = vec![0, 1, 2, 3, SECP];
        let mut prs = vec![];
        for a in &ps {
            for b in &ps {
                if a != b {
                    prs.push((*a, *b));
                }
            }
        }
        let n = prs.len() as u64;
        out.push(fam(
            "svc-other-pairs",
            "service: a newer trust or revocation about every ordered pair of 5 peers (keys with equal leading or trailing bytes, two key types) against a trust or revocation about every other pair",
            n * n * 4,
            move |i, cx| {
                let d = digits(i, &[n, n, 2, 2]);
                let (a, b) = (prs[d[0]], prs[d[1]]);
                let mut ops = vec![];
                for p in &ps {
                    ops.push(root(*p, 3));
                    ops.push(t(*p, *p, 1000, 1));
                }
                ops.push(if d[2] == 0 { t(a.0, a.1, 1000, 10) } else { rev(a.0, a.1, 10) });
                ops.push(if d[3] == 0 { t(b.0, b.1, 1000, 50) } else { rev(b.0, b.1, 50) });
                let mut look = vec![a.0, a.1, b.0, b.1];
                look.sort();
                look.dedup();
                judge_svc_with(NOW, &ops, &look, Probe::Revoke, cx)
            },
        ));
    }
    let sp = Space {
        start: NOW,
        setup: vec![root(0, 4), t(0, 0, 1000, 10)],
        alphabet: vec![
            t(0, 1, 1000, 10), t(0, 1, 1000, 20), t(0, 1, 1000, 30), rev(0, 1, 10), rev(0, 1, 20), rev(0, 1, 30),
            t(1, 2, 1000, 10), t(1, 2, 1000, 20), rev(1, 2, 15), rev(1, 0, 25), rev(0, 2, 15), t(0, 2, 1000, 20),
        ],
        peers: vec![0, 1, 2],
        probe: Probe::All,
    };
    out.push(hist::svc("svc-pair-histories", sp.clone(), if thorough { 4 } else { 3 }, When::Each));
    out.push(hist::svc("svc-pair-histories-end", sp.clone(), if thorough { 4 } else { 3 }, When::End));
    out.push(hist::bfs("svc-pair-states", sp.clone(), if thorough { 20 } else { 6 }, if thorough { 100_000 } else { 1_200 }));
    out.push(hist::lib("lib-pair-histories", sp, if thorough { 5 } else { 4 }, When::End));
    out
}

pub fn judge_svc(now: u64, ops: &[Op], peers: &[P], cx: &mut Ctx) -> R {
    judge_svc_with(now, ops, peers, Probe::All, cx)
}
pub fn judge_svc_with(now: u64, ops: &[Op], peers: &[P], probe: Probe, cx: &mut Ctx) -> R {
    incarnate(&Default::default(), |s| {
        let mut w = World::at(now);
        for op in ops {
            step(s, &mut w, op, true, cx)?;
            cx.state(&w);
            if let Op::Time(_) = op {
                let n = w.now;
                observe(s, &mut w.g, peers, n, probe, cx)?;
            }
        }
        cx.nontrivial(&w);
        let n = w.now;
        observe(s, &mut w.g, peers, n, probe, cx)
    })
    .map_err(|e| format!("{e}\n  service from {now}: {ops:?}"))?;
    cx.sample(|| format!("from {now}: {ops:?}"));
    Ok(())
}
pub fn judge_lib(now: u64, ops: &[Op], peers: &[P], cx: &mut Ctx) -> R {
    let mut s = Lib::new();
    let mut w = World::at(now);
    let go = |s: &mut Lib, w: &mut World, cx: &mut Ctx| -> R {
        for op in ops {
            step(s, w, op, false, cx)?;
            cx.state(&*w);
            if let Op::Time(_) = op {
                let n = w.now;
                observe(s, &mut w.g, peers, n, Probe::All, cx)?;
            }
        }
        cx.nontrivial(&*w);
        let n = w.now;
        observe(s, &mut w.g, peers, n, Probe::All, cx)
    };
    go(&mut s, &mut w, cx).map_err(|e| format!("{e}\n  library from {now}: {ops:?}"))?;
    cx.sample(|| format!("from {now}: {ops:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn expiry(thorough: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let mx = u64::MAX;
    for service in [false, true] {
        let ds = dates();
        let n = ds.len() as u64;
        let name = if service { "svc-expiry-grid" } else { "lib-expiry-grid" };
        out.push(fam(
            name,
            "chain of four trusts admitted at time 0, one of them (each position, also the root's own) expiring at every one of 33 dates, the others last; queried at every one of 33 times",
            n * n * 4,
            move |i, cx| {
                let d = digits(i, &[n, n, 4]);
                let (e, q) = (ds[d[0]], ds[d[1]]);
                let ex = |k: usize| if k == d[2] { e } else { mx };
                let mut ops = vec![root(0, 5), t(0, 0, ex(0), 0), t(0, 1, ex(1), 0), t(1, 2, ex(2), 0), t(2, 3, ex(3), 0)];
                if q > 0 {
                    ops.push(Op::Time(q));
                }
                if service {
                    judge_svc_with(0, &ops, &[1, 2, 3], Probe::Revoke, cx)
                } else {
                    judge_lib(0, &ops, &[1, 2, 3], cx)
                }
            },
        ));
    }
    // admission at the boundary
    for service in [false, true] {
        let ds = dates();
        let n = ds.len() as u64;
        let name = if service { "svc-expiry-admission" } else { "lib-expiry-admission" };
        out.push(fam(
            name,
            "a trust with every one of 33 expiry dates added at every one of 33 times, then a dependent trust; then one time step further",
            n * n,
            move |i, cx| {
                let d = digits(i, &[n, n]);
                let (e, q) = (ds[d[0]], ds[d[1]]);
                let mut ops = vec![root(0, 5), t(0, 0, mx, 0), t(0, 1, e, 0), t(1, 2, mx, 0)];
                if q < mx {
                    ops.push(Op::Time(q + 1));
                }
                if service {
                    judge_svc(q, &ops, &[0, 1, 2], cx)
                } else {
                    judge_lib(q, &ops, &[0, 1, 2], cx)
                }
            },
        ));
    }
    // several trusts and revocations, several steps of time
    {
        let ds: Vec<u64> = if thorough { few_dates() } else { vec![1, 100, 1 << 31, (1 << 32) + 100, 1 << 63, u64::MAX] };
        let n = ds.len() as u64;
        out.push(fam(
            "svc-expiry-steps",
            "service: two trusts with every pair of expiry dates and a revocation of a third pair; time moves to every ascending pair of dates; the shorter trust is replaced by an older one after expiry",
            n * n * n * n,
            move |i, cx| {
                let d = digits(i, &[n; 4]);
                let (e1, e2, q1, q2) = (ds[d[0]], ds[d[1]], ds[d[2]], ds[d[3]]);
                if q1 >= q2 {
                    return Ok(());
                }
                let ops = vec![
                    root(0, 5), t(0, 0, mx, 0), t(0, 1, e1, 1), t(0, 2, e2, 1), t(1, 3, mx, 1), t(2, 3, mx, 1), rev(1, 4, 1), t(2, 4, mx, 1), t(3, 4, mx, 1),
                    Op::Time(q1), t(0, 1, mx, 0), Op::Time(q2),
                ];
                judge_svc_with(1, &ops, &[1, 2, 3, 4], Probe::Revoke, cx)
            },
        ));
    }
    {
        let ns = [1usize, 2, 7, 16, 33, 65, 129, 257];
        out.push(fam(
            "svc-expiry-many",
            "service: n trusts of one issuer with consecutive expiry dates; time moves through all of them in steps or at once (n up to 257)",
            ns.len() as u64 * 2,
            move |i, cx| {
                let n = ns[i as usize / 2];
                let mut ops = vec![root(0, 5), t(0, 0, mx, 0)];
                for k in 0..n as P {
                    ops.push(t(0, 10 + k, 1000 + k as u64, 1));
                }
                let steps = if i % 2 == 0 { vec![0, n / 2, n - 1, n] } else { vec![n] };
                for k in steps {
                    ops.push(Op::Time(1000 + k as u64));
                }
                ops.dedup();
                // every question also collects expired trusts: ask for the last one first
                let look: Vec<P> = [n - 1, n / 2, 0].iter().map(|k| 10 + *k as P).collect();
                judge_svc_with(500, &ops, &look, Probe::Revoke, cx)
            },
        ));
    }
    // an issuer that has no trusts itself: nothing else makes a query look at it
    let bare = Space {
        start: NOW,
        setup: vec![root(0, 5)],
        alphabet: vec![
            t(0, 1, 150, 20), t(0, 1, 1000, 10), t(0, 1, 200, 15), t(1, 2, 200, 10), t(1, 2, 1000, 5), t(0, 0, 150, 10), t(0, 0, 1000, 5), Op::Time(150), Op::Time(200),
        ],
        peers: vec![0, 1, 2],
        probe: Probe::All,
    };
    out.push(hist::svc("svc-bare-root", bare.clone(), if thorough { 5 } else { 4 }, When::Each));
    // ... and a root of the greatest weight there is
    let best = Space { setup: vec![root(0, 16)], ..bare.clone() };
    out.push(hist::svc("svc-bare-root-end", best.clone(), if thorough { 6 } else { 4 }, When::End));
    out.push(hist::lib("lib-bare-root-end", best, if thorough { 6 } else { 5 }, When::End));
    let sp = Space {
        start: NOW,
        setup: vec![root(0, 5), t(0, 0, 1000, 10)],
        alphabet: vec![
            t(0, 1, 150, 20), t(0, 1, 1000, 10), t(0, 1, 200, 30), t(1, 2, 200, 10), t(1, 2, 151, 5), rev(0, 2, 20), rev(1, 2, 20), rev(0, 1, 15), t(1, 1, 150, 10),
            t(2, 2, 1000, 10), Op::Time(150), Op::Time(151), Op::Time(200), Op::Time(1000),
        ],
        peers: vec![0, 1, 2],
        probe: Probe::All,
    };
    out.push(hist::lib("lib-expiry-histories", sp.clone(), if thorough { 5 } else { 4 }, When::Each));
    out.push(hist::svc("svc-expiry-histories", sp.clone(), if thorough { 4 } else { 3 }, When::Each));
    out.push(hist::bfs("svc-expiry-states", sp, if thorough { 20 } else { 4 }, if thorough { 60_000 } else { 2_000 }));
    out
}

// ---------------------------------------------------------------- C09

fn import_states() -> Vec<Vec<Op>> {
    vec![
        vec![],
        vec![root(0, 5)],
        vec![root(0, 1)],
        vec![root(0, 2), t(0, 0, 1000, 30)],
        vec![root(0, 5), t(0, 0, 1000, 5), rev(0, 1, 15)],
        vec![root(0, 5), rev(1, 2, 15), rev(0, 2, 5)],
        vec![root(0, 0), root(1, 3)],
        vec![root(1, 3), t(1, 1, 1000, 10)],
        vec![root(0, 5), t(0, 0, 1000, 10), t(0, 1, 1000, 30), t(1, 2, 120, 30)],
    ]
}
/// variations of a link inside a chain
fn variants(by: P, subj: P) -> Vec<Link> {
    let other = if subj == 3 { 2 } else { 3 };
    let wrong = if by == 0 { 3 } else { 0 };
    let l = |exp, iat, mangle| Link { by, subj, exp, iat, mangle };
    vec![
        l(1000, 10, Mangle::None),
        l(1000, 10, Mangle::SigBit),
        l(1000, 10, Mangle::Signer(wrong)),
        l(NOW - 1, 10, Mangle::None),
        l(NOW, 10, Mangle::None),
        l(NOW - 1, 10, Mangle::Exp(1000)),
        l(1000, 10, Mangle::Iat(40)),
        l(1000, 10, Mangle::Subject(other)),
        l(1000, 40, Mangle::None),
    ]
}
fn import_case(state: &[Op], chain: &[Link], via: Via, service: bool, peers: &[P], cx: &mut Ctx) -> R {
    let op = Op::Import { chain: chain.to_vec(), via };
    let mut ops = state.to_vec();
    ops.push(op);
    if service {
        judge_svc(NOW, &ops, peers, cx)?;
    } else {
        judge_lib(NOW, &ops, peers, cx)?;
    }
    Ok(())
}
pub fn import(thorough: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    // chains of up to four trusts over peers 0..3, at most two of them not plain
    let mut chains: Vec<Vec<Link>> = vec![vec![]];
    for path in [vec![0], vec![0, 1], vec![0, 1, 2], vec![0, 1, 2, 3], vec![1, 2], vec![0, 1, 1, 2], vec![0, 0, 1], vec![0, 1, 0], vec![0, 1, 2, 1]] as [Vec<P>; 9] {
        let n = path.len();
        let by = |k: usize| if k == 0 { path[0] } else { path[k - 1] };
        let nv = 9;
        for bad in subsets_upto(n, 2) {
            let total = (nv as u64 - 1).pow(bad.len() as u32);
            for v in 0..total {
                let vs = digits(v, &vec![nv as u64 - 1; bad.len()]);
                chains.push(
                    (0..n)
                        .map(|k| {
                            let which = bad.iter().position(|b| *b == k).map_or(0, |j| vs[j] + 1);
                            variants(by(k), path[k])[which].clone()
                        })
                        .collect(),
                );
            }
        }
    }
    // misplaced trusts: a link dropped, doubled, swapped
    let base: Vec<Link> = [(0, 0), (0, 1), (1, 2), (2, 3)].iter().map(|(b, s)| link(*b, *s, 1000, 10)).collect();
    for k in 0..4 {
        let mut c = base.clone();
        c.remove(k);
        chains.push(c);
        let mut c = base.clone();
        c.insert(k, base[k].clone());
        chains.push(c);
        for j in 0..k {
            let mut c = base.clone();
            c.swap(j, k);
            chains.push(c);
        }
    }
    chains.sort();
    chains.dedup();
    let nc = chains.len() as u64;
    let states = import_states();
    let nst = states.len() as u64;
    {
        let (chains, states) = (chains.clone(), states.clone());
        out.push(fam(
            "lib-import",
            &format!("{nc} certificates of up to 4 trusts (at most two of them expired, expiring now, re-dated, newer, foreign, altered, exchanged; or a trust dropped, doubled, swapped) imported as value and as text in {nst} graph states"),
            nc * nst * 2,
            move |i, cx| {
                let d = digits(i, &[nc, nst, 2]);
                import_case(&states[d[1]], &chains[d[0]], [Via::Value, Via::Text][d[2]], false, &[0, 1, 2, 3], cx)
            },
        ));
    }
    {
        let (chains, states) = (chains.clone(), states);
        // quick: at most one bad trust, four states
        let pick: Vec<usize> = if thorough { (0..chains.len()).collect() } else { (0..chains.len()).filter(|k| chains[*k].iter().filter(|l| l.mangle != Mangle::None || l.exp != 1000 || l.iat != 10).count() <= 1).collect() };
        let np = pick.len() as u64;
        let sts: Vec<usize> = if thorough { (0..states.len()).collect() } else { vec![0, 1, 3, 4, 5, 6, 8] };
        let ns = sts.len() as u64;
        out.push(fam(
            "svc-import",
            "service: the same certificates (quick: at most one bad trust) imported as record and as text in 7 (thorough all) graph states",
            np * ns * 2,
            move |i, cx| {
                let d = digits(i, &[np, ns, 2]);
                import_case(&states[sts[d[1]]], &chains[pick[d[0]]], [Via::Record, Via::Text][d[2]], true, &[0, 1, 2, 3], cx)
            },
        ));
    }
    {
        // long certificates, one bad position
        let ns: Vec<usize> = vec![5, 8, 15, 16, 17, 18, 20, 33, 40];
        let mut cases: Vec<(usize, Option<(usize, usize)>, u32)> = vec![];
        for n in &ns {
            for len in [2u32, 16] {
                cases.push((*n, None, len));
                for p in 0..*n {
                    for v in [1usize, 2, 3, 6] {
                        cases.push((*n, Some((p, v)), len));
                    }
                }
            }
        }
        for n in [64usize, 65, 101, 128, 129, 256, 257] {
            cases.push((n, None, u32::MAX));
            for p in [0, 1, 17, n / 2, n - 2, n - 1] {
                for v in [1usize, 3] {
                    cases.push((n, Some((p, v)), u32::MAX));
                }
            }
        }
        out.push(fam(
            "lib-import-long",
            "certificates of 5..=40 trusts with no or one bad trust at every position, root limit 2 and 16; of 64..=257 trusts with no or one bad trust at the ends and in the middle",
            cases.len() as u64,
            move |i, cx| {
                let (n, bad, len) = cases[i as usize];
                let chain: Vec<Link> = (0..n)
                    .map(|k| {
                        let by = if k == 0 { 0 } else { k as P - 1 };
                        let v = variants(by, k as P);
                        bad.filter(|b| b.0 == k).map_or(v[0].clone(), |b| v[b.1].clone())
                    })
                    .collect();
                let via = if i % 2 == 0 { Via::Value } else { Via::Text };
                let n = n as P;
                import_case(&[root(0, len)], &chain, via, false, &[0, 1, n / 2, n - 2, n - 1], cx)
            },
        ));
    }
    {
        let ns: Vec<usize> = if thorough { vec![16, 33, 64, 65, 101, 128, 129, 256, 257] } else { vec![33, 65, 129] };
        let nn = ns.len() as u64;
        out.push(fam("svc-import-long", "service: certificates of 33..=129 (thorough 257) trusts, sound or with one bad trust at either end or in the middle, as record and as text", nn * 2 * 4, move |i, cx| {
            let d = digits(i, &[nn, 2, 4]);
            let n = ns[d[0]];
            let bad = [None, Some(1), Some(n / 2), Some(n - 1)][d[2]];
            let chain: Vec<Link> = (0..n)
                .map(|k| variants(if k == 0 { 0 } else { k as P - 1 }, k as P)[if bad == Some(k) { 1 } else { 0 }].clone())
                .collect();
            let n = n as P;
            import_case(&[root(0, u32::MAX)], &chain, [Via::Record, Via::Text][d[1]], true, &[0, 1, n / 2, n - 2, n - 1], cx)
        }));
    }
    {
        // real comparison: import versus adding one by one
        let chains2 = chains;
        out.push(fam(
            "lib-import-vs-one-by-one",
            "the same certificates: importing and adding the trusts one by one until the first error give the same answers",
            nc * 2,
            move |i, cx| {
                let d = digits(i, &[nc, 2]);
                let chain = &chains2[d[0]];
                let mk = || {
                    let mut l = Lib::new();
                    l.apply(&root(0, 5), NOW);
                    if d[1] == 1 {
                        l.apply(&rev(0, 2, 15), NOW);
                        l.apply(&t(0, 0, 1000, 5), NOW);
                    }
                    l
                };
                let (mut a, mut b) = (mk(), mk());
                cx.op();
                let ra = a.apply(&Op::Import { chain: chain.clone(), via: Via::Value }, NOW);
                let mut rb = if chain.is_empty() { Out::Err } else { Out::Ok };
                let mut issuer = chain.first().map(|l| l.claims().0);
                for l in chain {
                    cx.op();
                    if b.tg.add_trust(build(l), peer(issuer.unwrap()).pk.clone(), secs(NOW)).is_err() {
                        rb = Out::Err;
                        break;
                    }
                    issuer = Some(l.claims().0);
                }
                if ra != rb {
                    return Err(format!("import answers {ra:?}, one by one {rb:?}: {chain:?}"));
                }
                for p in 0..4 {
                    if a.certs(p, NOW)? != b.certs(p, NOW)? || a.weight(p, NOW)? != b.weight(p, NOW)? {
                        return Err(format!("import and one by one differ for {p}: {chain:?}"));
                    }
                }
                cx.nontrivial(&i);
                cx.state(&(chain, d[1]));
                Ok(())
            },
        ));
    }
    {
        // imports inside histories
        let ch = |v: Vec<Link>, via| Op::Import { chain: v, via };
        let c012: Vec<Link> = vec![link(0, 0, 1000, 10), link(0, 1, 1000, 10), link(1, 2, 1000, 10)];
        let mut bad = c012.clone();
        bad[2].mangle = Mangle::SigBit;
        let mut expired = c012.clone();
        expired[1].exp = 120;
        let sp = Space {
            start: NOW,
            setup: vec![root(0, 5)],
            alphabet: vec![
                ch(c012.clone(), Via::Record),
                ch(c012, Via::Text),
                ch(bad, Via::Record),
                ch(expired, Via::Text),
                ch(vec![link(3, 3, 1000, 10), link(3, 1, 1000, 10)], Via::Record),
                ch(vec![], Via::Record),
                rev(0, 1, 15),
                rev(1, 2, 15),
                t(0, 1, 1000, 20),
                Op::Time(120),
                Op::Time(121),
                root(3, 1),
            ],
            peers: vec![0, 1, 2, 3],
            probe: Probe::All,
        };
        out.push(hist::svc("svc-import-histories", sp.clone(), if thorough { 4 } else { 3 }, When::Each));
        out.push(hist::lib("lib-import-histories", sp, if thorough { 5 } else { 4 }, When::Each));
    }
    out
}

// ---------------------------------------------------------------- C18

pub fn roots(thorough: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let no = |p, len| Op::Root { p, len, owner: false };
    let sp = Space {
        start: NOW,
        setup: vec![],
        alphabet: vec![
            root(0, 0), root(0, 1), root(0, 3), root(0, 17), root(1, 2), root(1, 0), no(0, 5), no(1, 3), no(2, 16),
            t(0, 0, 1000, 10), t(0, 1, 1000, 10), t(1, 2, 1000, 10), t(1, 1, 1000, 10),
        ],
        peers: vec![0, 1, 2],
        probe: Probe::All,
    };
    out.push(hist::svc("svc-root-histories", sp.clone(), if thorough { 4 } else { 3 }, When::Each));
    out.push(hist::svc("svc-root-histories-end", sp.clone(), if thorough { 5 } else { 4 }, When::End));
    out.push(hist::bfs("svc-root-states", sp.clone(), if thorough { 20 } else { 7 }, if thorough { 50_000 } else { 4_000 }));
    out.push(hist::lib("lib-root-histories", Space { alphabet: sp.alphabet.iter().filter(|o| !matches!(o, Op::Root { owner: false, .. })).cloned().collect(), ..sp.clone() }, 5, When::End));
    {
        // the trusts of the later roots are already there
        let setup = vec![root(0, 3), t(0, 0, 1000, 10), t(0, 1, 1000, 10), t(1, 1, 1000, 10), t(1, 2, 1000, 10), t(0, 2, 1000, 10), t(2, 2, 1000, 10), t(2, 1, 1000, 10)];
        let alphabet = vec![root(0, 0), root(0, 3), root(0, 5), root(1, 0), root(1, 2), root(1, 9), root(2, 4), no(1, 7), no(0, 1), Op::Time(NOW + 1), Op::Restart];
        let late = Space { setup, alphabet, ..sp.clone() };
        out.push(hist::svc("svc-late-roots", late.clone(), if thorough { 4 } else { 3 }, When::Each));
        out.push(hist::lib("lib-late-roots", Space { alphabet: late.alphabet.iter().filter(|o| !matches!(o, Op::Root { owner: false, .. } | Op::Restart)).cloned().collect(), ..late }, if thorough { 5 } else { 4 }, When::Each));
    }
    {
        let ls = lens();
        let n = ls.len() as u64;
        out.push(fam(
            "svc-root-relimit",
            "service: a line of 5 admitted under every first limit, then re-set to every second limit, asked before and after, then re-set to the first",
            n * n,
            move |i, cx| {
                let d = digits(i, &[n, n]);
                let mut ops = vec![root(0, ls[d[0]]), t(0, 0, 1000, 10), t(0, 1, 1000, 10), t(1, 2, 1000, 10), t(2, 3, 1000, 10), t(3, 4, 1000, 10)];
                ops.push(Op::Time(NOW + 1));
                ops.push(root(0, ls[d[1]]));
                ops.push(Op::Time(NOW + 2));
                ops.push(t(2, 3, 1000, 20));
                ops.push(root(0, ls[d[0]]));
                judge_svc_with(NOW, &ops, &[0, 1, 2, 3, 4], Probe::Revoke, cx)
            },
        ));
    }
    {
        // who may set roots
        let creators = ["12D3KooWOwnerOfTheService", "owner", "12D3KooWHostOfTheService", ""];
        let inits = ["12D3KooWOwnerOfTheService", "owner", "12D3KooWHostOfTheService", "", "12D3KooWOwnerOfTheServic", "12D3KooWOwnerOfTheService2", "12D3koowownerofTheservice", "trust-graph", "Owner", "owner "];
        out.push(fam(
            "svc-root-callers",
            "service: every combination of creator (4) and initiator (10: equal, host, empty, truncated, extended, other case, service id), with the caller also named in tetraplets, for a new and an existing root",
            4 * 10 * 2 * 2,
            move |i, cx| {
                let d = digits(i, &[4, 10, 2, 2]);
                if creators[d[0]].is_empty() && inits[d[1]].is_empty() {
                    return Ok(());
                }
                let allowed = creators[d[0]] == inits[d[1]];
                incarnate(&Default::default(), |s| {
                    let mut w = World::at(NOW);
                    for op in [root(0, 3), t(0, 0, 1000, 10), t(0, 1, 1000, 10)] {
                        step(s, &mut w, &op, true, cx)?;
                    }
                    let p: P = if d[2] == 0 { 0 } else { 1 };
                    let mut cp: CallParameters = params("set_root", 2, HOST);
                    cp.init_peer_id = inits[d[1]].into();
                    cp.service_creator_peer_id = creators[d[0]].into();
                    cp.tetraplets = if d[3] == 0 { vec![] } else { vec![vec![good_origin(creators[d[0]])], vec![good_origin(creators[d[0]])]] };
                    cx.op();
                    let v = raw_call("set_root", &json!([peer(p).id, 6]), cp);
                    consistent(&v)?;
                    if is_success(&v) != allowed {
                        return Err(format!("set_root by {:?} on a service of {:?} answered {v}", inits[d[1]], creators[d[0]]));
                    }
                    if allowed {
                        w.g.roots.insert(p, 6);
                    }
                    cx.state(&(d, allowed));
                    cx.nontrivial(&i);
                    observe(s, &mut w.g, &[0, 1], NOW, Probe::All, cx)
                })
                .map(|_| ())
            },
        ));
    }
    {
        let ns = [2usize, 5, 17, 33, 65, 129, 257];
        out.push(fam(
            "svc-many-roots",
            "service: up to 257 roots set in turn, then every third re-set with another limit; the last one certifies a peer",
            ns.len() as u64,
            move |i, cx| {
                let n = ns[i as usize] as P;
                let mut ops: Vec<Op> = (0..n).map(|p| root(p, p as u32 % 18)).collect();
                ops.extend((0..n).step_by(3).map(|p| root(p, (p as u32 + 5) % 18)));
                let look: Vec<P> = (0..n).collect();
                judge_svc_with(NOW, &ops, &look, Probe::Weight, cx)?;
                ops.extend([t(n - 1, n - 1, 1000, 10), t(n - 1, n, 1000, 10), t(0, 0, 1000, 10), t(0, n, 1000, 10)]);
                judge_svc_with(NOW, &ops, &[n], Probe::All, cx)
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C20

pub fn future(thorough: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let mx = u64::MAX;
    let ds = dates();
    let n = ds.len() as u64;
    {
        let ds = ds.clone();
        out.push(fam(
            "svc-future-grid",
            "service: a trust, a self-signed trust, a revocation and a replacing statement of every one of 33 issue dates at every one of 33 current times",
            n * n * 5,
            move |i, cx| {
                let d = digits(i, &[n, n, 5]);
                let (at, now) = (ds[d[0]], ds[d[1]]);
                let mut ops = vec![root(0, 5)];
                if now < mx {
                    ops.push(t(0, 0, mx, 0));
                }
                match d[2] {
                    0 => ops.push(t(0, 1, mx, at)),
                    1 => ops.push(t(0, 0, mx, at)),
                    2 => ops.push(rev(0, 1, at)),
                    3 => ops.extend([t(0, 1, mx, 0), rev(0, 1, at)]),
                    _ => ops.extend([rev(0, 1, 0), t(0, 1, mx, at)]),
                }
                judge_svc_with(now, &ops, &[0, 1], Probe::Revoke, cx)
            },
        ));
    }
    {
        let f = |t: Op| t;
        let sp = Space {
            start: NOW,
            setup: vec![root(0, 5), t(0, 0, 1000, 10)],
            alphabet: vec![
                f(t(0, 1, 1000, 100)), t(0, 1, 1000, 101), t(0, 1, 1000, 50), rev(0, 1, 100), rev(0, 1, 101), rev(0, 1, 60), t(1, 2, 1000, 100), t(1, 2, 1000, 150),
                rev(1, 2, 150), rev(5, 1, 101), t(5, 1, 1000, 101), Op::Time(101), Op::Time(150),
            ],
            peers: vec![0, 1, 2],
            probe: Probe::All,
        };
        out.push(hist::svc("svc-future-histories", sp.clone(), if thorough { 4 } else { 3 }, When::Each));
        out.push(hist::bfs("svc-future-states", sp, if thorough { 20 } else { 5 }, if thorough { 40_000 } else { 1_500 }));
    }
    {
        // import paths
        let small = few_dates();
        let n = small.len() as u64;
        out.push(fam(
            "svc-future-import",
            "service: certificates of two trusts of which one carries every one of 14 issue dates, imported as record and text at every one of 14 times into an empty graph and one where the root is trusted",
            n * n * 2 * 2 * 2,
            move |i, cx| {
                let d = digits(i, &[n, n, 2, 2, 2]);
                let (at, now) = (small[d[0]], small[d[1]]);
                let iat = |k: usize| if k == d[2] { at } else { 0 };
                let chain = vec![link(0, 0, mx, iat(0)), link(0, 1, mx, iat(1))];
                let via = [Via::Record, Via::Text][d[3]];
                let mut ops = vec![root(0, 5)];
                if d[4] == 1 && now < mx {
                    ops.push(t(0, 0, mx, 0));
                }
                ops.push(Op::Import { chain, via });
                judge_svc_with(now, &ops, &[0, 1], Probe::Revoke, cx).map_err(|e| format!("{e}\n  {ops:?} at {now}"))?;
                cx.nontrivial(&i);
                Ok(())
            },
        ));
    }
    out
}
