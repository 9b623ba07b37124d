//! Trust graphs put in place (library) or built through the interface (service), all queries judged.
use crate::common::*;
use crate::keys::*;
use crate::memstore::Mem;
use crate::model::*;
use crate::sys::*;
use trust_graph::{Auth, TrustRelation};

pub const NOW: u64 = 100;
/// exponentially many answers are not needed to judge; families keep below this
pub const OUTSIDER: P = 40;

#[derive(Clone, Debug, Hash, Default)]
pub struct G {
    pub peers: Vec<P>,
    pub roots: Vec<(P, u32)>,
    pub rels: Vec<(P, P, Rel)>,
}
pub fn tr() -> Rel {
    Rel::Trust { exp: 1000, iat: 10 }
}
pub fn rv() -> Rel {
    Rel::Revoked { at: 10 }
}
impl G {
    pub fn new(peers: Vec<P>, roots: Vec<(P, u32)>) -> G {
        G { peers, roots, rels: vec![] }
    }
    pub fn t(&mut self, by: P, s: P) -> &mut Self {
        self.rels.push((by, s, tr()));
        self
    }
    pub fn r(&mut self, by: P, s: P) -> &mut Self {
        self.rels.push((by, s, rv()));
        self
    }
    pub fn model(&self) -> Model {
        Model { roots: self.roots.iter().copied().collect(), rel: self.rels.iter().map(|(b, s, r)| ((*b, *s), r.clone())).collect() }
    }
    /// Operations that build the graph through the interface.
    pub fn ops(&self, order: Order) -> Vec<Op> {
        let mut ops: Vec<Op> = self.roots.iter().map(|(p, len)| Op::Root { p: *p, len: *len, owner: true }).collect();
        let mut rels = self.rels.clone();
        if order == Order::Reversed {
            rels.reverse();
        }
        let rev = |x: &(P, P, Rel)| match x.2 {
            Rel::Revoked { at } => Some(Op::Revoke { by: x.0, subj: x.1, at, mangle: Mangle::None }),
            _ => None,
        };
        // trusts need a weighted issuer: repeat until (for small graphs) nothing new can enter
        for pass in 0..self.peers.len().min(3) {
            for x in &rels {
                match x.2 {
                    Rel::Trust { exp, iat } => ops.push(Op::Trust(link(x.0, x.1, exp, iat))),
                    _ if pass == 0 && order == Order::Forward => ops.extend(rev(x)),
                    _ => {}
                }
            }
        }
        if order != Order::Forward {
            ops.extend(rels.iter().filter_map(rev));
        }
        ops
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Forward,
    RevsLast,
    Reversed,
}
pub fn relation(b: P, s: P, r: &Rel) -> TrustRelation {
    match r {
        Rel::Trust { exp, iat } => TrustRelation::Auth(Auth { trust: trust(b, s, *exp, *iat), issued_by: peer(b).pk.clone() }),
        Rel::Revoked { at } => TrustRelation::Revocation(revocation(b, s, *at)),
    }
}
/// The library on a storage that already contains the graph.
pub fn lib_of(g: &G, reverse: bool) -> Lib {
    let mem = Mem::default();
    mem.0.borrow_mut().reverse = reverse;
    for (b, s, r) in &g.rels {
        mem.put(relation(*b, *s, r));
    }
    let mut lib = Lib::with(mem);
    for (p, len) in &g.roots {
        lib.apply(&Op::Root { p: *p, len: *len, owner: true }, NOW);
    }
    lib
}
pub fn on_lib(g: &G, targets: &[P], probe: Probe, reverse: bool, cx: &mut Ctx) -> R {
    let mut m = g.model();
    cx.state(&m);
    if targets.iter().any(|t| !m.paths(*t).is_empty()) {
        cx.nontrivial(&m);
    }
    let mut lib = lib_of(g, reverse);
    observe(&mut lib, &mut m, targets, NOW, probe, cx).map_err(|e| format!("{e}\n  library, graph {g:?}"))?;
    cx.sample(|| format!("{g:?}"));
    Ok(())
}
pub fn on_svc(g: &G, targets: &[P], probe: Probe, order: Order, cx: &mut Ctx) -> R {
    let ops = g.ops(order);
    incarnate(&Default::default(), |s| {
        let mut w = World::at(NOW);
        for op in &ops {
            // admission is judged by C06; here the model simply follows
            cx.op();
            w.apply(op, true);
            s.apply(op, NOW);
        }
        cx.state(&w.g);
        if targets.iter().any(|t| !w.g.paths(*t).is_empty()) {
            cx.nontrivial(&w.g);
        }
        observe(s, &mut w.g, targets, NOW, probe, cx)
    })
    .map_err(|e| format!("{e}\n  service, graph {g:?} {order:?}"))?;
    cx.sample(|| format!("service {g:?}"));
    Ok(())
}

fn digit_rel(d: usize) -> Option<Rel> {
    match d {
        1 => Some(tr()),
        2 => Some(rv()),
        _ => None,
    }
}

/// peers and pairs of a small complete enumeration
fn pairs(peers: &[P], selfs: bool) -> Vec<(P, P)> {
    let mut v = vec![];
    for b in peers {
        for s in peers {
            if b != s || selfs {
                v.push((*b, *s));
            }
        }
    }
    v
}

/// `base` graphs with one extra relation: line 0..n with a skip/back edge and revocations.
pub fn line(n: usize, len: u32, selfs: &[usize]) -> G {
    let mut g = G::new((0..n as P).collect(), vec![(0, len)]);
    g.t(0, 0);
    for i in 1..n as P {
        g.t(i - 1, i);
    }
    for s in selfs {
        if *s != 0 {
            g.t(*s as P, *s as P);
        }
    }
    g
}
pub fn complete(n: usize, len: u32) -> G {
    let mut g = G::new((0..n as P).collect(), vec![(0, len)]);
    g.t(0, 0);
    for b in 0..n as P {
        for s in 1..n as P {
            if b != s {
                g.t(b, s);
            }
        }
    }
    g
}
/// root -> layer of width w -> ... -> target, fully connected between layers
pub fn layered(w: usize, d: usize, len: u32) -> (G, P) {
    let id = |l: usize, i: usize| (1 + l * w + i) as P;
    let target = (1 + w * d) as P;
    let mut g = G::new((0..=target).collect(), vec![(0, len)]);
    g.t(0, 0);
    for i in 0..w {
        g.t(0, id(0, i));
        for l in 1..d {
            for j in 0..w {
                g.t(id(l - 1, i), id(l, j));
            }
        }
        g.t(id(d - 1, i), target);
    }
    (g, target)
}
pub const SCALE: [usize; 14] = [1, 2, 3, 5, 8, 10, 16, 17, 20, 33, 65, 101, 129, 257];

fn set(g: &mut G, b: P, s: P, r: Rel) {
    g.rels.retain(|x| (x.0, x.1) != (b, s));
    g.rels.push((b, s, r));
}

/// The static families. `with_rev`: the property is about revocations, so put more of them in.
pub fn families(probe: Probe, thorough: bool, with_rev: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    // every graph of three peers (nothing / trust / revocation for each of nine pairs), root sets up to symmetry
    {
        let n = 3u64.pow(9);
        let lens: &[u32] = &[3, 1, 0];
        out.push(fam(
            "lib-3-peers",
            "every assignment of {nothing, trust, revocation} to all 9 ordered pairs of 3 peers (two of them with colliding key prefixes), roots {}, {0}, {0,1}, {0,1,2} of different maximum chain length, storage order forward and reversed; all peers and one outsider queried",
            n * 8,
            move |i, cx| {
                let d = digits(i, &[n, 4, 2]);
                let peers: Vec<P> = vec![0, 1, 2];
                let mut g = G::new(peers.clone(), (0..d[1]).map(|r| (r as P, lens[r])).collect());
                for ((b, s), k) in pairs(&peers, true).into_iter().zip(digits(d[0] as u64, &[3; 9])) {
                    if let Some(r) = digit_rel(k) {
                        g.rels.push((b, s, r));
                    }
                }
                on_lib(&g, &[0, 1, 2, OUTSIDER], probe, d[2] == 1, cx)
            },
        ));
    }
    // long after the statements were made
    for service in [false, true] {
        let lines: Vec<Option<(P, P)>> = std::iter::once(None).chain((0..4).flat_map(|b| (0..4).filter(move |s| *s != b).map(move |s| Some((b, s))))).collect();
        let nl = lines.len() as u64;
        out.push(fam(
            if service { "svc-long-after" } else { "lib-long-after" },
            "line of 4 peers with every single revocation (or none), made now, a while or years ago, queried at every two of 9 times from now to the end of time",
            nl * 3 * 81,
            move |i, cx| {
                let d = digits(i, &[nl, 3, 9, 9]);
                if d[3] < d[2] {
                    return Ok(());
                }
                const B: u64 = 1_700_000_000;
                const YEAR: u64 = 31_536_000;
                let ages = [B, B + 1, B + 86_400, B + 31 * 86_400, B + YEAR, B + 3 * YEAR, 1 << 33, 1 << 63, u64::MAX - 1];
                let at = B - [0, 1000, 5 * YEAR][d[1]];
                let mut ops = vec![Op::Root { p: 0, len: 6, owner: true }, Op::Trust(link(0, 0, u64::MAX, at - 2))];
                for k in 0..3 {
                    ops.push(Op::Trust(link(k, k + 1, u64::MAX, at - 1)));
                }
                if let Some((by, subj)) = lines[d[0]] {
                    ops.push(Op::Revoke { by, subj, at, mangle: Mangle::None });
                }
                fn go<S: Sys>(s: &mut S, ops: &[Op], times: [u64; 2], service: bool, probe: Probe, cx: &mut Ctx) -> R {
                    let mut w = World::at(B);
                    for op in ops {
                        cx.op();
                        w.apply(op, service);
                        s.apply(op, B);
                    }
                    cx.nontrivial(&(&w.g, times));
                    for t in times {
                        w.now = t;
                        observe(s, &mut w.g, &[0, 1, 2, 3], t, probe, cx)?;
                        cx.state(&w);
                    }
                    Ok(())
                }
                let times = [ages[d[2]], ages[d[3]]];
                let r = if service { incarnate(&Default::default(), |s| go(s, &ops, times, true, probe, cx)).map(|_| ()) } else { go(&mut Lib::new(), &ops, times, false, probe, cx) };
                r.map_err(|e| format!("{e}\n  {ops:?} queried at {times:?}"))
            },
        ));
    }
    // four peers
    if thorough {
        let n = 3u64.pow(12);
        out.push(fam(
            "lib-4-peers",
            "every assignment of {nothing, trust, revocation} to all 12 ordered pairs of 4 peers, root 0 self-signed; other peers without / with self-signed trusts",
            n * 2,
            move |i, cx| {
                let d = digits(i, &[n, 2]);
                let peers: Vec<P> = vec![0, 1, 2, 3];
                let mut g = G::new(peers.clone(), vec![(0, 5)]);
                g.t(0, 0);
                if d[1] == 1 {
                    g.t(1, 1).t(2, 2).t(3, 3);
                }
                for ((b, s), k) in pairs(&peers, false).into_iter().zip(digits(d[0] as u64, &[3; 12])) {
                    if let Some(r) = digit_rel(k) {
                        g.rels.push((b, s, r));
                    }
                }
                on_lib(&g, &peers, probe, false, cx)
            },
        ));
    }
    {
        // trusts present/absent on all 12 pairs, at most one (two) of the pairs turned into a revocation
        let revs = subsets_upto(12, if thorough { 2 } else if probe == Probe::Scoped { 0 } else { 1 });
        let nr = revs.len() as u64;
        out.push(fam(
            "lib-4-peers-sparse-revocations",
            "every trust graph of 4 peers (12 pairs present or absent) with at most one (thorough: two; quick check of scoped queries: none) pairs revoked instead; roots {0} or {0,1}; self-signed trusts of roots only or of all",
            4096 * nr * 4,
            move |i, cx| {
                let d = digits(i, &[4096, nr, 2, 2]);
                let peers: Vec<P> = vec![0, 1, 2, 3];
                let mut g = G::new(peers.clone(), if d[2] == 0 { vec![(0, 4)] } else { vec![(0, 4), (1, 2)] });
                for p in &peers {
                    if d[3] == 1 || g.roots.iter().any(|r| r.0 == *p) {
                        g.t(*p, *p);
                    }
                }
                for (k, (b, s)) in pairs(&peers, false).into_iter().enumerate() {
                    if revs[d[1]].contains(&k) {
                        // only the half with the bit unset, the other half is the same graph
                        if d[0] >> k & 1 == 1 {
                            return Ok(());
                        }
                        g.r(b, s);
                    } else if d[0] >> k & 1 == 1 {
                        g.t(b, s);
                    }
                }
                on_lib(&g, &peers, probe, false, cx)
            },
        ));
    }
    // lines with one extra trust and up to two revocations anywhere
    {
        let max = if thorough { 8 } else { 6 };
        let mut cases: Vec<(usize, Vec<(P, P)>, Option<(P, P)>, u8)> = vec![];
        for n in 3..=max {
            let ps: Vec<(P, P)> = pairs(&(0..n as P).collect::<Vec<_>>(), false);
            let extra: Vec<Option<(P, P)>> = std::iter::once(None)
                .chain(ps.iter().filter(|(b, s)| b + 1 != *s).map(|p| Some(*p)))
                .collect();
            for sub in subsets_upto(ps.len(), 2) {
                for e in &extra {
                    if sub.len() == 2 && e.is_some() && n > if thorough { 6 } else { 4 } {
                        continue;
                    }
                    for selfs in 0..2 {
                        cases.push((n, sub.iter().map(|k| ps[*k]).collect(), *e, selfs));
                    }
                }
            }
        }
        out.push(fam(
            "lib-lines",
            "lines of 3..=6 (thorough 8) peers with at most one extra trust (skip or back edge) and at most two revocations between any ordered pairs; self-signed trust of the root only or of all",
            cases.len() as u64,
            move |i, cx| {
                let (n, revs, extra, selfs) = &cases[i as usize];
                let mut g = line(*n, 16, &if *selfs == 1 { (0..*n).collect::<Vec<_>>() } else { vec![] });
                if let Some((b, s)) = extra {
                    set(&mut g, *b, *s, tr());
                }
                for (b, s) in revs {
                    set(&mut g, *b, *s, rv());
                }
                let targets: Vec<P> = (0..*n as P).collect();
                on_lib(&g, &targets, probe, false, cx)
            },
        ));
    }
    // long lines
    {
        let mut cases: Vec<(usize, Option<(P, P)>, Option<usize>)> = vec![];
        for n in [7usize, 9, 12, 15, 16, 17, 18, 19, 24, 34, 66] {
            cases.push((n, None, None));
            for k in 1..n {
                cases.push((n, None, Some(k)));
            }
            for b in 0..n as P {
                for s in 0..n as P {
                    if b != s && (n <= 19 || b == 0 || s as usize == n - 1 || b + 1 == s) {
                        cases.push((n, Some((b, s)), None));
                    }
                }
            }
        }
        out.push(fam(
            "lib-long-lines",
            "lines of 7..=66 peers, with one revocation between any ordered pair (lines above 19: involving an end or neighbours), or one self-signed trust at any position; the last four peers and the middle queried",
            cases.len() as u64,
            move |i, cx| {
                let (n, rev, own) = &cases[i as usize];
                let mut g = line(*n, 16, &own.iter().copied().collect::<Vec<_>>());
                if let Some((b, s)) = rev {
                    set(&mut g, *b, *s, rv());
                }
                let n = *n as P;
                let mut t: Vec<P> = vec![0, n / 2, n - 4, n - 3, n - 2, n - 1];
                if let Some((b, s)) = rev {
                    t.extend([*b, *s]);
                }
                t.sort();
                t.dedup();
                on_lib(&g, &t, probe, i % 2 == 1, cx)
            },
        ));
    }
    // dense graphs
    {
        let max = if thorough { 7 } else { 6 };
        let mut cases: Vec<(usize, Option<(P, P)>, u8)> = vec![];
        for n in 3..=max {
            cases.push((n, None, 0));
            for p in pairs(&(0..n as P).collect::<Vec<_>>(), false) {
                for k in 0..2 {
                    cases.push((n, Some(p), k));
                }
            }
        }
        out.push(fam(
            "lib-dense",
            "complete graphs of 3..=6 (thorough 7) peers, with any one trust missing or any one pair revoked",
            cases.len() as u64,
            move |i, cx| {
                let (n, pair, k) = &cases[i as usize];
                let mut g = complete(*n, 16);
                if let Some((b, s)) = pair {
                    g.rels.retain(|x| (x.0, x.1) != (*b, *s));
                    if *k == 1 {
                        g.r(*b, *s);
                    }
                }
                let t: Vec<P> = if *n > 5 { vec![1, *n as P - 1] } else { (0..*n as P).collect() };
                on_lib(&g, &t, probe, false, cx)
            },
        ));
    }
    out.push(scale("lib-scale", probe, thorough, false));
    out.push(scale("svc-scale", probe, thorough, true));
    // mixed key types
    {
        let pool: [P; 6] = [0, SECP, RSA, 1, SECP + 1, RSA + 1];
        let mut cases = vec![];
        for i in 0..6u64 * 6 * 6 * 6 {
            let d = digits(i, &[6, 6, 6, 6]);
            let mut s = d.clone();
            s.sort();
            s.dedup();
            if s.len() == 4 {
                cases.push(d.iter().map(|k| pool[*k]).collect::<Vec<P>>());
            }
        }
        out.push(fam(
            "lib-key-types",
            "diamonds root->{a,b}->target and line, over every assignment of distinct ed25519, secp256k1 and RSA keys, with no or one revocation",
            cases.len() as u64 * 14,
            move |i, cx| {
                let p = &cases[(i / 14) as usize];
                let mut g = G::new(p.clone(), vec![(p[0], 6)]);
                g.t(p[0], p[0]).t(p[0], p[1]).t(p[0], p[2]).t(p[1], p[3]).t(p[2], p[3]).t(p[1], p[2]).t(p[3], p[3]);
                let k = i % 14;
                if k > 0 && k <= 12 {
                    let (b, s) = pairs(p, false)[k as usize - 1];
                    set(&mut g, b, s, rv());
                }
                on_lib(&g, p, probe, k == 13, cx)
            },
        ));
    }
    // service: three peers through the interface
    {
        let n = 3u64.pow(8);
        out.push(fam(
            "svc-3-peers",
            "service: every assignment of {nothing, trust, revocation} to the 8 ordered pairs of 3 peers besides the root's self-signed trust, built through the interface; roots {0} or {0,1}; insertion order forward (thorough: and reversed)",
            n * if thorough { 4 } else { 2 },
            move |i, cx| {
                let d = digits(i, &[n, 2, 2]);
                let peers: Vec<P> = vec![0, 1, 2];
                let mut g = G::new(peers.clone(), if d[1] == 0 { vec![(0, 5)] } else { vec![(0, 3), (1, 2)] });
                g.t(0, 0);
                for ((b, s), k) in pairs(&peers, true).into_iter().skip(1).zip(digits(d[0] as u64, &[3; 8])) {
                    if let Some(r) = digit_rel(k) {
                        g.rels.push((b, s, r));
                    }
                }
                on_svc(&g, &[0, 1, 2], probe, if d[2] == 1 { Order::Reversed } else { Order::Forward }, cx)
            },
        ));
    }
    // service: lines, dense graphs, key types
    {
        let mut cases: Vec<(usize, Option<(P, P)>, u8)> = vec![];
        for n in [3usize, 4, 5, 6, 8, 12, 16, 17] {
            cases.push((n, None, 0));
            for b in 0..n as P {
                for s in 0..n as P {
                    if b != s && (n < 8 || b == 0 || s as usize == n - 1 || b + 1 == s || b == s + 1) {
                        cases.push((n, Some((b, s)), 0));
                        if n <= 5 || (with_rev && n <= 6) {
                            cases.push((n, Some((b, s)), 1)); // dense
                        }
                    }
                }
            }
        }
        out.push(fam(
            "svc-lines-dense",
            "service: lines of 3..=17 peers and complete graphs of 3..=5 with one revocation between any ordered pair (long lines: ends and neighbours)",
            cases.len() as u64,
            move |i, cx| {
                let (n, pair, kind) = &cases[i as usize];
                let mut g = if *kind == 0 { line(*n, 16, &[]) } else { complete(*n, 16) };
                if let Some((b, s)) = pair {
                    // newer than the trust it replaces
                    g.rels.push((*b, *s, Rel::Revoked { at: 20 }));
                }
                let n = *n as P;
                let t: Vec<P> = if n > 8 { vec![1, n / 2, n - 2, n - 1] } else { (0..n).collect() };
                // the revocation comes last, so that all trusts are admitted
                on_svc(&g, &t, probe, Order::RevsLast, cx)
            },
        ));
    }
    {
        let pool: [P; 5] = [0, SECP, 2, SECP + 1, 1];
        let perms = permutations(5);
        out.push(fam(
            "svc-key-types",
            "service: diamond over every arrangement of ed25519 and secp256k1 keys, no or one revocation",
            perms.len() as u64 * 13,
            move |i, cx| {
                let p: Vec<P> = perms[(i / 13) as usize].iter().take(4).map(|k| pool[*k]).collect();
                let mut g = G::new(p.clone(), vec![(p[0], 6)]);
                g.t(p[0], p[0]).t(p[0], p[1]).t(p[0], p[2]).t(p[1], p[3]).t(p[2], p[3]).t(p[1], p[2]).t(p[3], p[3]);
                if i % 13 > 0 {
                    let (b, s) = pairs(&p, false)[(i % 13) as usize - 1];
                    g.rels.push((b, s, Rel::Revoked { at: 20 }));
                }
                on_svc(&g, &p, probe, Order::RevsLast, cx)
            },
        ));
    }
    out
}

/// Wide and numerous: stars, many roots, many revocations, many chains.
fn scale(name: &str, probe: Probe, thorough: bool, service: bool) -> Box<dyn Family> {
    let mut cases: Vec<(u8, usize, usize)> = vec![];
    for n in SCALE {
        if service && n > if thorough { 257 } else { 129 } {
            continue;
        }
        for k in 0..6u8 {
            cases.push((k, n, 0));
        }
    }
    if !service {
        cases.push((5, 310, 0));
    }
    let layers: &[(usize, usize)] = if service { &[(2, 4), (3, 3), (4, 3), (2, 7)] } else { &[(2, 4), (2, 6), (2, 8), (3, 3), (3, 5), (4, 4), (2, 10), (6, 4), (2, 13)] };
    for (w, d) in layers {
        cases.push((10, *w, *d));
    }
    if thorough {
        cases.push((10, 2, 12));
        cases.push((10, 3, 7));
        cases.push((10, 9, 4));
    }
    fam(
        name,
        "star through n intermediate peers, n roots, n revocations of one peer, n trusts issued by one peer, n self-signed branches, a line of n (n up to 257, line 310; service quick 129), layered graphs with up to 8192 chains to one peer",
        cases.len() as u64,
        move |i, cx| {
            let (k, n, d) = cases[i as usize];
            let (g, targets) = match k {
                // star: 0 -> 1..n -> n+1
                0 => {
                    let t = n as P + 1;
                    let mut g = G::new((0..=t).collect(), vec![(0, 9)]);
                    g.t(0, 0);
                    for i in 1..=n as P {
                        g.t(0, i).t(i, t);
                    }
                    (g, vec![t, 1, n as P])
                }
                // n roots, all trusting the target
                1 => {
                    let t = n as P;
                    let mut g = G::new((0..=t).collect(), (0..n as P).map(|p| (p, if p == t - 1 { 16 } else { (p as u32 * 7) % 16 })).collect());
                    for i in 0..n as P {
                        g.t(i, i).t(i, t);
                    }
                    (g, vec![t, 0, t - 1])
                }
                // n peers revoke the target of one short chain; the last revoker is part of a second chain
                2 => {
                    let t = n as P + 3;
                    let last = n as P + 2;
                    let mut g = G::new((0..=t).collect(), vec![(0, 9)]);
                    g.t(0, 0).t(0, 1).t(1, t).t(0, last).t(last, 1);
                    for i in 2..n as P + 1 {
                        g.r(i, t);
                    }
                    g.r(last, t);
                    (g, vec![t, 1, last])
                }
                // one peer issues n trusts
                3 => {
                    let mut g = G::new((0..=n as P + 1).collect(), vec![(0, 9)]);
                    g.t(0, 0).t(0, 1);
                    for i in 2..n as P + 2 {
                        g.t(1, i);
                    }
                    (g, vec![2, n as P + 1, n as P / 2 + 2])
                }
                // star whose branches are self-signed, one branch revoked by the root
                4 => {
                    let t = n as P + 1;
                    let mut g = G::new((0..=t).collect(), vec![(0, 9)]);
                    g.t(0, 0);
                    for i in 1..=n as P {
                        g.t(0, i).t(i, i).t(i, t);
                    }
                    g.rels.push((0, 1, Rel::Revoked { at: 20 }));
                    (g, vec![t, 1, n as P])
                }
                // one long line
                5 => (line(n + 1, 16, &[]), vec![n as P, n as P / 2, 1]),
                _ => {
                    let (g, t) = layered(n, d, 16);
                    (g, vec![t])
                }
            };
            if service {
                on_svc(&G { peers: vec![0, 1], ..g }, &targets, probe, Order::RevsLast, cx)
            } else {
                let mut g = g;
                // later statements replace earlier ones
                let m = g.model();
                g.rels = m.rel.iter().map(|((b, s), r)| (*b, *s, r.clone())).collect();
                on_lib(&g, &targets, probe, false, cx)
            }
        },
    )
}
