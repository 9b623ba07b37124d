//! Crashes, restarts and storage failures (C21, C22), records between services (C24), noise (C25).
use super::crypto::inlined;
use super::inputs::answers;
use crate::common::*;
use crate::hist::{self, rev, root, t};
use crate::keys::*;
use crate::model::*;
use crate::sys::*;
use serde_json::{json, Value};
use trust_graph::{Revocation, Trust};

fn imp(chain: Vec<Link>, via: Via) -> Op {
    Op::Import { chain, via }
}
fn chain3() -> Vec<Link> {
    vec![link(0, 0, 1000, 10), link(0, 1, 1000, 25), link(1, 2, 1000, 25)]
}
/// Changes of every kind, single- and multi-step.
fn changes() -> Vec<Op> {
    let mut forged = chain3();
    forged[2].mangle = Mangle::SigBit;
    vec![
        t(0, 1, 1000, 10),
        t(1, 2, 1000, 10),
        rev(0, 1, 15),
        rev(1, 2, 15),
        t(0, 1, 1000, 20),
        t(0, 1, 150, 22),
        imp(chain3(), Via::Text),
        imp(vec![link(0, 0, 1000, 30), link(0, 2, 900, 10), link(2, 2, 900, 10), link(2, 1, 900, 10)], Via::Record),
        imp(forged, Via::Record),
        root(1, 2),
        root(0, 1),
        rev(0, 2, 30),
        Op::Time(150),
        Op::Time(1000),
    ]
}
const PEERS: [P; 3] = [0, 1, 2];
fn start() -> Vec<Op> {
    vec![root(0, 3), t(0, 0, 1000, 10)]
}
/// Models the graph may be in if `op` was interrupted: before, after, and for imports every prefix.
fn interrupted(w: &World, op: &Op) -> Vec<World> {
    let mut out = vec![w.clone()];
    if let Op::Import { chain, via } = op {
        for k in 1..chain.len() {
            let mut x = w.clone();
            x.apply(&Op::Import { chain: chain[..k].to_vec(), via: *via }, true);
            out.push(x);
        }
    }
    let mut x = w.clone();
    x.apply(op, true);
    out.push(x);
    let mut seen: Vec<World> = vec![];
    for x in out {
        if !seen.contains(&x) {
            seen.push(x);
        }
    }
    seen
}
/// All answers agree with one of the candidates; which one.
fn one_of<S: Sys>(s: &mut S, cands: &[World], now: u64, cx: &mut Ctx) -> Result<usize, String> {
    let mut why = String::new();
    for (k, c) in cands.iter().enumerate() {
        let mut g = c.g.clone();
        match observe(s, &mut g, &PEERS, now, Probe::All, cx) {
            Ok(()) => return Ok(k),
            Err(e) => {
                if k + 1 == cands.len() || why.is_empty() {
                    why = e;
                }
            }
        }
    }
    Err(why)
}
fn replay_setup<S: Sys>(s: &mut S, w: &mut World, ops: &[Op], service: bool, cx: &mut Ctx) -> R {
    for op in ops {
        step(s, w, op, service, cx)?;
        if matches!(op, Op::Time(_)) {
            let now = w.now;
            observe(s, &mut w.g, &PEERS, now, Probe::All, cx)?;
        }
    }
    Ok(())
}
/// Time never runs backwards, and no revocation arrives that is older than a trust that has just
/// expired (whether such a revocation counts depends on when the trust is collected, see C25).
fn sensible(ops: &[Op]) -> bool {
    let mut now = 100;
    for o in ops {
        if let Op::Time(x) = o {
            if *x <= now {
                return false;
            }
            now = *x;
        }
    }
    true
}
fn history(al: &[Op], depth: usize, i: u64) -> Vec<Op> {
    digits(i, &vec![al.len() as u64; depth]).into_iter().map(|k| al[k].clone()).collect()
}

// ---------------------------------------------------------------- C21

fn durable() -> R {
    let off = |name: &str, bad: &[&str]| -> R {
        match db::pragma(name) {
            Some(v) if bad.iter().any(|b| v.trim_start_matches(['I', 'T']).eq_ignore_ascii_case(b)) => Err(format!("acknowledged changes are not durable: PRAGMA {name} is {v}")),
            _ => Ok(()),
        }
    };
    off("synchronous", &["0"])?;
    off("journal_mode", &["off"])
}
fn crash_case(ops: &[Op], cx: &mut Ctx) -> R {
    let (last, before) = ops.split_last().unwrap();
    let mut w = World::at(100);
    let (points, images) = incarnate(&Default::default(), |s| {
        replay_setup(s, &mut w, &start(), true, cx)?;
        replay_setup(s, &mut w, before, true, cx)?;
        let mut after = w.clone();
        db::record_crash_points(true);
        step(s, &mut after, last, true, cx)?;
        let points = db::take_crash_points();
        db::record_crash_points(false);
        durable()?;
        Ok(points)
    })?;
    let cands = interrupted(&w, last);
    let now = if let Op::Time(x) = last { *x } else { w.now };
    let mut points: Vec<(Images, bool)> = points.into_iter().map(|p| (p, false)).collect();
    points.push((images, true)); // after the acknowledgement only the complete effect is allowed
    for (k, (im, acked)) in points.iter().enumerate() {
        let cands = if *acked { &cands[cands.len() - 1..] } else { &cands[..] };
        let what = if *acked { "restart after the acknowledged operation".to_string() } else { format!("crash after database write {k} of the operation") };
        cx.state(&(im, now));
        incarnate(im, |s| {
            let at = one_of(s, cands, now, cx).map_err(|e| format!("{what}: {e}"))?;
            // repeating the interrupted operation completes it
            let mut x = cands[at].clone();
            x.now = now;
            x.g.gc(now);
            if !matches!(last, Op::Time(_)) {
                step(s, &mut x, last, true, cx).map_err(|e| format!("{what}, then repeated: {e}"))?;
            }
            observe(s, &mut x.g, &PEERS, now, Probe::All, cx).map_err(|e| format!("{what}, then repeated: {e}"))
        })?;
    }
    cx.nontrivial(&(&w, h64(last)));
    Ok(())
}
/// Run with a start-up whose crash points are recorded.
fn boot_points(images: &Images) -> Result<Vec<Images>, String> {
    std::thread::scope(|s| {
        s.spawn(|| {
            guarded(|| {
                db::load(images);
                db::record_crash_points(true);
                svc::main();
                let mut v = db::take_crash_points();
                v.push(db::committed());
                v
            })
        })
        .join()
        .unwrap_or_else(|_| Err("crash during start-up".into()))
    })
}
pub fn crashes(th: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let depth = if th { 4 } else { 3 };
    for d in 1..=depth {
        let al = changes();
        let total = (al.len() as u64).pow(d as u32);
        out.push(fam(
            &format!("crash-points-{d}"),
            &format!("every history of {d} operations after the set-up, a crash after every database write of the last one and a restart after it; then all answers, the operation repeated, and all answers again; alphabet {al:?}"),
            total,
            move |i, cx| {
                let ops = history(&al, d, i);
                if !sensible(&ops) {
                    return Ok(());
                }
                crash_case(&ops, cx).map_err(|e| format!("{e}\n  history {ops:?}"))?;
                cx.sample(|| format!("{ops:?}"));
                Ok(())
            },
        ));
    }
    // a restart at any subset of positions
    let depth = if th { 4 } else { 3 };
    let al = changes();
    let total = (al.len() as u64).pow(depth) * (1 << depth);
    out.push(fam(
        "restarts",
        &format!("every history of {depth} operations with a restart before any subset of them, all answers judged at the end"),
        total,
        move |i, cx| {
            let mask = i % (1 << depth);
            let ops = history(&al, depth as usize, i >> depth);
            if !sensible(&ops) {
                return Ok(());
            }
            let mut w = World::at(100);
            let mut im = Images::default();
            let mut segments: Vec<Vec<Op>> = vec![start()];
            for (k, o) in ops.iter().enumerate() {
                if mask >> k & 1 == 1 {
                    segments.push(vec![]);
                }
                segments.last_mut().unwrap().push(o.clone());
            }
            let n = segments.len();
            for (k, seg) in segments.iter().enumerate() {
                let r = incarnate(&im, |s| {
                    replay_setup(s, &mut w, seg, true, cx)?;
                    if k + 1 == n {
                        let now = w.now;
                        observe(s, &mut w.g, &PEERS, now, Probe::All, cx)?;
                    }
                    durable()
                })
                .map_err(|e| format!("{e}\n  runs of the service {segments:?}"))?;
                im = r.1;
            }
            cx.state(&w);
            cx.nontrivial(&(&w, mask));
            Ok(())
        },
    ));
    // crashes during start-up, on an empty and on a filled database, then again during the next start-up
    let al = changes();
    let n = al.len() as u64;
    out.push(fam(
        "start-up",
        "a crash after every database write of the start-up routine on a new database and on the database of every history of up to two operations, twice in a row; then all answers and further operations",
        n * n + n + 2,
        move |i, cx| {
            let ops = if i == 0 {
                None
            } else if i == 1 {
                Some(vec![])
            } else if i < 2 + n {
                Some(history(&al, 1, i - 2))
            } else {
                Some(history(&al, 2, i - 2 - n))
            };
            if !sensible(ops.as_deref().unwrap_or(&[])) {
                return Ok(());
            }
            let mut w = World::at(100);
            let mut im = Images::default();
            if let Some(ops) = &ops {
                im = incarnate(&im, |s| {
                    replay_setup(s, &mut w, &start(), true, cx)?;
                    replay_setup(s, &mut w, ops, true, cx)
                })?
                .1;
            }
            let first = boot_points(&im)?;
            for (a, p) in first.iter().enumerate() {
                for (b, q) in boot_points(p)?.iter().enumerate() {
                    cx.state(&q);
                    let mut x = w.clone();
                    incarnate(q, |s| {
                        let now = x.now;
                        observe(s, &mut x.g, &PEERS, now, Probe::All, cx)?;
                        replay_setup(s, &mut x, &[root(2, 4), t(2, 2, 5000, 100), t(2, 0, 5000, 100)], true, cx)?;
                        observe(s, &mut x.g, &PEERS, now, Probe::All, cx)
                    })
                    .map_err(|e| format!("crash after write {a} of one start-up and {b} of the next: {e}\n  history {ops:?}"))?;
                    cx.nontrivial(&(&w, a, b));
                }
            }
            Ok(())
        },
    ));
    // explicit states with a restart before every operation
    out.push(hist::bfs(
        "restart-states",
        hist::Space { start: 100, setup: start(), alphabet: changes(), peers: PEERS.to_vec(), probe: Probe::All },
        if th { 8 } else { 4 },
        if th { 60_000 } else { 3_000 },
    ));
    out
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug)]
enum Act {
    Do(Op),
    Certs(P),
    Weight(P),
    CertsFrom(P, P),
    WeightFrom(P, P),
    Revs(P),
    Host(P, Option<P>),
}
fn acts() -> Vec<Act> {
    let mut v: Vec<Act> = changes().into_iter().filter(|o| !matches!(o, Op::Time(_))).map(Act::Do).collect();
    v.extend([
        Act::Do(t(2, 2, 1000, 10)),
        Act::Do(t(5, 2, 1000, 10)),
        Act::Certs(2),
        Act::Certs(1),
        Act::Certs(0),
        Act::Weight(0),
        Act::Weight(2),
        Act::Weight(1),
        Act::CertsFrom(2, 1),
        Act::WeightFrom(2, 1),
        Act::WeightFrom(2, 0),
        Act::Revs(1),
        Act::Revs(2),
        Act::Host(2, None),
        Act::Host(2, Some(1)),
    ]);
    v
}
/// The answer as text; Err is a reported error.
fn perform<S: Sys>(s: &mut S, a: &Act, now: u64) -> Result<String, String> {
    Ok(match a {
        Act::Do(op) => match s.apply(op, now) {
            Out::Err => return Err("refused".into()),
            o => format!("{o:?}"),
        },
        Act::Certs(p) => format!("{:?}", s.certs(*p, now)?),
        Act::Weight(p) => format!("{:?}", s.weight(*p, now)?),
        Act::CertsFrom(p, i) => format!("{:?}", s.certs_from(*p, *i, now)?),
        Act::WeightFrom(p, i) => format!("{:?}", s.weight_from(*p, *i, now)?),
        Act::Revs(p) => format!("{:?}", s.revocations(*p)?),
        Act::Host(p, i) => match s.host(*p, *i, now) {
            None => "none".into(),
            Some(r) => format!("{:?}", r?),
        },
    })
}
trait Faulty: Sys {
    fn arm(&mut self, at: u64, len: u64, code: i32);
    fn disarm(&mut self) -> u64;
}
impl Faulty for Lib {
    fn arm(&mut self, at: u64, len: u64, _code: i32) {
        let mut m = self.mem.0.borrow_mut();
        m.fail_at = Some(m.calls + at);
        m.fail_len = len;
        m.fired = 0;
    }
    fn disarm(&mut self) -> u64 {
        let mut m = self.mem.0.borrow_mut();
        m.fail_at = None;
        m.fired
    }
}
impl Faulty for Svc {
    fn arm(&mut self, at: u64, len: u64, code: i32) {
        db::set_fault(Some(Fault { at, len, code }));
    }
    fn disarm(&mut self) -> u64 {
        let n = db::fired();
        db::set_fault(None);
        n
    }
}
/// One failure at call `at` of the action. Ok(false) if the action makes fewer calls.
fn fault_once<S: Faulty>(s: &mut S, before: &[Op], act: &Act, at: u64, len: u64, code: i32, service: bool, cx: &mut Ctx) -> Result<bool, String> {
    let mut w = World::at(100);
    replay_setup(s, &mut w, &start(), service, cx)?;
    replay_setup(s, &mut w, before, service, cx)?;
    let now = w.now;
    s.arm(at, len, code);
    cx.op();
    let got = guarded(|| perform(s, act, now)).map_err(|e| {
        s.disarm();
        format!("storage failure makes the call crash: {e}")
    })?;
    let fired = s.disarm();
    if fired == 0 {
        return Ok(false);
    }
    cx.outcome(&(h64(&format!("{act:?}")), got.is_err()));
    if let Ok(v) = got {
        return Err(format!("the call answers {v} although storage call {at} failed"));
    }
    // the graph is as before or as after
    let cands = match act {
        Act::Do(op) => interrupted(&w, op),
        _ => vec![w.clone()],
    };
    let at_state = one_of(s, &cands, now, cx).map_err(|e| format!("after the failure: {e}"))?;
    // repeating gives the undisturbed result (the observation has collected expired trusts, see C25)
    let mut after = cands[at_state].clone();
    after.g.gc(now);
    let want = match act {
        Act::Do(op) => Some(after.apply(op, service)),
        _ => None,
    };
    cx.op();
    let again = perform(s, act, now);
    match (act, want) {
        (Act::Do(_), Some(Out::Err)) => {
            if again.is_ok() {
                return Err(format!("repeated after the failure: {again:?}, expected a refusal"));
            }
        }
        (Act::Do(_), Some(o)) => {
            if again != Ok(format!("{o:?}")) {
                return Err(format!("repeated after the failure: {again:?}, expected {o:?} (state {at_state})"));
            }
        }
        _ => {
            let fresh = perform(s, act, now);
            if again.is_err() || again != fresh {
                return Err(format!("repeated after the failure: {again:?} then {fresh:?}"));
            }
        }
    }
    observe(s, &mut after.g, &PEERS, now, Probe::All, cx).map_err(|e| format!("after repeating: {e}"))?;
    cx.state(&(&w, h64(&format!("{act:?}")), at));
    cx.nontrivial(&(&w, h64(&format!("{act:?}")), at, len, code));
    Ok(true)
}
pub fn faults(th: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let al = || -> Vec<Op> { changes().into_iter().filter(|o| !matches!(o, Op::Time(1000))).collect() };
    let max = if th { 3 } else { 2 };
    let a = al();
    let n = a.len() as u64;
    let sizes: Vec<u64> = (0..=max).map(|d| n.pow(d)).collect();
    let before_of = move |a: &[Op], i: u64| -> Vec<Op> {
        let (mut i, mut d) = (i, 0usize);
        while i >= sizes[d] {
            i -= sizes[d];
            d += 1;
        }
        history(a, d, i)
    };
    let states: u64 = (0..=max).map(|d| n.pow(d)).sum();
    let bo = before_of.clone();
    let na = acts().len() as u64;
    out.push(fam(
        "library-faults",
        &format!("library: in the state after every history of up to {max} operations, every operation and query with a failure of every single storage call, and of every call from there on; then all answers, and the call repeated"),
        states * na,
        move |i, cx| {
            let before = bo(&a, i / na);
            let act = acts()[(i % na) as usize].clone();
            if !sensible(&before) || matches!(act, Act::Host(..)) {
                return Ok(());
            }
            for len in [1, u64::MAX / 4] {
                for at in 0.. {
                    let mut s = Lib::new();
                    if !fault_once(&mut s, &before, &act, at, len, 0, false, cx).map_err(|e| format!("{e}\n  library, history {before:?}, then {act:?} with storage call {at} failing"))? {
                        break;
                    }
                }
            }
            cx.sample(|| format!("{before:?} then {act:?}"));
            Ok(())
        },
    ));
    // the service: every database call
    let a = al();
    let max = if th { 2 } else { 1 };
    let states: u64 = (0..=max).map(|d| n.pow(d)).sum();
    let codes: Vec<i32> = if th { vec![10, 5, 13, 1] } else { vec![10] };
    let a2 = al();
    let bo2 = before_of.clone();
    let many: Vec<i32> = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 25, 26, 517, 261, 262, 2570, 1811];
    let nc = many.len() as u64;
    let states2: u64 = if th { 1 + n } else { 1 };
    out.push(fam(
        "service-fault-codes",
        &format!("service: every operation and query, in the initial state{}, with a failure of every single database call with every SQLite result code {many:?}", if th { " and after every operation" } else { "" }),
        states2 * na * nc,
        move |i, cx| {
            let d = digits(i, &[nc, na, states2]);
            let before = bo2(&a2, d[2] as u64);
            let act = acts()[d[1]].clone();
            if !sensible(&before) {
                return Ok(());
            }
            for at in 0.. {
                let r = incarnate(&Default::default(), |s| fault_once(s, &before, &act, at, 1, many[d[0]], true, cx))
                    .map_err(|e| format!("{e}\n  service, history {before:?}, then {act:?} with database call {at} failing with code {}", many[d[0]]))?;
                if !r.0 {
                    break;
                }
            }
            Ok(())
        },
    ));
    out.push(fam(
        "service-faults",
        &format!("service: in the state after every history of up to {max} operations, every operation and query with a failure of every single database call (prepare, bind, step), and of every call from there on, for SQLite result codes {codes:?}; then all answers, and the call repeated"),
        states * na,
        move |i, cx| {
            let before = before_of(&a, i / na);
            let act = acts()[(i % na) as usize].clone();
            if !sensible(&before) {
                return Ok(());
            }
            for &code in &codes {
                for len in [1, u64::MAX / 4] {
                    for at in 0.. {
                        let r = incarnate(&Default::default(), |s| fault_once(s, &before, &act, at, len, code, true, cx))
                            .map_err(|e| format!("{e}\n  service, history {before:?}, then {act:?} with database call {at} failing with code {code}"))?;
                        if !r.0 {
                            break;
                        }
                    }
                }
            }
            cx.sample(|| format!("{before:?} then {act:?}"));
            Ok(())
        },
    ));
    out
}

// ---------------------------------------------------------------- C24

fn flow_trust(s: &mut Svc, by: P, subj: P, exp: u64, iat: u64, now: u64, cx: &mut Ctx) -> R {
    let name = format!("trust {by}->{subj} exp={exp} iat={iat} at {now}");
    cx.ops(3);
    let b = s.call("get_trust_bytes", json!([peer(subj).id, exp, iat]));
    consistent(&b)?;
    let bytes: Vec<u8> = serde_json::from_value(b["result"].clone()).map_err(|e| format!("{name}: bytes to sign missing: {e} {b}"))?;
    let want = Trust::signature_bytes(&peer(subj).pk, secs(exp), secs(iat));
    if bytes != want {
        return Err(format!("{name}: the bytes to sign differ from the library's"));
    }
    let sig = peer(by).kp.sign(&bytes).map_err(|e| e.to_string())?;
    let r = s.call("issue_trust", json!([peer(subj).id, exp, iat, sig.get_raw_signature().bytes]));
    consistent(&r)?;
    let rec = r["trust"].clone();
    let lib = dto_trust(&trust(by, subj, exp, iat));
    if rec != lib {
        let mut relabelled = lib.clone();
        relabelled["sig_type"] = rec["sig_type"].clone();
        let m = format!("{name}: the record built by the service is {rec}, the library's is {lib}");
        if rec == relabelled && peer(by).pk.get_key_format() != peer(subj).pk.get_key_format() {
            cx.known_or("C24-issue_trust-label", m)?;
        } else {
            return Err(m);
        }
    }
    for &p in &inlined() {
        for time in [now, exp, exp.saturating_add(1)] {
            cx.op();
            let v = s.call("verify_trust", json!([rec, peer(p).id, time]));
            consistent(&v)?;
            let want = p == by && time <= exp;
            if is_success(&v) != want {
                return Err(format!("{name}: verification of the record for issuer {p} at {time} answers {v}"));
            }
        }
    }
    cx.ops(2);
    let id = &peer(by).id;
    let cp = params("set_root", 2, HOST);
    raw_call("set_root", &json!([id, 4]), cp);
    let v = s.call("add_trust", json!([rec, id, now]));
    consistent(&v)?;
    let (ok, w) = if iat > now || exp < now { (false, 0) } else { (true, if by == subj { 16 } else { 8 }) };
    if is_success(&v) != ok || v["weight"].as_u64().unwrap_or(0) != w {
        return Err(format!("{name}: adding the record answers {v}, expected success={ok} weight={w}"));
    }
    if ok && exp > now {
        cx.nontrivial(&name);
        // it comes back unchanged
        let own = dto_trust(&trust(by, by, u64::MAX, 0));
        s.call("add_trust", json!([own, id, now]));
        let v = s.call("get_all_certs", json!([peer(subj).id, now]));
        if by != subj {
            let got = v["certificates"].as_array().map(|c| c.len()).unwrap_or(0);
            if got != 1 || v["certificates"][0]["chain"][0] != own || v["certificates"][0]["chain"][1] != rec {
                return Err(format!("{name}: certificates after adding the record are {v}"));
            }
        }
    }
    Ok(())
}
fn flow_rev(s: &mut Svc, by: P, subj: P, at: u64, now: u64, cx: &mut Ctx) -> R {
    let name = format!("revocation {by}->{subj} at {at}, time {now}");
    cx.ops(4);
    let b = s.call("get_revocation_bytes", json!([peer(subj).id, at]));
    consistent(&b)?;
    let bytes: Vec<u8> = serde_json::from_value(b["result"].clone()).map_err(|e| format!("{name}: bytes to sign missing: {e} {b}"))?;
    if bytes != Revocation::signature_bytes(&peer(subj).pk, secs(at)) {
        return Err(format!("{name}: the bytes to sign differ from the library's"));
    }
    let sig = peer(by).kp.sign(&bytes).map_err(|e| e.to_string())?;
    let r = s.call("issue_revocation", json!([peer(by).id, peer(subj).id, at, sig.get_raw_signature().bytes]));
    consistent(&r)?;
    let rec = r["revocation"].clone();
    let lib = dto_rev(&revocation(by, subj, at));
    if rec != lib {
        return Err(format!("{name}: the record built by the service is {rec}, the library's is {lib}"));
    }
    let v = s.call("revoke", json!([rec, now]));
    consistent(&v)?;
    if is_success(&v) != (at <= now) {
        return Err(format!("{name}: revoking with the record answers {v}"));
    }
    let e = s.call("export_revocations", json!([peer(subj).id]));
    let want = if at <= now { json!([rec]) } else { json!([]) };
    if e["revocations"] != want {
        return Err(format!("{name}: exported revocations are {e}, expected {want}"));
    }
    if at <= now {
        cx.nontrivial(&name);
    }
    Ok(())
}
fn all_certs(s: &Svc, peers: &[P], now: u64) -> Vec<Value> {
    let mut v = vec![];
    for &p in peers {
        v.extend(s.call("get_all_certs", json!([peer(p).id, now]))["certificates"].as_array().cloned().unwrap_or_default());
    }
    v
}
fn text_of(rec: &Value) -> String {
    // certificate text from the record alone
    let mut out = String::from("11\n1111\n");
    let mut parts = vec![];
    for t in rec["chain"].as_array().unwrap() {
        let p = by_id(t["issued_for"].as_str().unwrap()).unwrap();
        let f = match t["sig_type"].as_str().unwrap() {
            "ed25519" => 0u8,
            "rsa" => 1,
            _ => 2,
        };
        let mut sig = vec![f];
        sig.extend(bs58::decode(t["signature"].as_str().unwrap()).into_vec().unwrap());
        parts.push(format!(
            "{}\n{}\n{}\n{}",
            bs58::encode(&peer(p).enc).into_string(),
            bs58::encode(sig).into_string(),
            t["expires_at"],
            t["issued_at"]
        ));
    }
    out.push_str(&parts.join("\n"));
    out
}
pub fn records(th: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let ks = inlined();
    let n = ks.len() as u64;
    let dates: Vec<u64> = if th { super::crypto::stamps(1) } else { super::crypto::stamps(5) };
    let nd = dates.len() as u64;
    let (k1, d1) = (ks.clone(), dates.clone());
    out.push(fam(
        "trust-records",
        &format!("every issuer and subject of {n} keys of both types a peer id carries, every pair of {nd} boundary dates: bytes to sign, signing, record, verification for every issuer at boundary times, adding, and the certificate that comes back"),
        n * n * nd,
        move |i, cx| {
            let d = digits(i, &[n, n, nd]);
            let (by, subj, exp) = (k1[d[0]], k1[d[1]], d1[d[2]]);
            for (j, &iat) in d1.iter().enumerate() {
                if !th && (j + d[2]) % 4 != 0 && iat != exp {
                    continue;
                }
                let now = iat.max(100);
                incarnate(&Default::default(), |s| flow_trust(s, by, subj, exp, iat, now, cx))?;
            }
            cx.sample(|| format!("{by}->{subj} exp={exp}"));
            Ok(())
        },
    ));
    let (k2, d2) = (ks.clone(), dates);
    out.push(fam(
        "revocation-records",
        &format!("every revoker and subject of {n} keys, every one of {nd} boundary dates and times around it: bytes to sign, signing, record, revoking, and the exported record"),
        n * n * nd,
        move |i, cx| {
            let d = digits(i, &[n, n, nd]);
            let (by, subj, at) = (k2[d[0]], k2[d[1]], d2[d[2]]);
            for now in [at, at.saturating_sub(1), at.saturating_add(1), 100] {
                incarnate(&Default::default(), |s| flow_rev(s, by, subj, at, now, cx))?;
            }
            Ok(())
        },
    ));
    // states exported record by record into another service
    let s0 = SECP;
    let al: Vec<Op> = vec![
        t(0, 1, 1000, 10),
        t(1, 2, 1000, 10),
        t(0, 2, 900, 12),
        t(0, s0, 1000, 10),
        t(s0, 1, 1000, 10),
        t(2, s0, 1000, 10),
        t(1, 1, 1000, 11),
        t(s0, s0, 1000, 11),
        rev(0, 1, 15),
        rev(1, 2, 15),
        rev(s0, 1, 15),
        rev(2, 0, 15),
        root(1, 16),
        t(1, 2, i64::MAX as u64 + 5, 20),
    ];
    let depth: u32 = if th { 5 } else { 4 };
    let na = al.len() as u64;
    out.push(fam(
        "exported-states",
        &format!("every history of {depth} operations: all certificates and revocations the service returns, imported into another service as records (or as text), give the same answers there; alphabet {al:?}"),
        na.pow(depth),
        move |i, cx| {
            let ops = history(&al, depth as usize, i);
            // histories with repeated operations are covered by shorter ones
            for k in 1..ops.len() {
                if ops[..k].contains(&ops[k]) {
                    return Ok(());
                }
            }
            let peers = [0, 1, 2, SECP];
            let now = 100;
            let mut w = World::at(now);
            let ((certs, revs, want), _) = incarnate(&Default::default(), |s| {
                for op in [root(0, 16), t(0, 0, 1000, 10)].iter().chain(&ops) {
                    step(s, &mut w, op, true, cx)?;
                }
                let mut revs = vec![];
                for p in peers {
                    revs.extend(s.call("export_revocations", json!([peer(p).id]))["revocations"].as_array().cloned().unwrap_or_default());
                    let (mut got, mut want) = (s.revocations(p)?, w.g.revocations(p));
                    got.sort();
                    want.sort();
                    if got != want {
                        return Err(format!("exported revocations of {p} are {got:?}, in force are {want:?}\n  history {ops:?}"));
                    }
                }
                Ok((all_certs(s, &peers, now), revs, answers(s, &peers, now, cx)))
            })?;
            cx.state(&w);
            if !certs.is_empty() {
                cx.nontrivial(&w);
            }
            let text = i % 2 == 1;
            incarnate(&Default::default(), |s| {
                for (p, len) in &w.g.roots {
                    s.apply(&root(*p, *len), now);
                }
                for c in &certs {
                    cx.op();
                    let v = if text { s.call("insert_cert_raw", json!([text_of(c), now])) } else { s.call("insert_cert", json!([c, now])) };
                    if !is_success(&v) {
                        return Err(format!("a returned certificate is not accepted by another service: {v} {c}"));
                    }
                }
                for r in &revs {
                    cx.op();
                    let v = s.call("revoke", json!([r, now]));
                    if !is_success(&v) {
                        return Err(format!("an exported revocation is not accepted by another service: {v} {r}"));
                    }
                }
                let got = answers(s, &peers, now, cx);
                if let Some(k) = (0..got.len()).find(|k| got[*k] != want[*k]) {
                    return Err(format!("after importing everything returned, another service answers {} instead of {}", got[k], want[k]));
                }
                Ok(())
            })
            .map_err(|e| format!("{e}\n  history {ops:?}"))?;
            cx.sample(|| format!("{ops:?}"));
            Ok(())
        },
    ));
    out
}

// ---------------------------------------------------------------- C25

/// Calls that must not change anything. `(what, call)`
type Noise = (&'static str, fn(&Svc, u64));
fn q(s: &Svc, f: &str, args: Value) {
    s.call(f, args);
}
fn foreign(s: &Svc, f: &str, args: Value) {
    let n = args.as_array().unwrap().len();
    let mut cp = params(f, n, &s.host);
    if let Some(i) = time_arg(f) {
        cp.tetraplets[i] = vec![marine_rs_sdk::SecurityTetraplet::new("12D3Foreign", "peer", "timestamp_sec", "")];
    }
    cp.init_peer_id = "12D3Foreign".into();
    raw_call(f, &args, cp);
}
fn mangled(by: P, subj: P, exp: u64, iat: u64, m: Mangle) -> Value {
    dto_trust(&build(&Link { by, subj, exp, iat, mangle: m }))
}
const NOISE: &[Noise] = &[
    ("queries", |s, now| {
        for p in PEERS {
            q(s, "get_all_certs", json!([peer(p).id, now]));
            q(s, "get_weight", json!([peer(p).id, now]));
        }
    }),
    ("scoped queries", |s, now| {
        for p in PEERS {
            for i in PEERS {
                q(s, "get_all_certs_from", json!([peer(p).id, peer(i).id, now]));
                q(s, "get_weight_from", json!([peer(p).id, peer(i).id, now]));
            }
        }
    }),
    ("host queries and exports", |s, now| {
        for p in PEERS {
            let _ = s.host_certs(p, now);
            let _ = s.host_certs_from(p, 1, now);
            q(s, "export_revocations", json!([peer(p).id]));
        }
    }),
    ("verification and issuing", |s, now| {
        q(s, "verify_trust", json!([dto_trust(&trust(0, 2, 1000, 90)), peer(0).id, now]));
        q(s, "verify_trust", json!([dto_trust(&trust(0, 2, 1000, 90)), peer(1).id, now]));
        q(s, "get_trust_bytes", json!([peer(2).id, 1000, 90]));
        q(s, "issue_trust", json!([peer(2).id, 1000, 90, trust(0, 2, 1000, 90).signature.get_raw_signature().bytes]));
        q(s, "get_revocation_bytes", json!([peer(1).id, 90]));
        q(s, "issue_revocation", json!([peer(0).id, peer(1).id, 90, revocation(0, 1, 90).signature.get_raw_signature().bytes]));
    }),
    ("refused trusts", |s, now| {
        q(s, "add_trust", json!([mangled(0, 2, 1000, 90, Mangle::SigBit), peer(0).id, now]));
        q(s, "add_trust", json!([mangled(0, 2, 1000, 90, Mangle::Signer(1)), peer(0).id, now]));
        q(s, "add_trust", json!([mangled(0, 2, 1000, 90, Mangle::Exp(2000)), peer(0).id, now]));
        q(s, "add_trust", json!([mangled(0, 2, 1000, 90, Mangle::Subject(1)), peer(0).id, now]));
        q(s, "add_trust", json!([dto_trust(&trust(0, 2, 5000, now + 1)), peer(0).id, now]));
        q(s, "add_trust", json!([dto_trust(&trust(0, 2, now - 1, 90)), peer(0).id, now]));
        q(s, "add_trust", json!([dto_trust(&trust(0, 2, 1000, 90)), peer(2).id, now]));
        q(s, "add_trust", json!([dto_trust(&trust(0, 2, 1000, 90)), "bad", now]));
        foreign(s, "add_trust", json!([dto_trust(&trust(0, 2, 1000, 90)), peer(0).id, now]));
    }),
    ("refused revocations", |s, now| {
        for m in [Mangle::SigBit, Mangle::Signer(2), Mangle::Iat(now), Mangle::Subject(2)] {
            q(s, "revoke", json!([dto_rev(&build_rev(0, 1, 90, m)), now]));
        }
        q(s, "revoke", json!([dto_rev(&revocation(0, 1, now + 1)), now]));
        foreign(s, "revoke", json!([dto_rev(&revocation(0, 1, 90)), now]));
    }),
    ("refused roots and imports", |s, now| {
        foreign(s, "set_root", json!([peer(2).id, 9]));
        foreign(s, "set_root", json!([peer(0).id, 9]));
        q(s, "set_root", json!(["bad", 9]));
        q(s, "insert_cert", json!([{"chain": []}, now]));
        q(s, "insert_cert_raw", json!(["11\n1111\nbad", now]));
        let mut c = build_cert(&[link(0, 0, 1000, 90), link(0, 2, 1000, 90)]);
        c.chain[0] = build(&Link { by: 0, subj: 0, exp: 1000, iat: 90, mangle: Mangle::SigBit });
        q(s, "insert_cert", json!([dto_cert(&c), now]));
        q(s, "insert_cert_raw", json!([c.to_string(), now]));
        let c = build_cert(&[link(7, 7, 1000, 90), link(7, 2, 1000, 90)]);
        q(s, "insert_cert", json!([dto_cert(&c), now]));
    }),
    ("refused forms of the history's own statements", |s, now| {
        for op in quiet_alphabet() {
            match op {
                Op::Trust(l) => {
                    let g = dto_trust(&build(&l));
                    foreign(s, "add_trust", json!([g, peer(l.by).id, now]));
                    foreign(s, "verify_trust", json!([g, peer(l.by).id, now]));
                    q(s, "verify_trust", json!([g, peer(l.by).id, now]));
                    q(s, "add_trust", json!([g, peer(3).id, now]));
                    q(s, "add_trust", json!([dto_trust(&build(&Link { mangle: Mangle::Exp(7000), ..l.clone() })), peer(l.by).id, now]));
                    q(s, "add_trust", json!([dto_trust(&build(&Link { mangle: Mangle::SigBit, ..l.clone() })), peer(l.by).id, now]));
                    if l.iat > now {
                        q(s, "add_trust", json!([g, peer(l.by).id, now]));
                    }
                }
                Op::Revoke { by, subj, at, .. } => {
                    let g = revocation(by, subj, at);
                    foreign(s, "revoke", json!([dto_rev(&g), now]));
                    q(s, "revoke", json!([dto_rev(&build_rev(by, subj, at, Mangle::SigBit)), now]));
                    q(s, "revoke", json!([dto_rev(&build_rev(by, subj, at, Mangle::Signer(3))), now]));
                    if at > now {
                        q(s, "revoke", json!([dto_rev(&g), now]));
                    }
                }
                Op::Root { p, len, .. } => foreign(s, "set_root", json!([peer(p).id, len])),
                Op::Import { chain, .. } => {
                    let c = build_cert(&chain);
                    foreign(s, "insert_cert", json!([dto_cert(&c), now]));
                    foreign(s, "insert_cert_raw", json!([c.to_string(), now]));
                }
                _ => {}
            }
        }
    }),
    ("malformed calls", |s, now| {
        q(s, "get_all_certs", json!(["", now]));
        q(s, "get_weight", json!([peer(RSA).id, now]));
        q(s, "get_weight_from", json!([peer(2).id, "x", now]));
        q(s, "export_revocations", json!(["12D3"]));
        foreign(s, "get_all_certs", json!([peer(2).id, now]));
        foreign(s, "get_weight", json!([peer(2).id, now + 5000]));
    }),
];
fn run_noisy(ops: &[Op], mask: &(dyn Fn(usize) -> Vec<usize> + Sync), restart: bool, cx: &mut Ctx) -> Result<Vec<String>, String> {
    let mut im = Images::default();
    let mut now = 100;
    let mut out = vec![];
    let all: Vec<Op> = start().into_iter().chain(ops.iter().cloned()).collect();
    let parts: Vec<&[Op]> = if restart { vec![&all[..start().len()], &all[start().len()..]] } else { vec![&all[..]] };
    let mut k = 0;
    let n = parts.len();
    for (pi, part) in parts.into_iter().enumerate() {
        let (o, i) = incarnate(&im, |s| {
            let mut out = vec![];
            for op in part {
                if let Op::Time(x) = op {
                    now = *x;
                }
                for m in mask(k) {
                    NOISE[m].1(s, now);
                    cx.ops(6);
                }
                out.push(format!("{:?}", s.apply(op, now)));
                k += 1;
            }
            for m in mask(k) {
                NOISE[m].1(s, now);
            }
            if pi + 1 == n {
                for at in [now, 1000, 6000] {
                    out.extend(answers(s, &PEERS, at, cx));
                }
            }
            Ok(out)
        })?;
        out.extend(o);
        im = i;
    }
    Ok(out)
}
fn same_runs(a: &[String], b: &[String]) -> R {
    if a.len() != b.len() {
        return Err("transcripts of different length".into());
    }
    match (0..a.len()).find(|k| a[*k] != b[*k]) {
        Some(k) => Err(format!("answer {k} differs: {} without, {} with the additional calls", a[k], b[k])),
        None => Ok(()),
    }
}
/// Histories for C25: no revocation is older than a short-lived trust of the same pair.
fn quiet_alphabet() -> Vec<Op> {
    vec![
        t(0, 1, 1000, 10),
        t(1, 2, 1000, 10),
        rev(0, 1, 15),
        rev(1, 2, 15),
        t(0, 1, 1000, 20),
        t(0, 2, 150, 12),
        t(0, 2, 1000, 11),
        rev(0, 2, 30),
        imp(chain3(), Via::Text),
        root(1, 2),
        root(0, 1),
        t(1, 1, 1000, 10),
        t(1, 2, 1000, 120),
        rev(0, 1, 120),
        Op::Time(150),
    ]
}
pub fn noise(th: bool) -> Vec<Box<dyn Family>> {
    let mut out: Vec<Box<dyn Family>> = vec![];
    let depth: u32 = if th { 4 } else { 3 };
    let al = quiet_alphabet();
    let n = al.len() as u64;
    let (nn, np) = (NOISE.len() as u64, depth as u64 + 3);
    out.push(fam(
        "noise-at-each-position",
        &format!("every history of {depth} operations; each of {nn} groups of queries, verification, issuing and refused calls inserted at each position, and all of them at all positions; compared with the same history without them; alphabet {al:?}"),
        n.pow(depth),
        move |i, cx| {
            let ops = history(&al, depth as usize, i);
            if !sensible(&ops) {
                return Ok(());
            }
            let clean = run_noisy(&ops, &|_| vec![], false, cx)?;
            cx.state(&clean);
            cx.nontrivial(&clean);
            let all: Vec<usize> = (0..nn as usize).collect();
            let err = |e: String, what: String| format!("{what}: {e}\n  history {ops:?}");
            let loud = run_noisy(&ops, &|_| all.clone(), false, cx)?;
            same_runs(&clean, &loud).map_err(|e| err(e, "all additional calls at every position".into()))?;
            // one group at one position; rotates over the groups with the history in the quick tier
            for p in 2..np {
                for m in 0..nn {
                    if !th && (p * 3 + m + i) % nn != 0 {
                        continue;
                    }
                    let one = run_noisy(&ops, &|k| if k as u64 == p { vec![m as usize] } else { vec![] }, false, cx)?;
                    same_runs(&clean, &one).map_err(|e| err(e, format!("{} before operation {p}", NOISE[m as usize].0)))?;
                }
            }
            let again = run_noisy(&ops, &|_| vec![], true, cx)?;
            same_runs(&clean, &again).map_err(|e| err(e, "a second service given the same operations, restarted once".into()))?;
            cx.sample(|| format!("{ops:?}"));
            Ok(())
        },
    ));
    // exhaustive placement on short histories
    let al = quiet_alphabet();
    let d2: u32 = if th { 3 } else { 2 };
    let np = d2 as u64 + 1;
    out.push(fam(
        "noise-exhaustive",
        &format!("every history of {d2} operations, every group of additional calls at every subset of positions after the set-up"),
        n.pow(d2) * nn * (1 << np),
        move |i, cx| {
            let d = digits(i, &[1 << np, nn, n.pow(d2)]);
            let ops = history(&al, d2 as usize, d[2] as u64);
            if !sensible(&ops) || d[0] == 0 {
                return Ok(());
            }
            let clean = run_noisy(&ops, &|_| vec![], false, cx)?;
            let one = run_noisy(&ops, &|k| if k >= 2 && d[0] >> (k - 2) & 1 == 1 { vec![d[1]] } else { vec![] }, false, cx)?;
            cx.nontrivial(&i);
            same_runs(&clean, &one).map_err(|e| format!("{} at positions {:#b}: {e}\n  history {ops:?}", NOISE[d[1]].0, d[0]))
        },
    ));
    // the library: queries at every subset of positions, over both storage orders
    let al = hist::general().alphabet.into_iter().filter(|o| !matches!(o, Op::Trust(l) if l.exp == 150)).chain([t(0, 2, 150, 12)]).collect::<Vec<_>>();
    let n = al.len() as u64;
    let dl: u32 = if th { 5 } else { 4 };
    out.push(fam(
        "library-queries",
        &format!("library: every history of {dl} operations, queries about everything at every position compared with none; alphabet {al:?}"),
        n.pow(dl),
        move |i, cx| {
            let ops = history(&al, dl as usize, i);
            if !sensible(&ops) {
                return Ok(());
            }
            // a revocation older than an expired, uncollected trust: see late-collection
            let run = |ask: &dyn Fn(usize) -> bool, cx: &mut Ctx| -> Result<Vec<String>, String> {
                let mut s = Lib::new();
                let mut now = 100;
                let mut out = vec![];
                for (k, op) in start().iter().chain(&ops).enumerate() {
                    if let Op::Time(x) = op {
                        now = *x;
                    }
                    if ask(k) {
                        for p in PEERS {
                            s.certs(p, now)?;
                            s.weight(p, now)?;
                            for i in PEERS {
                                s.certs_from(p, i, now)?;
                                s.weight_from(p, i, now)?;
                            }
                            s.revocations(p)?;
                            cx.ops(9);
                        }
                        for m in [Mangle::SigBit, Mangle::Signer(1), Mangle::Exp(2000)] {
                            s.apply(&Op::Trust(Link { by: 0, subj: 2, exp: 1000, iat: 90, mangle: m }), now);
                            s.apply(&Op::Revoke { by: 0, subj: 1, at: 90, mangle: if m == Mangle::Exp(2000) { Mangle::Iat(91) } else { m } }, now);
                        }
                    }
                    out.push(format!("{:?}", s.apply(op, now)));
                }
                for at in [now, 1000] {
                    for p in PEERS {
                        out.push(format!("{:?}", s.certs(p, at)?));
                        out.push(format!("{:?}", s.weight(p, at)?));
                        out.push(format!("{:?}", s.revocations(p)?));
                    }
                }
                Ok(out)
            };
            let clean = run(&|_| false, cx)?;
            cx.state(&clean);
            cx.nontrivial(&clean);
            let all = run(&|_| true, cx)?;
            same_runs(&clean, &all).map_err(|e| format!("library, queries at every position: {e}\n  history {ops:?}"))?;
            if th {
                for k in 0..dl as usize + 2 {
                    let one = run(&|j| j == k, cx)?;
                    same_runs(&clean, &one).map_err(|e| format!("library, queries at position {k}: {e}\n  history {ops:?}"))?;
                }
            }
            Ok(())
        },
    ));
    // a revocation that arrives after the expiry of a newer trust of the same pair
    let dates = [10u64, 14, 15, 16, 20, 30];
    let nd = dates.len() as u64;
    out.push(fam(
        "late-collection",
        "a trust that expires, then a revocation of the same pair dated before, at or after it, then another trust: queried in between or not",
        nd * nd * nd * 2,
        move |i, cx| {
            let d = digits(i, &[nd, nd, nd, 2]);
            let (a, r, b) = (dates[d[0]], dates[d[1]], dates[d[2]]);
            let ops = if d[3] == 0 {
                vec![t(0, 1, 150, a), Op::Time(150), rev(0, 1, r), t(0, 1, 1000, b)]
            } else {
                vec![t(0, 2, 1000, 10), t(2, 1, 1000, 10), t(0, 1, 150, a), Op::Time(150), rev(0, 1, r), t(0, 1, 1000, b)]
            };
            let at = ops.len() - 2 + 2;
            let clean = run_noisy(&ops, &|_| vec![], false, cx)?;
            let asked = run_noisy(&ops, &|k| if k == at { vec![0] } else { vec![] }, false, cx)?;
            cx.nontrivial(&i);
            match same_runs(&clean, &asked) {
                Err(e) if r <= a => cx.known_or("C25-late-collection", format!("{e}; history {ops:?}")),
                Err(e) => Err(format!("{e}\n  history {ops:?}")),
                Ok(()) => Ok(()),
            }
        },
    ));
    out
}
