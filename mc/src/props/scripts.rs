//! The scripts shipped with the service: the Aqua API (C26), peer labelling (C27), the start script (C23).
use crate::air;
use crate::aqua::Aqua;
use crate::common::*;
use crate::keys::*;
use crate::model::*;
use crate::net::*;
use crate::sys::*;
use marine_rs_sdk::SecurityTetraplet;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

pub const AQUA: &str = "/repo/aqua";
const CLIENT: P = 5;
const RELAY: P = 6;
const OTHER: P = 7;
const PEERS: [P; 6] = [0, 1, 2, CLIENT, RELAY, OTHER];

fn id(p: P) -> String {
    peer(p).id.clone()
}
fn plain(v: Value) -> Tv {
    Tv { v, t: vec![SecurityTetraplet::new(id(CLIENT), "", "", "")] }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Do {
    /// add_root_trust, add_trust, revoke: `at` is the node
    RootTrust { at: P, p: P, len: u32, exp: u64 },
    Trust { at: P, by: P, subj: P, exp: u64 },
    Revoke { at: P, by: P, subj: P },
    /// issue_trust and import_trust, issue_revocation and import_revocation separately
    IssueImport { at: P, by: P, subj: P, exp: u64 },
    IssueRevoke { at: P, by: P, subj: P },
    Root { at: P, p: P, len: u32 },
    Cert { at: P, chain: Vec<Link> },
    Clock { at: P, by: u64 },
}

/// One model per node, in the order of the net's nodes.
struct Sim {
    w: Vec<World>,
    owner: bool,
}
fn idx(net: &Net, p: P) -> usize {
    net.node(&id(p)).unwrap()
}
fn setup(net: &mut Net, owner: bool) {
    net.client = id(CLIENT);
    net.creator = if owner { id(CLIENT) } else { OWNER.into() };
    net.relay = id(RELAY);
    for p in PEERS {
        net.signers.insert(id(p), Signer::Genuine(p));
    }
}
fn nodes(relay: u64, other: u64) -> Vec<(String, u64, Images)> {
    vec![(id(RELAY), relay, Images::default()), (id(OTHER), other, Images::default())]
}
/// nil or one error text
fn error_of(v: &Value) -> Result<Option<String>, String> {
    match v.as_array().map(|a| a.as_slice()) {
        Some([]) => Ok(None),
        Some([Value::String(e)]) if !e.is_empty() => Ok(Some(e.clone())),
        _ => Err(format!("neither nil nor an error text: {v}")),
    }
}
fn compare(what: &Do, got: Option<String>, want: Out) -> R {
    if got.is_some() != (want == Out::Err) {
        return Err(format!("{what:?} answered {got:?}, expected {want:?}"));
    }
    Ok(())
}
/// issue a trust on the client; it must be the genuine one, dated with the relay's clock
fn issue(a: &Aqua, net: &mut Net, by: P, subj: P, exp: u64, cx: &mut Ctx) -> Result<Value, String> {
    cx.op();
    let now = net.nodes[idx(net, RELAY)].clock;
    let r = a.call(net, &id(CLIENT), "issue_trust", &[json!(id(by)), json!(id(subj)), json!(exp)])?;
    if error_of(&r[1])?.is_some() {
        return Err(format!("issue_trust {by}->{subj} failed: {}", r[1]));
    }
    let want = dto_trust(&trust(by, subj, exp, now));
    if r[0] != json!([want]) {
        return Err(format!("issue_trust {by}->{subj} exp={exp} at {now} gave {}, expected {want}", r[0]));
    }
    Ok(want)
}
fn act(a: &Aqua, net: &mut Net, sim: &mut Sim, op: &Do, cx: &mut Ctx) -> R {
    let client = id(CLIENT);
    let relay_now = net.nodes[idx(net, RELAY)].clock;
    cx.op();
    match op {
        Do::Clock { at, by } => {
            let k = idx(net, *at);
            net.nodes[k].clock += by;
            sim.w[k].now += by;
            Ok(())
        }
        Do::RootTrust { at, p, len, exp } => {
            let k = idx(net, *at);
            let r = a.call(net, &client, "add_root_trust", &[json!(id(*at)), json!(id(*p)), json!(len), json!(exp)])?;
            let mut want = sim.w[k].apply(&Op::Root { p: *p, len: *len, owner: sim.owner }, true);
            if want != Out::Err {
                want = sim.w[k].apply(&Op::Trust(link(*p, *p, *exp, relay_now)), true);
            }
            compare(op, error_of(&r[0])?, want)
        }
        Do::Trust { at, by, subj, exp } => {
            let k = idx(net, *at);
            let r = a.call(net, &client, "add_trust", &[json!(id(*at)), json!(id(*by)), json!(id(*subj)), json!(exp)])?;
            let want = sim.w[k].apply(&Op::Trust(link(*by, *subj, *exp, relay_now)), true);
            compare(op, error_of(&r[0])?, want)
        }
        Do::Revoke { at, by, subj } => {
            let k = idx(net, *at);
            let r = a.call(net, &client, "revoke", &[json!(id(*at)), json!(id(*by)), json!(id(*subj))])?;
            let want = sim.w[k].apply(&Op::Revoke { by: *by, subj: *subj, at: relay_now, mangle: Mangle::None }, true);
            compare(op, error_of(&r[0])?, want)
        }
        Do::IssueImport { at, by, subj, exp } => {
            let k = idx(net, *at);
            let t = issue(a, net, *by, *subj, *exp, cx)?;
            let r = a.call(net, &id(*at), "import_trust", &[t, json!(id(*by))])?;
            let want = sim.w[k].apply(&Op::Trust(link(*by, *subj, *exp, relay_now)), true);
            compare(op, error_of(&r[0])?, want)
        }
        Do::IssueRevoke { at, by, subj } => {
            let k = idx(net, *at);
            let r = a.call(net, &client, "issue_revocation", &[json!(id(*by)), json!(id(*subj))])?;
            let want = dto_rev(&revocation(*by, *subj, relay_now));
            if error_of(&r[1])?.is_some() || r[0] != json!([want]) {
                return Err(format!("issue_revocation {by}->{subj} at {relay_now} gave {r:?}, expected {want}"));
            }
            let r = a.call(net, &id(*at), "import_revocation", &[want])?;
            let want = sim.w[k].apply(&Op::Revoke { by: *by, subj: *subj, at: relay_now, mangle: Mangle::None }, true);
            compare(op, error_of(&r[0])?, want)
        }
        Do::Root { at, p, len } => {
            let k = idx(net, *at);
            let r = a.call(net, &id(*at), "set_root", &[json!(id(*p)), json!(len)])?;
            consistent(&r[0])?;
            let want = sim.w[k].apply(&Op::Root { p: *p, len: *len, owner: sim.owner }, true);
            compare(op, (!is_success(&r[0])).then(String::new), want)
        }
        Do::Cert { at, chain } => {
            let k = idx(net, *at);
            let r = a.call(net, &id(*at), "insert_cert", &[dto_cert(&build_cert(chain))])?;
            consistent(&r[0])?;
            let want = sim.w[k].apply(&Op::Import { chain: chain.clone(), via: Via::Record }, true);
            compare(op, (!is_success(&r[0])).then(String::new), want)
        }
    }
}
/// Every node answers as its model.
fn look(net: &Net, sim: &Sim, cx: &mut Ctx) -> R {
    for k in 0..net.nodes.len() {
        let (mut g, now) = (sim.w[k].g.clone(), sim.w[k].now);
        let name = net.nodes[k].id.clone();
        net.on(k, cx, move |s, cx| observe(s, &mut g, &PEERS, now, Probe::All, cx)).map_err(|e| format!("on {}: {e}", if name == id(RELAY) { "the relay" } else { "the node" }))?;
    }
    Ok(())
}
fn sort_certs(mut v: Value) -> Value {
    if let Some(a) = v.get_mut("certificates").and_then(|c| c.as_array_mut()) {
        a.sort_by_key(|x| x.to_string());
    }
    v
}
/// Every query of the API answers what the service of that node answers with that node's clock.
fn queries(a: &Aqua, net: &mut Net, cx: &mut Ctx) -> R {
    for k in 0..net.nodes.len() {
        let (host, now) = (net.nodes[k].id.clone(), net.nodes[k].clock);
        let mut ask = |f: &str, args: Vec<Value>, net: &mut Net| -> R {
            cx.ops(2);
            let mut direct = args.clone();
            direct.push(json!(now));
            let want = sort_certs(net.raw(k, f, json!(direct), params(f, direct.len(), &host))?);
            let got = a.call(net, &host, f, &args).map_err(|e| format!("{f} on {host} at {now}: {e}"))?;
            cx.outcome(&want.to_string());
            let got = sort_certs(got[0].clone());
            if got != want {
                return Err(format!("{f} {args:?} on {host} at {now} answered {got}, the service itself {want}"));
            }
            Ok(())
        };
        ask("get_host_certs", vec![], net)?;
        for p in PEERS {
            ask("get_weight", vec![json!(id(p))], net)?;
            ask("get_all_certs", vec![json!(id(p))], net)?;
            ask("get_host_certs_from", vec![json!(id(p))], net)?;
            for i in PEERS {
                ask("get_weight_from", vec![json!(id(p)), json!(id(i))], net)?;
                ask("get_all_certs_from", vec![json!(id(p)), json!(id(i))], net)?;
            }
        }
        for t in [trust(0, 1, now + 1, now), trust(0, 1, now, now), trust(0, 1, now - 1, now - 1), trust(0, 1, now + 5, now + 1), trust(1, 1, now + 5, now)] {
            ask("verify_trust", vec![dto_trust(&t), json!(id(0))], net)?;
        }
    }
    Ok(())
}
fn alphabet(small: bool) -> Vec<Do> {
    let mut v = vec![];
    for at in [RELAY, OTHER] {
        v.push(Do::RootTrust { at, p: 0, len: 2, exp: 1000 });
        v.push(Do::Trust { at, by: 0, subj: 1, exp: 1000 });
        v.push(Do::Trust { at, by: 1, subj: OTHER, exp: 103 });
        v.push(Do::Revoke { at, by: 0, subj: 1 });
        v.push(Do::Clock { at, by: 1 });
        if !small {
            v.push(Do::RootTrust { at, p: CLIENT, len: 1, exp: 102 });
            v.push(Do::IssueImport { at, by: 0, subj: 2, exp: 1000 });
            v.push(Do::IssueRevoke { at, by: 1, subj: OTHER });
            v.push(Do::Root { at, p: 1, len: 0 });
            v.push(Do::Cert { at, chain: vec![link(0, 0, 1000, 50), link(0, 2, 1000, 51), link(2, RELAY, 1000, 52)] });
        }
    }
    v
}
fn load(file: &str) -> Result<Aqua, String> {
    Aqua::load(AQUA, file, &|s| s)
}
struct Api(Aqua);
// the parsed scripts are never changed
unsafe impl Send for Api {}
unsafe impl Sync for Api {}

pub fn api(th: bool) -> Vec<Box<dyn Family>> {
    let a = match load("trust-graph-api.aqua") {
        Ok(a) => Arc::new(Api(a)),
        Err(e) => return vec![fam("api-files", "the Aqua files can be read", 1, move |_, _| Err(e.clone()))],
    };
    let mut out: Vec<Box<dyn Family>> = vec![];
    // (relay clock, node clock)
    const SKEW: [(u64, u64); 4] = [(100, 100), (100, 102), (102, 100), (101, 100)];

    let al = alphabet(false);
    let (n, d) = (al.len() as u64, if th { 3 } else { 2 });
    let ab = a.clone();
    let name = format!("every sequence of up to {d} of {n} API calls on a relay and another node, 4 clock skews, caller owning the services or not; both nodes compared with their models after every call, all API queries compared with the services at the end");
    let total: u64 = (1..=d).map(|k| n.pow(k)).sum::<u64>() * 8;
    let al2 = al.clone();
    out.push(fam("api-sequences", &name, total, move |i, cx| {
        let (i, s, o) = (i / 8, (i / 2) % 4, i % 2);
        let (mut i, mut k) = (i, 1);
        while i >= n.pow(k) {
            i -= n.pow(k);
            k += 1;
        }
        let ops: Vec<Do> = digits(i, &vec![n; k as usize]).iter().map(|&x| al2[x].clone()).collect();
        let (r, t) = SKEW[s as usize];
        cx.sample(|| format!("{ops:?} clocks {r}/{t}"));
        with_nodes(&nodes(r, t), |net| {
            setup(net, o == 0);
            let mut sim = Sim { w: vec![World::at(r), World::at(t)], owner: o == 0 };
            for op in &ops {
                act(&ab.0, net, &mut sim, op, cx)?;
                look(net, &sim, cx)?;
                cx.state(&(&sim.w[0], &sim.w[1]));
            }
            cx.nontrivial(&(&ops, s, o));
            queries(&ab.0, net, cx)
        })
    }));
    let al = alphabet(true);
    let (n, d) = (al.len() as u64, if th { 5 } else { 3 });
    let ab = a.clone();
    let total = n.pow(d) * 2;
    out.push(fam("api-deeper", &format!("every sequence of {d} of {n} API calls, equal and skewed clocks, compared at the end"), total, move |i, cx| {
        let (i, s) = (i / 2, i % 2);
        let ops: Vec<Do> = digits(i, &vec![n; d as usize]).iter().map(|&x| al[x].clone()).collect();
        let (r, t) = [(100, 100), (101, 100)][s as usize];
        with_nodes(&nodes(r, t), |net| {
            setup(net, true);
            let mut sim = Sim { w: vec![World::at(r), World::at(t)], owner: true };
            for op in &ops {
                act(&ab.0, net, &mut sim, op, cx)?;
            }
            cx.state(&(&sim.w[0], &sim.w[1]));
            cx.nontrivial(&(&ops, s));
            look(net, &sim, cx)
        })
    }));
    // a prepared graph for the remaining families
    fn prepare(a: &Aqua, net: &mut Net, sim: &mut Sim, cx: &mut Ctx) -> R {
        for at in [RELAY, OTHER] {
            for op in [Do::RootTrust { at, p: 0, len: 3, exp: 1000 }, Do::Trust { at, by: 0, subj: 1, exp: 1000 }, Do::Trust { at, by: 1, subj: 2, exp: 1000 }, Do::Trust { at, by: 0, subj: CLIENT, exp: 1000 }] {
                act(a, net, sim, &op, cx)?;
            }
        }
        for at in [RELAY, OTHER] {
            act(a, net, sim, &Do::Clock { at, by: 10 }, cx)?;
        }
        Ok(())
    }
    // every step fails
    let ab = a.clone();
    out.push(fam("api-failures", "every API function on either node with every service call of it failing in turn: the failure is reported, nothing is changed after it, and what was changed before is what the calls before it did", 2 * FNS.len() as u64 * 8, move |i, cx| {
        let d = digits(i, &[2, FNS.len() as u64, 8]);
        let at = [RELAY, OTHER][d[0]];
        let (f, kind) = FNS[d[1]];
        with_nodes(&nodes(100, 100), |net| {
            setup(net, true);
            let mut sim = Sim { w: vec![World::at(100), World::at(100)], owner: true };
            prepare(&ab.0, net, &mut sim, cx)?;
            let (where_, args) = arguments(f, at, net.nodes[idx(net, at)].clock);
            net.log.clear();
            net.fallible = 0;
            net.fail_at = Some(d[2]);
            cx.op();
            let r = ab.0.call(net, &where_, f, &args).map_err(|e| format!("{f} with a failing call {}: {e}", d[2]))?;
            net.fail_at = None;
            let Some(k) = net.log.iter().position(|m| !m.ok) else {
                return if net.fallible > d[2] { Err(format!("{f}: harness lost the failing call")) } else { Ok(()) };
            };
            cx.nontrivial(&i);
            let text = format!("injected failure of call {}", d[2]);
            let told = match kind {
                Kind::Error => error_of(&r[0])?,
                Kind::ValueOrError => {
                    if r[0] != json!([]) {
                        return Err(format!("{f}: call {} failed and a value is returned: {}", d[2], r[0]));
                    }
                    error_of(&r[1])?
                }
                Kind::Result => {
                    consistent(&r[0])?;
                    r[0]["error"].as_str().filter(|_| !is_success(&r[0])).map(String::from)
                }
            };
            match told {
                Some(e) if e.contains(&text) => {}
                e => return Err(format!("{f}: call {} ({}.{}) failed with {text:?}, reported: {e:?}", d[2], net.log[k].service, net.log[k].f)),
            }
            if let Some(m) = net.log[k + 1..].iter().find(|m| MUTATING.contains(&m.f.as_str())) {
                return Err(format!("{f}: {} is called after {} has failed", m.f, net.log[k].f));
            }
            // only the root may have been set before
            for m in &net.log[..k] {
                if MUTATING.contains(&m.f.as_str()) {
                    if m.f != "set_root" {
                        return Err(format!("{f}: {} precedes the failing call", m.f));
                    }
                    let k = net.node(&m.peer).unwrap();
                    sim.w[k].apply(&Op::Root { p: CLIENT, len: 1, owner: true }, true);
                }
            }
            look(net, &sim, cx)
        })
    }));
    // signing services
    let ab = a.clone();
    let kinds = [Signer::Genuine(0), Signer::Refuses, Signer::Other(1), Signer::Flipped(0)];
    const SIGNED: [&str; 5] = ["add_trust", "add_root_trust", "revoke", "issue_trust", "issue_revocation"];
    out.push(fam("api-signers", "every issuing function for the caller's own and another issuer, on either node, with a signing service that signs, refuses, signs with another key or returns a damaged signature", 5 * 2 * 2 * 4, move |i, cx| {
        let d = digits(i, &[5, 2, 2, 4]);
        let at = [RELAY, OTHER][d[1]];
        let by = [0, CLIENT][d[2]];
        let f = SIGNED[d[0]];
        let kind = match kinds[d[3]] {
            Signer::Genuine(_) => Signer::Genuine(by),
            Signer::Flipped(_) => Signer::Flipped(by),
            k => k,
        };
        cx.nontrivial(&i);
        with_nodes(&nodes(100, 100), |net| {
            setup(net, true);
            let mut sim = Sim { w: vec![World::at(100), World::at(100)], owner: true };
            prepare(&ab.0, net, &mut sim, cx)?;
            net.signers.insert(id(by), kind);
            let now = net.nodes[0].clock;
            let k = idx(net, at);
            let good = matches!(kind, Signer::Genuine(_));
            cx.op();
            let c = id(CLIENT);
            let told = match f {
                "add_trust" => {
                    if good {
                        sim.w[k].apply(&Op::Trust(link(by, 2, 500, now)), true);
                    }
                    error_of(&ab.0.call(net, &c, f, &[json!(id(at)), json!(id(by)), json!(id(2)), json!(500)])?[0])?
                }
                "add_root_trust" => {
                    let r = error_of(&ab.0.call(net, &c, f, &[json!(id(at)), json!(id(by)), json!(4), json!(500)])?[0])?;
                    if kind != Signer::Refuses {
                        sim.w[k].apply(&Op::Root { p: by, len: 4, owner: true }, true);
                    }
                    if good {
                        sim.w[k].apply(&Op::Trust(link(by, by, 500, now)), true);
                    }
                    r
                }
                "revoke" => {
                    if good {
                        sim.w[k].apply(&Op::Revoke { by, subj: 2, at: now, mangle: Mangle::None }, true);
                    }
                    error_of(&ab.0.call(net, &c, f, &[json!(id(at)), json!(id(by)), json!(id(2))])?[0])?
                }
                _ => {
                    let args = if f == "issue_trust" { vec![json!(id(by)), json!(id(2)), json!(500)] } else { vec![json!(id(by)), json!(id(2))] };
                    let r = ab.0.call(net, &c, f, &args)?;
                    let want = if f == "issue_trust" { dto_trust(&trust(by, 2, 500, now)) } else { dto_rev(&revocation(by, 2, now)) };
                    if (r[0] == json!([want])) != good {
                        return Err(format!("{f} with {kind:?} returned {}", r[0]));
                    }
                    let e = error_of(&r[1])?;
                    if e.is_some() == (r[0] != json!([])) {
                        return Err(format!("{f} with {kind:?} returned both or neither of value and error: {r:?}"));
                    }
                    if kind == Signer::Refuses && e.is_none() {
                        return Err(format!("{f}: the refusal to sign is not reported"));
                    }
                    return look(net, &sim, cx);
                }
            };
            if told.is_some() == good {
                return Err(format!("{f} of {by} with {kind:?} reported {told:?}"));
            }
            look(net, &sim, cx)
        })
    }));
    // clocks that advance with every reading
    let ab = a.clone();
    out.push(fam("api-running-clocks", "every issuing function on either node, with clocks that advance with every reading by 0 to 3 seconds", 5 * 2 * 4, move |i, cx| {
        let d = digits(i, &[5, 2, 4]);
        let at = [RELAY, OTHER][d[1]];
        with_nodes(&nodes(100, 150), |net| {
            setup(net, true);
            let mut sim = Sim { w: vec![World::at(100), World::at(150)], owner: true };
            prepare(&ab.0, net, &mut sim, cx)?;
            net.tick = d[2] as u64;
            let before = net.nodes[0].clock;
            let k = idx(net, at);
            let c = id(CLIENT);
            cx.op();
            cx.nontrivial(&i);
            let f = SIGNED[d[0]];
            let err = match f {
                "add_trust" => ab.0.call(net, &c, f, &[json!(id(at)), json!(id(0)), json!(id(OTHER)), json!(500)])?.remove(0),
                "add_root_trust" => ab.0.call(net, &c, f, &[json!(id(at)), json!(id(2)), json!(4), json!(500)])?.remove(0),
                "revoke" => ab.0.call(net, &c, f, &[json!(id(at)), json!(id(0)), json!(id(2))])?.remove(0),
                "issue_trust" => {
                    let r = ab.0.call(net, &c, f, &[json!(id(0)), json!(id(OTHER)), json!(500)])?;
                    let mine: Vec<Value> = (before..=net.nodes[0].clock).map(|t| json!([dto_trust(&trust(0, OTHER, 500, t))])).collect();
                    if !mine.contains(&r[0]) {
                        return Err(format!("{f} gave {}", r[0]));
                    }
                    r[1].clone()
                }
                _ => {
                    let r = ab.0.call(net, &c, f, &[json!(id(0)), json!(id(OTHER))])?;
                    let mine: Vec<Value> = (before..=net.nodes[0].clock).map(|t| json!([dto_rev(&revocation(0, OTHER, t))])).collect();
                    if !mine.contains(&r[0]) {
                        return Err(format!("{f} gave {}", r[0]));
                    }
                    r[1].clone()
                }
            };
            if let Some(e) = error_of(&err)? {
                return Err(format!("{f} on {at} failed: {e}"));
            }
            // the statement is in the graph with a date of the relay's clock
            let last = net.nodes[0].clock;
            let now = net.nodes[k].clock;
            let worlds: Vec<World> = (before..=last)
                .map(|t| {
                    let mut w = sim.w[k].clone();
                    w.now = now;
                    match f {
                        "add_trust" => {
                            w.apply(&Op::Trust(link(0, OTHER, 500, t)), false);
                        }
                        "add_root_trust" => {
                            w.apply(&Op::Root { p: 2, len: 4, owner: true }, true);
                            w.apply(&Op::Trust(link(2, 2, 500, t)), false);
                        }
                        "revoke" => {
                            w.apply(&Op::Revoke { by: 0, subj: 2, at: t, mangle: Mangle::None }, false);
                        }
                        _ => {}
                    }
                    w
                })
                .collect();
            let mut errs = vec![];
            for w in worlds {
                let mut g = w.g.clone();
                match net.on(k, cx, move |s, cx| observe(s, &mut g, &PEERS, now, Probe::All, cx)) {
                    Ok(()) => return Ok(()),
                    Err(e) => errs.push(e),
                }
            }
            Err(format!("{f} on {at}: {}", errs[0]))
        })
    }));
    // declarations
    let ab = a.clone();
    let decl = a.0.declared("TrustGraph");
    out.push(fam("api-declarations", "every declared service function, called with genuine and with meaningless arguments: it exists, takes the declared arguments and answers with the declared type; every exported service function is declared", 1, move |_, cx| {
        for f in FUNCTIONS {
            if !decl.iter().any(|(n, _)| n == f) {
                return Err(format!("{f} is not declared for Aqua"));
            }
        }
        with_nodes(&nodes(100, 100), |net| {
            setup(net, true);
            let mut sim = Sim { w: vec![World::at(100), World::at(100)], owner: true };
            prepare(&ab.0, net, &mut sim, cx)?;
            for (f, _) in &decl {
                for (good, large) in [(true, false), (false, false), (true, true)] {
                    // the largest dates and weights
                    let now = if large { u64::MAX - 1 } else { net.nodes[0].clock };
                    if large {
                        net.on(0, cx, |s, _| {
                            s.apply(&Op::Root { p: 0, len: u32::MAX, owner: true }, 200);
                            for (b, t) in [(0, 0), (0, 1), (1, 2), (0, RELAY), (1, RELAY)] {
                                s.apply(&Op::Trust(link(b, t, u64::MAX, 150)), 200);
                            }
                            Ok(())
                        })?;
                    }
                    let Some(args) = direct_args(f, now, good) else { return Err(format!("harness: no arguments for {f}")) };
                    let n = args.len();
                    let time = time_arg(f);
                    let tv = args
                        .into_iter()
                        .enumerate()
                        .map(|(k, v)| if Some(k) == time { Tv { v, t: vec![good_origin(&id(RELAY))] } } else { plain(v) })
                        .collect();
                    cx.op();
                    let r = ab.0.service(net, &id(RELAY), "TrustGraph", f, tv).map_err(|e| format!("{f} with {n} arguments: {e}"))?;
                    consistent(&r)?;
                    if good && !is_success(&r) {
                        return Err(format!("{f} answered {r}"));
                    }
                    cx.nontrivial(&(f, good, large));
                }
            }
            Ok(())
        })
    }));
    let ab = a.clone();
    out.push(fam("api-exports", "every function of the API is exported and exists", 1, move |_, cx| {
        let ex = ab.0.exported();
        for (f, _) in FNS {
            cx.op();
            cx.nontrivial(f);
            if !ex.iter().any(|e| e == f) || !ab.0.has(f) {
                return Err(format!("{f} is not exported"));
            }
        }
        for f in ex {
            if !ab.0.has(&f) {
                return Err(format!("{f} is exported but does not exist"));
            }
        }
        Ok(())
    }));
    out
}

#[derive(Clone, Copy)]
enum Kind {
    Error,
    ValueOrError,
    Result,
}
const FNS: [(&str, Kind); 16] = [
    ("set_root", Kind::Result),
    ("issue_trust", Kind::ValueOrError),
    ("import_trust", Kind::Error),
    ("add_trust", Kind::Error),
    ("add_root_trust", Kind::Error),
    ("verify_trust", Kind::Result),
    ("get_weight", Kind::Result),
    ("get_weight_from", Kind::Result),
    ("issue_revocation", Kind::ValueOrError),
    ("import_revocation", Kind::Error),
    ("revoke", Kind::Error),
    ("get_host_certs_from", Kind::Result),
    ("get_all_certs", Kind::Result),
    ("get_all_certs_from", Kind::Result),
    ("get_host_certs", Kind::Result),
    ("insert_cert", Kind::Result),
];
/// Where to call an API function, and arguments for which it succeeds.
fn arguments(f: &str, at: P, now: u64) -> (String, Vec<Value>) {
    let c = id(CLIENT);
    let (a, i) = (json!(id(at)), |p: P| json!(id(p)));
    match f {
        "set_root" => (id(at), vec![i(CLIENT), json!(1)]),
        "issue_trust" => (c, vec![i(0), i(2), json!(500)]),
        "import_trust" => (id(at), vec![dto_trust(&trust(0, 2, 500, now)), i(0)]),
        "add_trust" => (c, vec![a, i(0), i(2), json!(500)]),
        "add_root_trust" => (c, vec![a, i(CLIENT), json!(1), json!(500)]),
        "verify_trust" => (id(at), vec![dto_trust(&trust(0, 2, 500, now)), i(0)]),
        "get_weight" | "get_all_certs" | "get_host_certs_from" => (id(at), vec![i(1)]),
        "get_weight_from" | "get_all_certs_from" => (id(at), vec![i(2), i(1)]),
        "issue_revocation" => (c, vec![i(0), i(2)]),
        "import_revocation" => (id(at), vec![dto_rev(&revocation(0, 2, now))]),
        "revoke" => (c, vec![a, i(0), i(2)]),
        "get_host_certs" => (id(at), vec![]),
        "insert_cert" => (id(at), vec![dto_cert(&build_cert(&[link(0, 0, 1000, 50), link(0, 2, 1000, now)]))]),
        _ => unreachable!(),
    }
}
fn direct_args(f: &str, now: u64, good: bool) -> Option<Vec<Value>> {
    let p = |k: P| if good { json!(id(k)) } else { json!("nobody") };
    let sig = |by: P, s: P| {
        if good {
            let t = trust(by, s, now.saturating_add(500), now);
            json!(t.signature.to_vec())
        } else {
            json!([1, 2])
        }
    };
    let exp = now.saturating_add(500);
    let mut t = dto_trust(&trust(0, 2, exp, now));
    let mut r = dto_rev(&revocation(0, 2, now));
    let c = build_cert(&[link(0, 0, exp, 50), link(0, 2, exp, now)]);
    let mut cert = dto_cert(&c);
    let mut text = c.to_string();
    if !good {
        t["signature"] = json!("0");
        r["signature"] = json!("0");
        cert["chain"][1]["issued_for"] = json!("nobody");
        text = "x".into();
    }
    Some(match f {
        "set_root" => vec![p(2), json!(if now > 1 << 40 { u32::MAX } else { 3 })],
        "insert_cert_raw" => vec![json!(text), json!(now)],
        "insert_cert" => vec![cert, json!(now)],
        "get_weight" => vec![p(0), json!(now)],
        "get_all_certs" => vec![p(1), json!(now)],
        "get_all_certs_from" | "get_weight_from" => vec![p(2), p(1), json!(now)],
        "get_host_certs" => vec![json!(now)],
        "get_host_certs_from" => vec![p(1), json!(now)],
        "get_trust_bytes" => vec![p(2), json!(exp), json!(now)],
        "issue_trust" => vec![p(2), json!(exp), json!(now), sig(0, 2)],
        "verify_trust" | "add_trust" => vec![t, p(0), json!(now)],
        "get_revocation_bytes" => vec![p(2), json!(now)],
        "issue_revocation" => vec![p(0), p(2), json!(now), sig(0, 2)],
        "revoke" => vec![r, json!(now)],
        "export_revocations" => vec![p(2)],
        _ => return None,
    })
}

// ---------------------------------------------------------------- labelling

fn shipped() -> Result<(String, Value), String> {
    let v: Value = serde_json::from_str(&std::fs::read_to_string("/repo/distro/init_certs.json").map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    Ok((v["root_node"].as_str().ok_or("no root_node")?.to_string(), v))
}
pub fn labelling(th: bool) -> Vec<Box<dyn Family>> {
    let bad = |e: String| -> Vec<Box<dyn Family>> { vec![fam("labelling-files", "the shipped files can be read", 1, move |_, _| Err(e.clone()))] };
    let (root, v) = match shipped() {
        Ok(x) => x,
        Err(e) => return bad(e),
    };
    // the shipped label is the peer all three-trust chains go through
    let chains: Vec<Vec<String>> = v["certs"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|c| c["chain"].as_array().cloned().unwrap_or_default().iter().map(|t| t["issued_for"].as_str().unwrap_or("").to_string()).collect())
        .collect();
    let Some(label) = chains.iter().find(|c| c.len() == 3).map(|c| c[1].clone()) else { return bad("no shipped certificate of three trusts".into()) };
    let real = match load("labelling.aqua") {
        Ok(a) => Arc::new(Api(a)),
        Err(e) => return bad(e),
    };
    let (r2, l2) = (root.clone(), label.clone());
    let mapped = match Aqua::load(AQUA, "labelling.aqua", &move |s| s.replace(&r2, &id(0)).replace(&l2, &id(1))) {
        Ok(a) => Arc::new(Api(a)),
        Err(e) => return bad(e),
    };
    let mut out: Vec<Box<dyn Family>> = vec![];
    // all graphs around root 0, label 1, host 6 and a bystander 2
    const H: P = RELAY;
    let roots: Vec<Vec<(P, u32)>> = vec![vec![(0, 5)], vec![(0, 5), (2, 5)], vec![(2, 5)], vec![(0, 5), (1, 5)], vec![(0, 2)]];
    let graphs = |name: &str, hosts: Vec<P>, edges: Vec<(P, P)>, revs: Vec<Option<(P, P)>>| {
        let (n, nr, nv, nh) = (edges.len(), roots.len() as u64, revs.len() as u64, hosts.len() as u64);
        let (a, roots) = (mapped.clone(), roots.clone());
        fam(
            name,
            &format!("host {hosts:?} (0 is the root, 1 the label): every subset of {n} trusts between root, label, host and another peer × {nr} root sets × {nv} revocations, before and after the expiry of the host's trusts; judged against the certificates the service itself returns for the host"),
            (1u64 << n) * nr * nv * nh,
            move |i, cx| {
                let d = digits(i, &[nv, nr, 1 << n, nh]);
                let h = hosts[d[3]];
                let mut w = vec![];
                with_nodes(&[(id(h), 100, Images::default())], |net| {
                    setup(net, true);
                    let (rs, es, rv) = (roots[d[1]].clone(), edges.clone(), revs[d[0]]);
                    let mask = d[2];
                    net.on(0, cx, move |s, _| {
                        for (p, len) in rs {
                            s.apply(&Op::Root { p, len, owner: true }, 100);
                        }
                        for _ in 0..2 {
                            for (k, (b, t)) in es.iter().enumerate() {
                                if mask >> k & 1 == 1 {
                                    s.apply(&Op::Trust(link(*b, *t, if *t == h { 200 } else { 300 }, 50)), 100);
                                }
                            }
                        }
                        if let Some((by, subj)) = rv {
                            s.apply(&Op::Revoke { by, subj, at: 60, mangle: Mangle::None }, 100);
                        }
                        Ok(())
                    })?;
                    for now in [100, 200] {
                        net.nodes[0].clock = now;
                        w.push(is_label(&a.0, net, &id(0), &id(1), cx)?);
                    }
                    Ok(())
                })?;
                cx.state(&(d[3], d[2], d[1], d[0]));
                if w[0] {
                    cx.nontrivial(&i);
                }
                Ok(())
            },
        )
    };
    let edges: Vec<(P, P)> = vec![(0, 0), (0, 1), (1, H), (0, H), (0, 2), (2, 1), (1, 2), (2, H), (2, 2), (1, 1), (H, H), (H, 1)].into_iter().take(if th { 12 } else { 11 }).collect();
    let revs: Vec<Option<(P, P)>> = vec![None, Some((0, 1)), Some((1, H)), Some((0, H)), Some((2, H))].into_iter().take(if th { 5 } else { 3 }).collect();
    out.push(graphs("labelled-graphs", vec![H], edges, revs));
    let edges: Vec<(P, P)> = vec![(0, 0), (0, 1), (1, 0), (0, 2), (2, 1), (1, 2), (2, 0), (1, 1), (2, 2)];
    out.push(graphs("labelled-roles", vec![0, 1], edges, if th { vec![None, Some((0, 1)), Some((2, 1)), Some((1, 0))] } else { vec![None] }));
    // the shipped certificates, with the identifiers of the script
    let hosts: Vec<String> = chains.iter().flatten().cloned().chain([id(3)]).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let nh = hosts.len() as u64;
    let all: Vec<Value> = v["certs"].as_array().cloned().unwrap_or_default();
    let max = v["max_chain_length"].clone();
    let at: u64 = all.iter().flat_map(|c| c["chain"].as_array().cloned().unwrap_or_default()).filter_map(|t| t["issued_at"].as_u64()).max().unwrap_or(0);
    let end: u64 = all.iter().flat_map(|c| c["chain"].as_array().cloned().unwrap_or_default()).filter_map(|t| t["expires_at"].as_u64()).min().unwrap_or(0);
    let a = real.clone();
    let nc = all.len() as u64;
    let ch = chains.clone();
    let hh = hosts.clone();
    out.push(fam("labelled-hosts", "every peer named in the shipped certificates and an unknown one as host × every single certificate, all of them and none imported × boundary times: exactly the hosts of shipped three-trust certificates are labelled, while they are valid", nh * (nc + 2) * 4, move |i, cx| {
        let d = digits(i, &[nh, nc + 2, 4]);
        let now = [at, at + 1, end - 1, end][d[2]];
        let host = &hh[d[0]];
        let pick: Vec<usize> = match d[1] as u64 {
            k if k < nc => vec![k as usize],
            k if k == nc => (0..nc as usize).collect(),
            _ => vec![],
        };
        with_nodes(&[(host.clone(), at.max(1), Images::default())], |net| {
            setup(net, true);
            let (root, max) = (root.clone(), max.clone());
            let cs: Vec<Value> = pick.iter().map(|&k| all[k].clone()).collect();
            let h2 = host.clone();
            net.on(0, cx, move |_, _| {
                raw_call("set_root", &json!([root, max]), params("set_root", 2, &h2));
                for c in cs {
                    let v = raw_call("insert_cert", &json!([c, at]), params("insert_cert", 2, &h2));
                    if !is_success(&v) {
                        return Err(format!("shipped certificate is refused: {v}"));
                    }
                }
                Ok(())
            })?;
            net.nodes[0].clock = now;
            cx.op();
            let r = a.0.call(net, host, "isFluencePeer", &[])?;
            let want = now < end && pick.iter().any(|&k| ch[k].len() == 3 && ch[k][2] == *host);
            cx.outcome(&(want, now));
            if want {
                cx.nontrivial(&i);
            }
            cx.state(&i);
            if first(&r)? != Ok(want) {
                return Err(format!("host {host} with shipped certificates {pick:?} at {now}: {r:?}, expected {want}"));
            }
            Ok(())
        })
    }));
    let a = mapped;
    out.push(fam("labelling-failure", "the certificate query fails: no answer and the error", 1, move |i, cx| {
        with_nodes(&[(id(H), 100, Images::default())], |net| {
            setup(net, true);
            net.fail_at = Some(0);
            cx.op();
            cx.nontrivial(&i);
            let r = a.0.call(net, &id(H), "isFluencePeer", &[])?;
            match first(&r)? {
                Err(e) if e.contains("injected") => Ok(()),
                x => Err(format!("the certificate query failed, the answer is {x:?}")),
            }
        })
    }));
    out
}
/// the answer: a truth value or an error
fn first(r: &[Value]) -> Result<Result<bool, String>, String> {
    let (v, e) = (r[0].as_array().ok_or("no list")?, error_of(&r[1])?);
    match (v.first(), e) {
        (Some(Value::Bool(b)), None) if v.iter().all(|x| x == &json!(b)) => Ok(Ok(*b)),
        (None, Some(e)) => Ok(Err(e)),
        _ => Err(format!("isFluencePeer answered {r:?}")),
    }
}
fn is_label(a: &Aqua, net: &mut Net, root: &str, label: &str, cx: &mut Ctx) -> Result<bool, String> {
    cx.ops(2);
    let (host, now) = (net.nodes[0].id.clone(), net.nodes[0].clock);
    let r = a.call(net, &host, "isFluencePeer", &[])?;
    let c = net.raw(0, "get_all_certs", json!([host, now]), params("get_all_certs", 2, &host))?;
    let chains = c["certificates"].as_array().ok_or("no certificates")?;
    let want = chains.iter().any(|c| {
        let ch = c["chain"].as_array().unwrap();
        ch.len() == 3 && ch[0]["issued_for"] == *root && ch[1]["issued_for"] == *label && ch[2]["issued_for"] == *host
    });
    cx.outcome(&want);
    if first(&r)? != Ok(want) {
        return Err(format!("isFluencePeer answered {r:?} at {now}, expected {want}: the host has {} certificates", chains.len()));
    }
    Ok(want)
}

// ---------------------------------------------------------------- start script

/// The start script on the shipped input: (weights by distance are judged by the caller).
pub fn start_script(root: String, max: u64, dist: Vec<(String, usize)>, from: u64, until: u64) -> Vec<Box<dyn Family>> {
    let read = |f: &str| std::fs::read_to_string(format!("/repo/builtin-package/{f}")).map_err(|e| format!("{f}: {e}"));
    let (air, input): (String, Value) = match (read("on_start.air"), read("on_start.json")) {
        (Ok(a), Ok(b)) => (a, serde_json::from_str(&b).unwrap_or_default()),
        (Err(e), _) | (_, Err(e)) => return vec![fam("start-script", "the start script can be read", 1, move |_, _| Err(e.clone()))],
    };
    let air = Arc::new(air::load(&air));
    let input = Arc::new(input);
    let n = input["certs"].as_array().map_or(0, |c| c.len());
    let hosts: Vec<String> = vec![id(3), dist.last().unwrap().0.clone()];
    let times = vec![from, from + 1, (from + until) / 2, until - 2, until - 1];
    let mut out: Vec<Box<dyn Family>> = vec![];
    let (ai, inp, hs, ts, ds, rt) = (air.clone(), input.clone(), hosts, times.clone(), dist, root);
    out.push(fam("start-script", "the start script itself, at every boundary time, on two hosts, up to three times, with and without a restart in between: it reports success and every listed peer has the weight of its distance", (ts.len() * 2 * 3 * 2) as u64, move |i, cx| {
        let d = digits(i, &[ts.len() as u64, 2, 3, 2]);
        let (now, host, reps, restart) = (ts[d[0]], &hs[d[1]], d[2] + 1, d[3] == 1);
        let mut im = Images::default();
        let mut left = reps;
        cx.nontrivial(&i);
        cx.state(&i);
        while left > 0 {
            let here = if restart { 1 } else { left };
            left -= here;
            let keep = Arc::new(Mutex::new(Images::default()));
            with_nodes(&[(host.clone(), now, im.clone())], |net| {
                setup(net, true);
                net.relay = host.clone();
                for _ in 0..here {
                    cx.op();
                    let r = ai.run(net, &inp).map_err(|e| format!("the start script fails at {now}: {e}"))?;
                    if r != vec![json!(true)] {
                        return Err(format!("the start script returned {r:?} at {now}"));
                    }
                }
                let (ds, rt, k2) = (ds.clone(), rt.clone(), keep.clone());
                net.on(0, cx, move |s, cx| {
                    *k2.lock().unwrap() = db::committed();
                    for t in [now, until - 1, until] {
                        for (p, k) in &ds {
                            cx.op();
                            let v = s.call("get_weight", json!([p, t]));
                            let want = if *p == rt { 1u64 << max } else if t < until { 1u64 << (max - *k as u64) } else { 0 };
                            if v["weight"].as_u64() != Some(want) {
                                return Err(format!("after the start script the weight of {p} at {t} is {}, expected {want}", v["weight"]));
                            }
                        }
                    }
                    Ok(())
                })
            })?;
            im = keep.lock().unwrap().clone();
        }
        Ok(())
    }));
    let total = n as u64 + 1;
    out.push(fam("start-script-failures", "every service call of the start script fails in turn: the failure is reported", total, move |i, cx| {
        with_nodes(&[(id(3), times[0], Images::default())], |net| {
            setup(net, true);
            net.relay = id(3);
            net.fail_at = Some(i as usize);
            cx.op();
            cx.nontrivial(&i);
            match air.run(net, &input) {
                Ok(r) if r.iter().any(|v| v.as_str().map_or(false, |s| s.contains("injected"))) => Ok(()),
                Ok(r) => Err(format!("call {i} of the start script failed, it returned {r:?}")),
                Err(_) => Ok(()),
            }
        })
    }));
    out
}
