//! The certificate generator (C28) and the guarded computation of the example (C29).
use crate::aqua::Aqua;
use crate::common::*;
use crate::keys::*;
use crate::model::*;
use crate::net::*;
use crate::sys::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

const JS: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/../mc/js");
const ADMIN: &str = "/repo/admin";
const YEARS2: u64 = 60 * 60 * 24 * 365 * 2;
const OLD: &str = "{\"certs\":[\"old\"]}";

fn id(p: P) -> String {
    peer(p).id.clone()
}
struct Parsed(BTreeMap<String, Aqua>);
// the parsed scripts are never changed
unsafe impl Send for Parsed {}
unsafe impl Sync for Parsed {}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-tools-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap_or_else(|e| unsupported(&format!("scratch directory: {e}")));
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Gen {
    script: Vec<u8>,
    api: Parsed,
}
fn load() -> Result<Gen, String> {
    let mut api = BTreeMap::new();
    for e in std::fs::read_dir(format!("{ADMIN}/aqua")).map_err(|e| format!("{ADMIN}/aqua: {e}"))? {
        let n = e.map_err(|e| e.to_string())?.file_name().to_string_lossy().to_string();
        if let Some(m) = n.strip_suffix(".aqua") {
            api.insert(m.to_string(), Aqua::load(&format!("{ADMIN}/aqua"), &n, &|s| s)?);
        }
    }
    let names: BTreeMap<&String, Vec<String>> = api.iter().map(|(m, a)| (m, a.exported())).collect();
    let s = Scratch::new();
    let out = s.0.join("out.js");
    let o = Command::new("node")
        .args([&format!("{JS}/bundle.cjs"), &format!("{ADMIN}/index.ts"), out.to_str().unwrap(), &json!(names).to_string()])
        .output()
        .unwrap_or_else(|e| unsupported(&format!("node: {e}")));
    if !o.status.success() {
        unsupported(&format!("the generator's code: {}", String::from_utf8_lossy(&o.stderr)));
    }
    Ok(Gen { script: std::fs::read(&out).map_err(|e| e.to_string())?, api: Parsed(api) })
}

const ROOT: P = 20;
const ISSUER: P = 21;
const EXAMPLE: P = 22;
const FIRST: P = 30;
const LOCAL: &str = "12D3KooWHBG9oaVx4i3vi6c1rSBUm7MLBmyGmmbHoZ23pmjDCnvK";
const ENVS: [&str; 4] = ["krasnodar", "testnet", "stage", "local"];

#[derive(Clone, Debug)]
enum Trouble {
    Nothing,
    /// the k-th service call answers with a failure
    Refused(usize),
    /// the k-th API call is not answered
    Lost(usize),
    /// a key file is missing, empty, cut or not base58
    Key(usize, usize),
    Arg(&'static str),
}
struct Ran {
    code: Option<i32>,
    written: Option<String>,
    calls: usize,
    delivered: bool,
    stderr: String,
}
fn keys_files() -> [(&'static str, P); 3] {
    [("admin/root_secret_key.ed25519", ROOT), ("admin/issuer_secret_key.ed25519", ISSUER), ("example_secret_key.ed25519", EXAMPLE)]
}
fn run(g: &Gen, env: &str, n: usize, clock: u64, old: bool, tr: &Trouble, cx: &mut Ctx) -> Result<Ran, String> {
    let s = Scratch::new();
    let at = |p: &str| -> PathBuf { s.0.join(p) };
    let put = |p: &Path, b: &[u8]| std::fs::write(p, b).unwrap_or_else(|e| unsupported(&format!("scratch file: {e}")));
    for d in ["admin", "builtin-package"] {
        std::fs::create_dir_all(at(d)).unwrap_or_else(|e| unsupported(&format!("scratch directory: {e}")));
    }
    put(&at("out.js"), &g.script);
    for (k, (f, p)) in keys_files().into_iter().enumerate() {
        let mut text = bs58::encode(peer(p).kp.secret().unwrap()).into_string();
        if let Trouble::Key(j, how) = tr {
            if *j == k {
                match how {
                    0 => continue,
                    1 => text.clear(),
                    2 => text.truncate(20),
                    _ => text.push('0'),
                }
            }
        }
        put(&at(f), text.as_bytes());
    }
    let target = at("builtin-package/on_start.json");
    if old {
        put(&target, OLD.as_bytes());
    }
    let list = |from: P, n: usize| -> Vec<String> { (0..n as P).map(|k| id(from + k)).collect() };
    let krasnodar = list(FIRST, n);
    let (stage, testnet) = (list(300, 2), list(310, 2));
    let relay = match env {
        "krasnodar" => krasnodar.first().cloned().unwrap_or_else(|| LOCAL.into()),
        "stage" => stage[0].clone(),
        "testnet" => testnet[0].clone(),
        _ => LOCAL.to_string(),
    };
    with_nodes(&[(relay.clone(), clock, Images::default())], |net| {
        net.client = id(5);
        net.client_clock = 77;
        net.relay = relay.clone();
        if let Trouble::Refused(k) = tr {
            net.fail_at = Some(*k);
        }
        let mut args = vec!["-k", "5", "120", "node", "--no-warnings", "../out.js"];
        match tr {
            Trouble::Arg("") => {}
            Trouble::Arg(a) => args.push(a),
            _ => args.push(env),
        }
        let mut child = Command::new("timeout")
            .args(args)
            .current_dir(at("admin"))
            .env("MC_CLIENT", id(5))
            .env("MC_NETWORK", json!({"krasnodar": krasnodar, "stage": stage, "testNet": testnet}).to_string())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| unsupported(&format!("node: {e}")));
        let mut stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let mut stderr = child.stderr.take().unwrap();
        let err = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut stderr, &mut s);
            s
        });
        let mut calls = 0;
        let mut delivered = false;
        for l in stdout.lines() {
            let Ok(l) = l else { break };
            let Some(req) = l.strip_prefix('\u{1}') else { continue };
            let req: Value = serde_json::from_str(req).map_err(|e| format!("harness: {e}"))?;
            let (file, f) = (req["file"].as_str().unwrap(), req["f"].as_str().unwrap());
            let a = &g.api.0[file];
            let mut args = req["args"].as_array().cloned().unwrap_or_default();
            args.truncate(a.arity(f));
            cx.op();
            let k = calls;
            calls += 1;
            let ans = match tr {
                Trouble::Lost(j) if *j == k => {
                    delivered = true;
                    json!({"error": "timed out"})
                }
                _ => {
                    let client = net.client.clone();
                    match a.call(net, &client, f, &args) {
                        Ok(v) => json!({ "ok": a.js(f, v) }),
                        Err(e) => json!({ "error": e }),
                    }
                }
            };
            if writeln!(stdin, "{ans}").and_then(|_| stdin.flush()).is_err() {
                break;
            }
        }
        drop(stdin);
        let st = child.wait().map_err(|e| e.to_string())?;
        let code = st.code();
        if code == Some(124) || code == Some(137) {
            unsupported("the generator does not end");
        }
        if let Trouble::Refused(k) = tr {
            delivered = net.fallible > *k;
        }
        let written = match std::fs::read_to_string(&target) {
            Ok(t) => Some(t),
            Err(_) => None,
        };
        Ok(Ran { code, written, calls, delivered, stderr: err.join().unwrap_or_default() })
    })
}
fn expected(n: usize, clock: u64) -> Vec<Value> {
    let t = |by: P, s: P| dto_trust(&trust(by, s, clock + YEARS2, clock));
    let mut v = vec![json!({"chain": [t(ROOT, ROOT), t(ROOT, EXAMPLE)]})];
    for k in 0..n as P {
        v.push(json!({"chain": [t(ROOT, ROOT), t(ROOT, ISSUER), t(ISSUER, FIRST + k)]}));
    }
    v
}
fn sorted(mut v: Vec<Value>) -> Vec<String> {
    v.sort_by_key(|x| x.to_string());
    v.iter().map(|x| x.to_string()).collect()
}
/// The bundle is the intended one and gives the intended trust.
fn judge_bundle(text: &str, n: usize, clock: u64, cx: &mut Ctx) -> R {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("the bundle is not JSON: {e}"))?;
    let certs = v["certs"].as_array().ok_or("the bundle has no list certs")?.clone();
    let (got, want) = (sorted(certs.clone()), sorted(expected(n, clock)));
    if got != want {
        let extra: Vec<_> = got.iter().filter(|x| !want.contains(x)).take(1).collect();
        let missing: Vec<_> = want.iter().filter(|x| !got.contains(x)).take(1).collect();
        return Err(format!("the bundle has {} certificates, expected {}; unexpected {extra:?}, missing {missing:?}", got.len(), want.len()));
    }
    incarnate(&Default::default(), |s| {
        cx.op();
        let r = s.call("set_root", json!([id(ROOT), 3]));
        if !is_success(&r) {
            return Err(format!("set_root: {r}"));
        }
        for c in &certs {
            cx.op();
            let r = s.call("insert_cert", json!([c, clock]));
            if !is_success(&r) {
                return Err(format!("a certificate of the bundle is not accepted: {r}"));
            }
        }
        let mut check = |p: P, w: u64| -> R {
            for (at, w) in [(clock, w), (clock + YEARS2 - 1, w), (clock + YEARS2, 0)] {
                cx.op();
                let r = s.call("get_weight", json!([id(p), at]));
                if r["weight"].as_u64() != Some(if p == ROOT { 8 } else { w }) {
                    return Err(format!("weight of {p} at {at} after importing the bundle is {r}, expected {w}"));
                }
            }
            Ok(())
        };
        // latest time first would collect; ask in order
        for k in 0..n as P {
            let r = s.call("get_weight", json!([id(FIRST + k), clock]));
            if r["weight"].as_u64() != Some(2) {
                return Err(format!("weight of node {k} after importing the bundle is {r}, expected 2"));
            }
        }
        check(EXAMPLE, 4)
    })
    .map(|_| ())
}
fn judge(g: &Gen, env: &str, n: usize, clock: u64, old: bool, tr: &Trouble, cx: &mut Ctx) -> Result<Ran, String> {
    let what = || format!("generator for {env}, {n} nodes, time {clock}, {tr:?}{}", if old { ", an earlier bundle exists" } else { "" });
    let r = run(g, env, n, clock, old, tr, cx).map_err(|e| format!("{e}\n  {}", what()))?;
    let before = if old { Some(OLD.to_string()) } else { None };
    let troubled = match tr {
        Trouble::Nothing => false,
        Trouble::Refused(_) | Trouble::Lost(_) => r.delivered,
        _ => true,
    };
    let res: R = if troubled {
        if r.written != before {
            Err(format!("a bundle was written although the run could not succeed: {:.300}", r.written.as_deref().unwrap_or("(removed)")))
        } else if r.code == Some(0) {
            Err("the run could not succeed but is reported as a success".into())
        } else {
            Ok(())
        }
    } else if r.code != Some(0) {
        Err(format!("the generator fails: {:.300}", r.stderr))
    } else {
        match &r.written {
            None => Err("no bundle was written".into()),
            Some(t) => judge_bundle(t, n, clock, cx),
        }
    };
    cx.outcome(&(troubled, r.code));
    cx.state(&(env, n, clock, old, format!("{tr:?}")));
    cx.nontrivial(&(env, n, clock, old, format!("{tr:?}")));
    cx.sample(what);
    res.map_err(|e| format!("{e}\n  {}", what()))?;
    Ok(r)
}
pub fn generator(th: bool) -> Vec<Box<dyn Family>> {
    let g = match load() {
        Ok(g) => Arc::new(g),
        Err(e) => return vec![fam("generator-files", "the generator's files can be read", 1, move |_, _| Err(e.clone()))],
    };
    let mut out: Vec<Box<dyn Family>> = vec![];
    let clocks: Vec<u64> = vec![0, 1, 100, 1_700_000_000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40];
    let sizes: Vec<usize> = if th { (0..=12).chain([20, 29]).collect() } else { vec![0, 1, 2, 3, 5, 9] };
    let (nc, ns) = (clocks.len() as u64, sizes.len() as u64);
    let (g1, s1) = (g.clone(), sizes.clone());
    out.push(fam(
        "bundles",
        &format!("generator: every network, {sizes:?} nodes, node clocks {clocks:?}, with and without an earlier bundle; the bundle compared with the intended one and imported"),
        4 * ns * nc * 2,
        move |i, cx| {
            let d = digits(i, &[4, ns, nc, 2]);
            let (env, n) = (ENVS[d[0]], s1[d[1]]);
            if env == "krasnodar" && n == 0 {
                return Ok(());
            }
            judge(&g1, env, n, clocks[d[2]], d[3] == 1, &Trouble::Nothing, cx).map(|_| ())
        },
    ));
    let big: Vec<usize> = if th { vec![33, 64, 65, 100, 101, 128, 129, 200, 256, 257] } else { vec![33, 65, 101, 129] };
    let (g4, nb) = (g.clone(), big.len() as u64);
    out.push(fam(
        "large-networks",
        &format!("generator: every network, {big:?} nodes, with and without an earlier bundle; the bundle compared with the intended one and imported"),
        4 * nb * 2,
        move |i, cx| {
            let d = digits(i, &[4, nb, 2]);
            judge(&g4, ENVS[d[0]], big[d[1]], 1_700_000_000, d[2] == 1, &Trouble::Nothing, cx).map(|_| ())
        },
    ));
    let max: usize = if th { 9 } else { 4 };
    let g2 = g.clone();
    out.push(fam(
        "failures",
        &format!("generator: every network of up to {max} nodes, every service call answered with a failure and every API call lost, with and without an earlier bundle"),
        4 * (max as u64 + 1) * 2 * 2,
        move |i, cx| {
            let d = digits(i, &[4, max as u64 + 1, 2, 2]);
            let (env, n) = (ENVS[d[0]], d[1]);
            if env == "krasnodar" && n == 0 {
                return Ok(());
            }
            for k in 0.. {
                let tr = if d[2] == 0 { Trouble::Refused(k) } else { Trouble::Lost(k) };
                let r = judge(&g2, env, n, 1_700_000_000, d[3] == 1, &tr, cx)?;
                if !r.delivered {
                    break;
                }
            }
            Ok(())
        },
    ));
    let g3 = g;
    let args = ["", "Krasnodar", "test", "krasnodar ", "prod", "--help"];
    out.push(fam(
        "inputs",
        "generator: each key file missing, empty, cut or not base58, and unknown networks, with and without an earlier bundle",
        2 * (12 + args.len() as u64),
        move |i, cx| {
            let d = digits(i, &[2, 12 + args.len() as u64]);
            let tr = if d[1] < 12 { Trouble::Key(d[1] / 4, d[1] % 4) } else { Trouble::Arg(args[d[1] - 12]) };
            judge(&g3, "krasnodar", 2, 1_700_000_000, d[0] == 1, &tr, cx).map(|r| {
                let _ = r.calls;
            })
        },
    ));
    out
}

// ---------------------------------------------------------------- C29

const CLIENT: P = 5;
const RELAY: P = 6;
const NODE: P = 7;
/// Run trusted_computation and compare with what the relay's graph says.
fn compute(a: &Aqua, pairs: &[(P, P)], rel: &[usize], exps: &[u64], target: P, clock: u64, fail: bool, cx: &mut Ctx) -> R {
    with_nodes(&[(id(RELAY), 100, Images::default()), (id(NODE), 100, Images::default())], |net| {
        net.client = id(CLIENT);
        net.creator = OWNER.into();
        net.relay = id(RELAY);
        let mut ops = vec![Op::Root { p: 0, len: 9, owner: true }, Op::Trust(link(0, 0, 5000, 10))];
        // in an order in which every trust comes from somebody reachable from the root
        let (mut open, mut todo): (Vec<P>, Vec<usize>) = (vec![0], (0..pairs.len()).collect());
        while let Some(k) = todo.iter().position(|&k| open.contains(&pairs[k].0)) {
            let k = todo.remove(k);
            let (b, s) = pairs[k];
            if rel[k] == 1 {
                ops.push(Op::Trust(link(b, s, exps[k], 20)));
                open.push(s);
            }
        }
        for (k, (b, s)) in pairs.iter().enumerate() {
            if rel[k] == 2 {
                ops.push(Op::Revoke { by: *b, subj: *s, at: 30, mangle: Mangle::None });
            }
        }
        let mut w = World::at(100);
        for o in &ops {
            w.apply(o, true);
        }
        let (ops2, shown) = (ops.clone(), ops.clone());
        net.on(0, cx, move |s, cx| {
            let mut w = World::at(100);
            for o in &ops2 {
                step(s, &mut w, o, true, cx)?;
            }
            Ok(())
        })?;
        for k in 0..2 {
            net.nodes[k].clock = clock;
        }
        w.g.gc(clock);
        let certs = w.g.certs(target);
        let trusted = !Model::scoped(&certs, CLIENT).is_empty();
        let go = |net: &mut Net, k: Option<usize>, cx: &mut Ctx| -> Result<bool, String> {
            net.fail_at = k;
            net.fallible = 0;
            net.log.clear();
            cx.op();
            let client = id(CLIENT);
            let r = a.call(net, &client, "trusted_computation", &[json!(id(target))])?;
            let done: Vec<&Made> = net.log.iter().filter(|m| m.service == "op" && m.f == "identity").collect();
            let failed = k.map_or(false, |k| net.fallible > k);
            let want = trusted && !failed;
            cx.outcome(&(trusted, failed, done.len()));
            if done.iter().any(|m| m.peer != id(target)) {
                return Err("the computation was run on another peer".into());
            }
            if (done.len() == 1) != want || done.len() > 1 {
                return Err(format!("the computation was run {} times; the relay {} the node{}", done.len(), if trusted { "trusts" } else { "does not trust" }, if failed { " but the query failed" } else { "" }));
            }
            let (res, err) = (r[0].as_array().map_or(0, |a| a.len()), r[1].as_array().map_or(0, |a| a.len()));
            if (res, err) != if want { (1, 0) } else { (0, 1) } {
                return Err(format!("answer {r:?}, computation {}", if want { "run" } else { "not run" }));
            }
            if want && r[0][0] != json!(5) {
                return Err(format!("answer {r:?}"));
            }
            Ok(failed)
        };
        let err = |e: String| format!("{e}\n  {shown:?}, asked for {target} at {clock}");
        go(net, None, cx).map_err(err)?;
        if fail {
            for k in 0.. {
                if !go(net, Some(k), cx).map_err(err)? {
                    break;
                }
            }
        }
        cx.state(&w);
        if trusted {
            cx.nontrivial(&(&w, target, clock));
        }
        cx.sample(|| format!("{shown:?} asked for {target}"));
        Ok(())
    })
}
pub fn computation(th: bool) -> Vec<Box<dyn Family>> {
    let a = match Aqua::load("/repo/example/aqua", "computation.aqua", &|s| s) {
        Ok(a) => Arc::new(Parsed([("c".to_string(), a)].into())),
        Err(e) => return vec![fam("computation-files", "the example's Aqua files can be read", 1, move |_, _| Err(e.clone()))],
    };
    let mut out: Vec<Box<dyn Family>> = vec![];
    let pairs: Vec<(P, P)> = if th {
        vec![(0, CLIENT), (CLIENT, NODE), (0, NODE), (CLIENT, 1), (1, NODE), (NODE, CLIENT), (CLIENT, RELAY), (0, 1)]
    } else {
        vec![(0, CLIENT), (CLIENT, NODE), (0, NODE), (CLIENT, 1), (1, NODE), (NODE, CLIENT), (CLIENT, RELAY)]
    };
    let n = 3u64.pow(pairs.len() as u32);
    let (a1, p1) = (a.clone(), pairs.clone());
    out.push(fam(
        "computation-graphs",
        &format!("example: every relation (none, trust, revocation) of the pairs {pairs:?} on the relay, computation asked for on another node and on the relay itself, every service call failing in turn"),
        n * 2,
        move |i, cx| {
            let d = digits(i, &[n, 2]);
            let rel = digits(d[0] as u64, &vec![3; p1.len()]);
            compute(&a1.0["c"], &p1, &rel, &vec![1000; p1.len()], [NODE, RELAY][d[1]], 100, true, cx)
        },
    ));
    let dates = [100u64, 101, 150, 1000];
    let pairs: Vec<(P, P)> = vec![(0, CLIENT), (CLIENT, NODE), (CLIENT, 1), (1, NODE)];
    out.push(fam(
        "computation-times",
        &format!("example: trusts of {pairs:?} with every assignment of expiry dates {dates:?}, asked at times around each of them"),
        256 * 7,
        move |i, cx| {
            let d = digits(i, &[4, 4, 4, 4, 7]);
            let exps: Vec<u64> = d[..4].iter().map(|&k| dates[k]).collect();
            compute(&a.0["c"], &pairs, &[1; 4], &exps, NODE, [100, 101, 102, 149, 150, 999, 1000][d[4]], false, cx)
        },
    ));
    out
}
