//! The shipped root and certificates (C23).
use crate::common::*;
use crate::sys::*;
use fluence_keypair::PublicKey;
use libp2p_identity::PeerId;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::str::FromStr;
use std::sync::Arc;
use trust_graph::{Certificate, Trust};

struct Bundle {
    root: String,
    max: u64,
    certs: Vec<Value>,
    on_start: Vec<Value>,
    /// last peer of every chain -> number of hops of its shortest shipped chain
    dist: BTreeMap<String, usize>,
    from: u64,
    until: u64,
}
fn repo(path: &str) -> Result<String, String> {
    std::fs::read_to_string(format!("/repo/{path}")).map_err(|e| format!("{path}: {e}"))
}
fn load() -> Result<Bundle, String> {
    let d: Value = serde_json::from_str(&repo("distro/init_certs.json")?).map_err(|e| format!("distro/init_certs.json: {e}"))?;
    let b: Value = serde_json::from_str(&repo("builtin-package/on_start.json")?).map_err(|e| format!("builtin-package/on_start.json: {e}"))?;
    let certs = d["certs"].as_array().cloned().ok_or("distro/init_certs.json lists no certificates")?;
    let on_start = b["certs"].as_array().cloned().ok_or("builtin-package/on_start.json lists no certificates")?;
    let mut dist = BTreeMap::new();
    let (mut from, mut until) = (0, u64::MAX);
    for c in &certs {
        let ch = c["chain"].as_array().ok_or("certificate without chain")?;
        for (k, t) in ch.iter().enumerate() {
            let id = t["issued_for"].as_str().ok_or("trust without subject")?.to_string();
            let e = dist.entry(id).or_insert(k);
            *e = (*e).min(k);
            from = from.max(t["issued_at"].as_u64().ok_or("trust without issue date")?);
            until = until.min(t["expires_at"].as_u64().ok_or("trust without expiry date")?);
        }
    }
    Ok(Bundle {
        root: d["root_node"].as_str().ok_or("no root_node")?.into(),
        max: d["max_chain_length"].as_u64().ok_or("no max_chain_length")?,
        certs,
        on_start,
        dist,
        from,
        until,
    })
}
fn to_cert(v: &Value) -> Result<Certificate, String> {
    let mut chain = vec![];
    for t in v["chain"].as_array().ok_or("no chain")? {
        let s = |f: &str| t[f].as_str().map(String::from).ok_or(format!("trust without {f}: {t}"));
        let pk = PublicKey::try_from(PeerId::from_str(&s("issued_for")?).map_err(|e| format!("{e:?}"))?).map_err(|e| e.to_string())?;
        let kf = fluence_keypair::KeyFormat::from_str(&s("sig_type")?).map_err(|e| e.to_string())?;
        let sig = fluence_keypair::Signature::from_bytes(kf, bs58::decode(s("signature")?).into_vec().map_err(|e| e.to_string())?);
        let n = |f: &str| t[f].as_u64().map(crate::keys::secs).ok_or(format!("trust without {f}"));
        chain.push(Trust::new(pk, n("expires_at")?, n("issued_at")?, sig));
    }
    Ok(Certificate::new_unverified(chain))
}
fn check_files(b: &Bundle, cx: &mut Ctx) -> R {
    if b.certs != b.on_start {
        return Err("distro/init_certs.json and builtin-package/on_start.json ship different certificates".into());
    }
    if b.from >= b.until {
        return Err("there is no time at which all shipped trusts are valid".into());
    }
    let root = PublicKey::try_from(PeerId::from_str(&b.root).map_err(|e| format!("{e:?}"))?).map_err(|e| e.to_string())?;
    for (k, c) in b.certs.iter().enumerate() {
        let cert = to_cert(c).map_err(|e| format!("shipped certificate {k}: {e}"))?;
        if cert.chain.len() < 2 || cert.chain.len() as u64 - 1 > b.max {
            return Err(format!("shipped certificate {k} has {} trusts, the maximum chain length is {}", cert.chain.len(), b.max));
        }
        for now in [b.from, b.from + 1, (b.from + b.until) / 2, b.until - 1] {
            cx.op();
            Certificate::verify(&cert, &[root.clone()], crate::keys::secs(now)).map_err(|e| format!("shipped certificate {k} does not verify at {now}: {e}"))?;
        }
        for t in &cert.chain {
            if t.issued_at >= t.expires_at {
                return Err(format!("shipped certificate {k} contains a trust that is never valid"));
            }
        }
        cx.nontrivial(&k);
        cx.state(&c.to_string());
        cx.sample(|| format!("certificate {k}: {} trusts", cert.chain.len()));
    }
    Ok(())
}
fn set_root(b: &Bundle) -> Value {
    raw_call("set_root", &json!([b.root, b.max]), params("set_root", 2, HOST))
}
fn judge(s: &Svc, b: &Bundle, listed: &BTreeMap<String, usize>, now: u64, cx: &mut Ctx) -> R {
    for (id, d) in b.dist.iter() {
        cx.op();
        let v = s.call("get_weight", json!([id, now]));
        consistent(&v)?;
        let want = match listed.get(id) {
            Some(_) if *id == b.root => 1u64 << b.max,
            _ if *id == b.root => 1u64 << b.max,
            Some(_) if now < b.until => 1u64 << (b.max - *d as u64),
            _ => 0,
        };
        cx.outcome(&(id, want, now));
        if v["weight"].as_u64() != Some(want) {
            return Err(format!("weight of {id} at {now} is {}, expected {want}", v["weight"]));
        }
    }
    Ok(())
}
/// Import the certificates in the given order; every listed peer has the weight of its distance.
fn import(b: &Bundle, order: &[usize], times: &[u64], text: bool, restart: bool, cx: &mut Ctx) -> R {
    let mut listed = BTreeMap::new();
    let mut im = Images::default();
    for (step, &k) in order.iter().enumerate() {
        let now = times[step % times.len()];
        if step == 0 || restart {
            // (re)started service
        }
        let go = |s: &mut Svc, cx: &mut Ctx| -> R {
            cx.op();
            let c = &b.certs[k];
            let v = if text { s.call("insert_cert_raw", json!([to_cert(c)?.to_string(), now])) } else { s.call("insert_cert", json!([c, now])) };
            if !is_success(&v) {
                return Err(format!("shipped certificate {k} is refused at {now}: {v}"));
            }
            Ok(())
        };
        for (d, t) in b.certs[k]["chain"].as_array().unwrap().iter().enumerate() {
            listed.insert(t["issued_for"].as_str().unwrap().to_string(), d);
        }
        let last = step + 1 == order.len();
        if restart || step == 0 {
            let rest: Vec<usize> = if restart { vec![] } else { order[1..].to_vec() };
            let r = incarnate(&im, |s| {
                let v = set_root(b);
                if !is_success(&v) {
                    return Err(format!("the shipped root is refused: {v}"));
                }
                go(s, cx)?;
                let mut li = listed.clone();
                let mut t = now;
                for (j, &k2) in rest.iter().enumerate() {
                    t = times[(j + 1) % times.len()].max(t);
                    let c = &b.certs[k2];
                    cx.op();
                    let v = if text { s.call("insert_cert_raw", json!([to_cert(c)?.to_string(), t])) } else { s.call("insert_cert", json!([c, t])) };
                    if !is_success(&v) {
                        return Err(format!("shipped certificate {k2} is refused at {t}: {v}"));
                    }
                    for (d, x) in c["chain"].as_array().unwrap().iter().enumerate() {
                        li.insert(x["issued_for"].as_str().unwrap().to_string(), d);
                    }
                }
                if last || !rest.is_empty() || order.len() == 1 {
                    judge(s, b, &li, t, cx)?;
                    cx.state(&(order, t));
                    for at in [b.until - 1, b.until, b.until + 1] {
                        judge(s, b, &li, at, cx)?;
                    }
                }
                Ok(())
            })?;
            im = r.1;
            if !restart {
                return Ok(());
            }
        }
    }
    Ok(())
}
/// What the distribution package hands its users, or why it could not be built here.
fn package() -> Result<Value, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let base = exe.parent().and_then(|p| p.parent()).ok_or("no build folder")?.join("distro");
    let src = base.join("package");
    let _ = std::fs::remove_dir_all(&src);
    let io = |e: std::io::Error| e.to_string();
    fn copy(from: &std::path::Path, to: &std::path::Path) -> std::io::Result<()> {
        std::fs::create_dir_all(to)?;
        for e in std::fs::read_dir(from)? {
            let p = e?.path();
            let q = to.join(p.file_name().unwrap_or_default());
            if p.is_dir() {
                copy(&p, &q)?;
            } else {
                std::fs::write(q, std::fs::read(&p)?)?;
            }
        }
        Ok(())
    }
    copy(std::path::Path::new("/repo/distro/src"), &src.join("src")).map_err(io)?;
    let put = |name: &str, text: &str| std::fs::write(src.join(name), text).map_err(io);
    put("Cargo.toml", include_str!("../../distro/Cargo.toml"))?;
    put("Cargo.lock", include_str!("../../distro/Cargo.lock"))?;
    put("build.rs", include_str!("../../distro/build.rs"))?;
    put("dump.rs", include_str!("../../distro/dump.rs"))?;
    std::fs::create_dir_all(src.join("trust-graph-service")).map_err(io)?;
    for f in ["Config.toml", "init_certs.json"] {
        put(&format!("trust-graph-service/{f}"), &repo(&format!("distro/{f}"))?)?;
    }
    for f in ["sqlite3", "trust-graph"] {
        put(&format!("trust-graph-service/{f}.wasm"), &format!("stand-in for {f}"))?;
    }
    let o = std::process::Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--manifest-path"])
        .arg(src.join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", base.join("target"))
        .output()
        .map_err(io)?;
    if !o.status.success() {
        return Err(format!("not built: {}", String::from_utf8_lossy(&o.stderr).lines().find(|l| l.starts_with("error")).unwrap_or_default()));
    }
    let o = std::process::Command::new(base.join("target/debug/dump")).output().map_err(io)?;
    if !o.status.success() {
        return Ok(json!({"crash": String::from_utf8_lossy(&o.stderr)}));
    }
    serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())
}
fn check_package(cx: &mut Ctx) -> R {
    cx.op();
    let v = match package() {
        Ok(v) => v,
        Err(e) => {
            cx.sample(|| format!("the distribution package could not be looked at: {e}"));
            return Ok(());
        }
    };
    if !v["crash"].is_null() {
        return Err(format!("the distribution package crashes: {}", v["crash"]));
    }
    let d: Value = serde_json::from_str(&repo("distro/init_certs.json")?).map_err(|e| e.to_string())?;
    for f in ["root_node", "max_chain_length", "certs"] {
        if v[f] != d[f] {
            return Err(format!("the distribution package gives another {f} than distro/init_certs.json: {}", v[f]));
        }
    }
    if v["modules"] != json!({"sqlite3": "stand-in for sqlite3", "trust-graph": "stand-in for trust-graph"}) {
        return Err(format!("the distribution package confuses its modules: {}", v["modules"]));
    }
    if v["config"].as_str() != Some(&repo("distro/Config.toml")?) {
        return Err(format!("the distribution package gives another configuration: {}", v["config"]));
    }
    cx.nontrivial(&v.to_string());
    cx.sample(|| "the distribution package gives the shipped root, certificates, modules and configuration".into());
    Ok(())
}
pub fn shipped(th: bool) -> Vec<Box<dyn Family>> {
    let b = match load() {
        Ok(b) => Arc::new(b),
        Err(e) => return vec![fam("shipped-files", "the shipped files can be read", 1, move |_, _| Err(e.clone()))],
    };
    let n = b.certs.len();
    let mut out: Vec<Box<dyn Family>> = vec![];
    let bb = b.clone();
    out.push(fam("shipped-files", "every shipped certificate and both files", 1, move |_, cx| check_files(&bb, cx)));
    out.push(fam("package", "what the distribution package itself hands out: root, certificates, modules (stand-ins for the wasm files), configuration", 1, |_, cx| check_package(cx)));
    // the start script, at all boundary times
    let bb = b.clone();
    let times = vec![b.from, b.from + 1, (b.from + b.until) / 2, b.until - 2, b.until - 1];
    let nt = times.len();
    out.push(fam("whole-bundle", "the whole bundle imported in shipped order, reversed and rotated, once and twice, at every boundary time, as records and as text, in one run and with a restart before each import", (nt * (n + 1) * 8) as u64, move |i, cx| {
        let d = digits(i, &[nt as u64, n as u64 + 1, 2, 2, 2]);
        let mut order: Vec<usize> = (0..n).collect();
        if d[1] == n {
            order.reverse();
        } else {
            order.rotate_left(d[1]);
        }
        if d[2] == 1 {
            order.extend(order.clone());
        }
        cx.nontrivial(&i);
        cx.sample(|| format!("{order:?} at {}", times[d[0]]));
        import(&bb, &order, &[times[d[0]]], d[3] == 1, d[4] == 1, cx)
    }));
    // all ordered selections
    let bb = b.clone();
    let k = if th { 4 } else { 3 };
    let nn = n as u64;
    out.push(fam("import-orders", &format!("every sequence of up to {k} shipped certificates, repetitions included"), (1..=k).map(|d| nn.pow(d)).sum(), move |i, cx| {
        let (mut i, mut d) = (i, 1);
        while i >= nn.pow(d) {
            i -= nn.pow(d);
            d += 1;
        }
        let order = digits(i, &vec![nn; d as usize]);
        cx.nontrivial(&order);
        import(&bb, &order, &[bb.from, bb.until - 1], false, false, cx)
    }));
    // before the root is set nothing takes effect, afterwards everything does
    let bb = b.clone();
    out.push(fam("root-later", "every shipped certificate imported before the root is set has no effect and can be imported afterwards; setting the root again changes nothing", n as u64, move |i, cx| {
        let b = &bb;
        let c = &b.certs[i as usize];
        let now = b.from + 1;
        incarnate(&Default::default(), |s| {
            s.call("insert_cert", json!([c, now]));
            for id in b.dist.keys() {
                cx.op();
                let v = s.call("get_weight", json!([id, now]));
                if v["weight"].as_u64() != Some(0) {
                    return Err(format!("{id} has weight {} without a root", v["weight"]));
                }
            }
            set_root(b);
            s.call("insert_cert", json!([c, now]));
            set_root(b);
            let mut li = BTreeMap::new();
            for (d, x) in c["chain"].as_array().unwrap().iter().enumerate() {
                li.insert(x["issued_for"].as_str().unwrap().to_string(), d);
            }
            cx.nontrivial(&i);
            judge(s, b, &li, now, cx)?;
            // the certificate comes back
            let last = c["chain"].as_array().unwrap().last().unwrap()["issued_for"].clone();
            let v = s.call("get_all_certs", json!([last, now]));
            if !v["certificates"].as_array().map_or(false, |x| x.contains(c)) {
                return Err(format!("shipped certificate {i} is not returned for its peer: {v}"));
            }
            Ok(())
        })
        .map(|_| ())
    }));
    let dist: Vec<(String, usize)> = b.dist.iter().map(|(k, v)| (k.clone(), *v)).collect();
    out.extend(super::scripts::start_script(b.root.clone(), b.max, dist, b.from, b.until));
    out
}
