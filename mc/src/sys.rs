//! Drivers: the real library and the real service behind one interface.
use crate::common::*;
use crate::keys::*;
use crate::memstore::Mem;
use crate::model::*;
use fluence_keypair::Signature;
use marine_rs_sdk::{CallParameters, SecurityTetraplet};
use marine_sqlite_connector::control::{self};
pub use marine_sqlite_connector::{control as db, Fault, Images};
use serde_json::{json, Value};
use std::str::FromStr;
use trust_graph::{Certificate, Revocation, Trust, TrustGraph};

// ---------------------------------------------------------------- statements

fn flip(sig: &Signature) -> Signature {
    let mut b = sig.encode();
    let i = b.len() - 3;
    b[i] ^= 1;
    Signature::decode(b).unwrap()
}

/// The trust object a link stands for.
pub fn build(l: &Link) -> Trust {
    let signer = if let Mangle::Signer(s) = l.mangle { s } else { l.by };
    let mut t = trust(signer, l.subj, l.exp, l.iat);
    match l.mangle {
        Mangle::SigBit => t.signature = flip(&t.signature),
        Mangle::Exp(e) => t.expires_at = secs(e),
        Mangle::Iat(i) => t.issued_at = secs(i),
        Mangle::Subject(s) => t.issued_for = peer(s).pk.clone(),
        _ => {}
    }
    t
}
pub fn build_rev(by: P, subj: P, at: u64, m: Mangle) -> Revocation {
    let mut r = match m {
        Mangle::Signer(s) => {
            let mut r = revocation(s, subj, at);
            r.revoked_by = peer(by).pk.clone();
            r
        }
        _ => revocation(by, subj, at),
    };
    match m {
        Mangle::SigBit => r.signature = flip(&r.signature),
        Mangle::Iat(i) => r.revoked_at = secs(i),
        Mangle::Subject(s) => r.pk = peer(s).pk.clone(),
        _ => {}
    }
    r
}
pub fn build_cert(chain: &[Link]) -> Certificate {
    Certificate::new_unverified(chain.iter().map(build).collect())
}

/// Identify a returned certificate; every trust must be the genuine one of the preceding peer.
pub fn conv(c: &Certificate) -> Result<Cert, String> {
    let mut out = vec![];
    let mut issuer: Option<P> = None;
    for t in &c.chain {
        let s = by_pk(&t.issued_for).ok_or("certificate names an unknown key")?;
        let by = issuer.unwrap_or(s);
        let (exp, iat) = (t.expires_at.as_secs(), t.issued_at.as_secs());
        if trust(by, s, exp, iat) != *t {
            return Err(format!("certificate contains a trust {by}->{s} exp={exp} iat={iat} that {by} never issued"));
        }
        out.push((by, s, exp, iat));
        issuer = Some(s);
    }
    Ok(out)
}

pub trait Sys {
    fn apply(&mut self, op: &Op, now: u64) -> Out;
    fn certs(&mut self, p: P, now: u64) -> Result<Vec<Cert>, String>;
    fn weight(&mut self, p: P, now: u64) -> Result<u32, String>;
    fn certs_from(&mut self, p: P, issuer: P, now: u64) -> Result<Vec<Cert>, String>;
    fn weight_from(&mut self, p: P, issuer: P, now: u64) -> Result<u32, String>;
    fn revocations(&mut self, p: P) -> Result<Vec<(P, u64)>, String>;
    /// certificates of `p` when `p` hosts the service
    fn host(&mut self, _p: P, _issuer: Option<P>, _now: u64) -> Option<Result<Vec<Cert>, String>> {
        None
    }
}

// ---------------------------------------------------------------- library

pub struct Lib {
    pub tg: TrustGraph<Mem>,
    pub mem: Mem,
}
impl Lib {
    pub fn new() -> Self {
        let mem = Mem::default();
        Lib { tg: TrustGraph::new(mem.clone()), mem }
    }
    pub fn with(mem: Mem) -> Self {
        Lib { tg: TrustGraph::new(mem.clone()), mem }
    }
}
fn sorted(cs: Vec<Certificate>) -> Result<Vec<Cert>, String> {
    let mut v = cs.iter().map(conv).collect::<Result<Vec<_>, _>>()?;
    v.sort();
    Ok(v)
}
pub fn conv_revs(rs: &[Revocation]) -> Result<Vec<(P, u64)>, String> {
    let mut v = vec![];
    for r in rs {
        let b = by_pk(&r.revoked_by).ok_or("unknown revoker")?;
        let s = by_pk(&r.pk).ok_or("unknown revoked")?;
        let at = r.revoked_at.as_secs();
        if revocation(b, s, at).signature != r.signature {
            return Err(format!("listed revocation {b}->{s} at {at} was never issued"));
        }
        v.push((b, at));
    }
    v.sort();
    Ok(v)
}
impl Sys for Lib {
    fn apply(&mut self, op: &Op, now: u64) -> Out {
        let now = secs(now);
        match op {
            Op::Root { p, len, .. } => match self.tg.set_root(peer(*p).pk.clone(), *len) {
                Ok(()) => Out::Ok,
                Err(_) => Out::Err,
            },
            Op::Trust(l) => match self.tg.add_trust(build(l), peer(l.by).pk.clone(), now) {
                Ok(w) => Out::Weight(w),
                Err(_) => Out::Err,
            },
            Op::Revoke { by, subj, at, mangle } => match self.tg.revoke(build_rev(*by, *subj, *at, *mangle)) {
                Ok(()) => Out::Ok,
                Err(_) => Out::Err,
            },
            Op::Import { chain, via } => {
                let c = build_cert(chain);
                let c = match via {
                    Via::Value => c,
                    _ => match Certificate::from_str(&c.to_string()) {
                        Ok(c) => c,
                        Err(_) => return Out::Err,
                    },
                };
                match self.tg.add(c, now) {
                    Ok(()) => Out::Ok,
                    Err(_) => Out::Err,
                }
            }
            Op::Time(_) | Op::Restart => Out::Ok,
        }
    }
    fn certs(&mut self, p: P, now: u64) -> Result<Vec<Cert>, String> {
        sorted(self.tg.get_all_certs(peer(p).pk.clone(), secs(now)).map_err(|e| e.to_string())?)
    }
    fn weight(&mut self, p: P, now: u64) -> Result<u32, String> {
        self.tg.weight(peer(p).pk.clone(), secs(now)).map_err(|e| e.to_string())
    }
    fn certs_from(&mut self, p: P, i: P, now: u64) -> Result<Vec<Cert>, String> {
        sorted(self.tg.get_all_certs_from(peer(p).pk.clone(), peer(i).pk.clone(), secs(now)).map_err(|e| e.to_string())?)
    }
    fn weight_from(&mut self, p: P, i: P, now: u64) -> Result<u32, String> {
        self.tg.weight_from(peer(p).pk.clone(), peer(i).pk.clone(), secs(now)).map_err(|e| e.to_string())
    }
    fn revocations(&mut self, p: P) -> Result<Vec<(P, u64)>, String> {
        conv_revs(&self.tg.get_revocations(peer(p).pk.clone()).map_err(|e| e.to_string())?)
    }
}

// ---------------------------------------------------------------- service

macro_rules! exports { ($($f:ident = $e:ident),* $(,)?) => {
    extern "Rust" { $(fn $e(args: &str) -> String;)* }
    pub const FUNCTIONS: &[&str] = &[$(stringify!($f)),*];
    fn dispatch(f: &str, args: &str) -> String {
        match f { $(stringify!($f) => unsafe { $e(args) },)* _ => panic!("harness: no function {f}") }
    }
} }
exports! {
    set_root = __marine_export_set_root, insert_cert_raw = __marine_export_insert_cert_raw,
    insert_cert = __marine_export_insert_cert, get_all_certs = __marine_export_get_all_certs,
    get_all_certs_from = __marine_export_get_all_certs_from, get_host_certs = __marine_export_get_host_certs,
    get_host_certs_from = __marine_export_get_host_certs_from, get_weight = __marine_export_get_weight,
    get_weight_from = __marine_export_get_weight_from, get_trust_bytes = __marine_export_get_trust_bytes,
    issue_trust = __marine_export_issue_trust, verify_trust = __marine_export_verify_trust,
    add_trust = __marine_export_add_trust, get_revocation_bytes = __marine_export_get_revocation_bytes,
    issue_revocation = __marine_export_issue_revocation, revoke = __marine_export_revoke,
    export_revocations = __marine_export_export_revocations,
}

pub const HOST: &str = "12D3KooWHostOfTheService";
pub const OWNER: &str = "12D3KooWOwnerOfTheService";

pub fn good_origin(host: &str) -> SecurityTetraplet {
    SecurityTetraplet::new(host, "peer", "timestamp_sec", "")
}
/// Index of the time argument of each time-dependent function.
pub fn time_arg(f: &str) -> Option<usize> {
    match f {
        "get_host_certs" => Some(0),
        "insert_cert_raw" | "insert_cert" | "get_all_certs" | "get_host_certs_from" | "get_weight" | "revoke" => Some(1),
        "get_all_certs_from" | "get_weight_from" | "verify_trust" | "add_trust" => Some(2),
        _ => None,
    }
}
/// Call parameters of a well-behaved caller: only the time argument comes from the host clock.
pub fn params(f: &str, nargs: usize, host: &str) -> CallParameters {
    let lit = SecurityTetraplet::new(OWNER, "", "", "");
    let mut tetraplets = vec![vec![lit]; nargs];
    if let Some(i) = time_arg(f) {
        tetraplets[i] = vec![good_origin(host)];
    }
    CallParameters {
        init_peer_id: OWNER.into(),
        service_id: "trust-graph".into(),
        service_creator_peer_id: OWNER.into(),
        host_id: host.into(),
        particle_id: "p".into(),
        tetraplets,
    }
}
pub fn raw_call(f: &str, args: &Value, cp: CallParameters) -> Value {
    marine_rs_sdk::__set_call_parameters(cp);
    serde_json::from_str(&dispatch(f, &args.to_string())).expect("harness: result is not JSON")
}

/// Handle of the service incarnation living on the current thread.
pub struct Svc {
    pub host: String,
}
pub fn dto_trust(t: &Trust) -> Value {
    let raw = t.signature.get_raw_signature();
    json!({"issued_for": t.issued_for.to_peer_id().to_base58(), "expires_at": t.expires_at.as_secs(),
        "signature": bs58::encode(raw.bytes).into_string(), "sig_type": String::from(raw.sig_type), "issued_at": t.issued_at.as_secs()})
}
pub fn dto_rev(r: &Revocation) -> Value {
    let raw = r.signature.get_raw_signature();
    json!({"revoked_peer_id": r.pk.to_peer_id().to_base58(), "revoked_at": r.revoked_at.as_secs(),
        "signature": bs58::encode(raw.bytes).into_string(), "sig_type": String::from(raw.sig_type),
        "revoked_by": r.revoked_by.to_peer_id().to_base58()})
}
pub fn dto_cert(c: &Certificate) -> Value {
    json!({"chain": c.chain.iter().map(dto_trust).collect::<Vec<_>>()})
}
/// Identify a certificate record; every field must be that of the genuine trust.
pub fn conv_dto_cert(v: &Value) -> Result<Cert, String> {
    let mut out = vec![];
    let mut issuer: Option<P> = None;
    for t in v["chain"].as_array().ok_or("record without chain")? {
        let s = by_id(t["issued_for"].as_str().unwrap_or("")).ok_or(format!("record names an unknown peer: {t}"))?;
        let by = issuer.unwrap_or(s);
        let exp = t["expires_at"].as_u64().ok_or("no expires_at")?;
        let iat = t["issued_at"].as_u64().ok_or("no issued_at")?;
        if dto_trust(&trust(by, s, exp, iat)) != *t {
            return Err(format!("certificate record contains a trust {by}->{s} exp={exp} iat={iat} that {by} never issued: {t}"));
        }
        out.push((by, s, exp, iat));
        issuer = Some(s);
    }
    Ok(out)
}
pub fn is_success(v: &Value) -> bool {
    v["success"].as_bool().unwrap_or(false)
}
/// success, or an error carrying a reason and no data
pub fn consistent(v: &Value) -> R {
    let s = v["success"].as_bool().ok_or_else(|| format!("result without success flag: {v}"))?;
    let e = v["error"].as_str().ok_or_else(|| format!("result without error text: {v}"))?;
    if s != e.is_empty() {
        return Err(format!("success flag and error text disagree: {v}"));
    }
    Ok(())
}

impl Svc {
    pub fn new() -> Self {
        Svc { host: HOST.into() }
    }
    pub fn call(&self, f: &str, args: Value) -> Value {
        let n = args.as_array().unwrap().len();
        raw_call(f, &args, params(f, n, &self.host))
    }
    fn certs_of(&self, v: Value) -> Result<Vec<Cert>, String> {
        consistent(&v)?;
        if !is_success(&v) {
            return Err(format!("{}", v["error"]));
        }
        let mut cs = v["certificates"].as_array().ok_or("no certificates")?.iter().map(conv_dto_cert).collect::<Result<Vec<_>, _>>()?;
        cs.sort();
        Ok(cs)
    }
    fn weight_of(&self, v: Value, p: P) -> Result<u32, String> {
        consistent(&v)?;
        if !is_success(&v) {
            return Err(format!("{}", v["error"]));
        }
        if v["peer_id"].as_str() != Some(&peer(p).id) {
            return Err(format!("weight result names another peer: {v}"));
        }
        Ok(v["weight"].as_u64().ok_or("no weight")? as u32)
    }
    pub fn host_certs(&self, p: P, now: u64) -> Result<Vec<Cert>, String> {
        self.certs_of(raw_call("get_host_certs", &json!([now]), params("get_host_certs", 1, &peer(p).id)))
    }
    pub fn host_certs_from(&self, p: P, i: P, now: u64) -> Result<Vec<Cert>, String> {
        self.certs_of(raw_call("get_host_certs_from", &json!([peer(i).id, now]), params("get_host_certs_from", 2, &peer(p).id)))
    }
}
impl Sys for Svc {
    fn apply(&mut self, op: &Op, now: u64) -> Out {
        let v = match op {
            Op::Root { p, len, owner } => {
                let mut cp = params("set_root", 2, &self.host);
                if !owner {
                    cp.init_peer_id = peer(9).id.clone();
                }
                raw_call("set_root", &json!([peer(*p).id, len]), cp)
            }
            Op::Trust(l) => self.call("add_trust", json!([dto_trust(&build(l)), peer(l.by).id, now])),
            Op::Revoke { by, subj, at, mangle } => self.call("revoke", json!([dto_rev(&build_rev(*by, *subj, *at, *mangle)), now])),
            Op::Import { chain, via } => {
                let c = build_cert(chain);
                match via {
                    Via::Text => self.call("insert_cert_raw", json!([c.to_string(), now])),
                    _ => self.call("insert_cert", json!([dto_cert(&c), now])),
                }
            }
            Op::Time(_) | Op::Restart => return Out::Ok,
        };
        if consistent(&v).is_err() {
            panic!("inconsistent result {v}");
        }
        if !is_success(&v) {
            return Out::Err;
        }
        match op {
            Op::Trust(_) => Out::Weight(v["weight"].as_u64().unwrap_or(u64::MAX) as u32),
            _ => Out::Ok,
        }
    }
    fn certs(&mut self, p: P, now: u64) -> Result<Vec<Cert>, String> {
        self.certs_of(self.call("get_all_certs", json!([peer(p).id, now])))
    }
    fn weight(&mut self, p: P, now: u64) -> Result<u32, String> {
        self.weight_of(self.call("get_weight", json!([peer(p).id, now])), p)
    }
    fn certs_from(&mut self, p: P, i: P, now: u64) -> Result<Vec<Cert>, String> {
        self.certs_of(self.call("get_all_certs_from", json!([peer(p).id, peer(i).id, now])))
    }
    fn weight_from(&mut self, p: P, i: P, now: u64) -> Result<u32, String> {
        self.weight_of(self.call("get_weight_from", json!([peer(p).id, peer(i).id, now])), p)
    }
    fn revocations(&mut self, p: P) -> Result<Vec<(P, u64)>, String> {
        let v = self.call("export_revocations", json!([peer(p).id]));
        consistent(&v)?;
        if !is_success(&v) {
            return Err(format!("{}", v["error"]));
        }
        let mut out = vec![];
        for r in v["revocations"].as_array().ok_or("no revocations")? {
            let b = by_id(r["revoked_by"].as_str().unwrap_or("")).ok_or("unknown revoker")?;
            let at = r["revoked_at"].as_u64().ok_or("no revoked_at")?;
            if dto_rev(&revocation(b, p, at)) != *r {
                return Err(format!("listed revocation was never issued: {r}"));
            }
            out.push((b, at));
        }
        out.sort();
        Ok(out)
    }
    fn host(&mut self, p: P, issuer: Option<P>, now: u64) -> Option<Result<Vec<Cert>, String>> {
        Some(match issuer {
            None => self.host_certs(p, now),
            Some(i) => self.host_certs_from(p, i, now),
        })
    }
}

/// Run a service incarnation on its own thread, started on `images` by the real start-up routine.
pub fn incarnate<T: Send>(images: &Images, f: impl FnOnce(&mut Svc) -> Result<T, String> + Send) -> Result<(T, Images), String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, || {
                guarded(|| {
                    control::load(images);
                    svc::main();
                    let r = f(&mut Svc::new())?;
                    Ok((r, control::committed()))
                })
                .and_then(|r| r)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("crash in service thread".into()))
    })
}

// ---------------------------------------------------------------- comparison with the model

/// Which answers are judged, and against what.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Probe {
    /// every returned certificate is a chain of trusts in force from a root (C01)
    Sound,
    /// nothing is missing, nothing twice; without revocations exactly the valid chains (C02)
    Complete,
    /// certificates, weights and revocation lists, exactly (C03)
    Revoke,
    /// weights (C04)
    Weight,
    /// scoped and host answers against the unscoped answers (C05)
    Scoped,
    /// everything against the model
    All,
}

fn show(c: &Cert) -> String {
    c.iter().map(|t| format!("{}>{}", t.0, t.1)).collect::<Vec<_>>().join(" ")
}
fn diff(got: &[Cert], want: &[Cert]) -> String {
    let extra: Vec<_> = got.iter().filter(|c| want.binary_search(c).is_err()).take(3).map(show).collect();
    let missing: Vec<_> = want.iter().filter(|c| got.binary_search(c).is_err()).take(3).map(show).collect();
    format!("{} returned, {} expected; unexpected {extra:?}, missing {missing:?}", got.len(), want.len())
}
fn same(what: &str, got: &[Cert], want: &[Cert]) -> R {
    if got != want {
        return Err(format!("{what}: {}", diff(got, want)));
    }
    Ok(())
}
fn sound(g: &Model, c: &Cert, target: P) -> R {
    let bad = |why: &str| Err(format!("certificate of {target} [{}]: {why}", show(c)));
    if c.len() < 2 {
        return bad("fewer than two trusts");
    }
    if c.last().unwrap().1 != target {
        return bad("does not end with the queried peer");
    }
    if c[0].0 != c[0].1 || !g.roots.contains_key(&c[0].1) {
        return bad("does not start with a self-signed trust of a root");
    }
    let mut seen = vec![];
    for (k, t) in c.iter().enumerate() {
        if g.rel.get(&(t.0, t.1)) != Some(&Rel::Trust { exp: t.2, iat: t.3 }) {
            return bad("contains a trust that is not in force");
        }
        if t.0 == t.1 {
            if k > 0 && c[k - 1].0 == c[k - 1].1 {
                return bad("repeats a self-signed trust");
            }
            if k > 0 {
                continue;
            }
        }
        if seen.contains(&t.1) {
            return bad("visits a peer twice");
        }
        seen.push(t.1);
    }
    Ok(())
}

/// Ask about `peers` at `now` and judge the answers.
pub fn observe<S: Sys>(s: &mut S, g: &mut Model, peers: &[P], now: u64, probe: Probe, cx: &mut Ctx) -> R {
    g.gc(now);
    for &t in peers {
        let certs = |s: &mut S, cx: &mut Ctx| -> Result<Vec<Cert>, String> {
            cx.op();
            let got = s.certs(t, now).map_err(|e| format!("certificates of {t} at {now}: {e}"))?;
            cx.outcome(&got);
            if let Some(h) = s.host(t, None, now) {
                cx.op();
                let h = h.map_err(|e| format!("certificates of host {t} at {now}: {e}"))?;
                same(&format!("certificates of host {t} at {now}"), &h, &got)?;
            }
            Ok(got)
        };
        match probe {
            Probe::Sound => {
                for c in &certs(s, cx)? {
                    sound(g, c, t)?;
                }
            }
            Probe::Complete => {
                let got = certs(s, cx)?;
                let want = g.certs(t);
                if g.rel.values().any(|r| matches!(r, Rel::Revoked { .. })) {
                    if got.windows(2).any(|w| w[0] == w[1]) {
                        return Err(format!("certificates of {t} at {now}: duplicate"));
                    }
                    if want.iter().any(|c| got.binary_search(c).is_err()) {
                        return Err(format!("certificates of {t} at {now}: {}", diff(&got, &want)));
                    }
                } else {
                    same(&format!("certificates of {t} at {now}"), &got, &want)?;
                }
            }
            Probe::Weight => {
                cx.op();
                let w = s.weight(t, now).map_err(|e| format!("weight of {t} at {now}: {e}"))?;
                cx.outcome(&w);
                let want = g.weight(t);
                if w != want {
                    return Err(format!("weight of {t} at {now} is {w}, expected {want}"));
                }
            }
            Probe::Scoped => {
                let all = certs(s, cx)?;
                scoped(s, g, t, peers, now, &all, cx)?;
            }
            Probe::Revoke | Probe::All => {
                let got = certs(s, cx)?;
                let want = g.certs(t);
                same(&format!("certificates of {t} at {now}"), &got, &want)?;
                cx.ops(2);
                let w = s.weight(t, now).map_err(|e| format!("weight of {t} at {now}: {e}"))?;
                let ww = g.weight_given(t, &want);
                if w != ww {
                    return Err(format!("weight of {t} at {now} is {w}, expected {ww}"));
                }
                let revs = s.revocations(t).map_err(|e| format!("revocations of {t}: {e}"))?;
                let want_revs = g.revocations(t);
                if revs != want_revs {
                    return Err(format!("revocations of {t} are {revs:?}, expected {want_revs:?}"));
                }
                if probe == Probe::All {
                    scoped(s, g, t, peers, now, &want, cx)?;
                }
            }
        }
    }
    Ok(())
}

fn scoped<S: Sys>(s: &mut S, g: &Model, t: P, peers: &[P], now: u64, all: &[Cert], cx: &mut Ctx) -> R {
    for &i in peers {
        cx.ops(2);
        let sc = Model::scoped(all, i);
        let got = s.certs_from(t, i, now).map_err(|e| format!("certificates of {t} from {i} at {now}: {e}"))?;
        same(&format!("certificates of {t} from {i} at {now}"), &got, &sc)?;
        let w = s.weight_from(t, i, now).map_err(|e| format!("weight of {t} from {i} at {now}: {e}"))?;
        cx.outcome(&(w, got.len()));
        if w != g.weight_of(&sc) {
            return Err(format!("weight of {t} from {i} at {now} is {w}, expected {}", g.weight_of(&sc)));
        }
        if let Some(h) = s.host(t, Some(i), now) {
            cx.op();
            let h = h.map_err(|e| format!("certificates of host {t} from {i} at {now}: {e}"))?;
            same(&format!("certificates of host {t} from {i} at {now}"), &h, &sc)?;
        }
    }
    Ok(())
}

/// Apply one operation to both and compare the outcome.
pub fn step<S: Sys>(s: &mut S, w: &mut World, op: &Op, service: bool, cx: &mut Ctx) -> R {
    let want = w.apply(op, service);
    cx.op();
    let got = s.apply(op, w.now);
    cx.outcome(&(got, h64(op)));
    if got != want {
        return Err(format!("{op:?} at {} answered {got:?}, expected {want:?}", w.now));
    }
    Ok(())
}
