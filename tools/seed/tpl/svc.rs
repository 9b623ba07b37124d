//! The service, compiled natively from the repository's sources.
#![allow(dead_code, unused_imports)]
pub use marine_rs_sdk::{CallParameters, SecurityTetraplet};
pub use marine_sqlite_connector::control as db;
pub use serde_json::{json, Value};
use fluence_keypair::KeyPair;
use trust_graph::{Revocation, Trust};
use crate::h::*;
macro_rules! exports { ($($f:ident = $e:ident),* $(,)?) => {
    extern "Rust" { $(fn $e(args: &str) -> String;)* }
    fn dispatch(f: &str, args: &str) -> String {
        match f { $(stringify!($f) => unsafe { $e(args) },)* _ => panic!("no function {f}") }
    }
} }
exports! {
    set_root = __marine_export_set_root, insert_cert_raw = __marine_export_insert_cert_raw,
    insert_cert = __marine_export_insert_cert, get_all_certs = __marine_export_get_all_certs,
    get_all_certs_from = __marine_export_get_all_certs_from, get_host_certs = __marine_export_get_host_certs,
    get_host_certs_from = __marine_export_get_host_certs_from, get_weight = __marine_export_get_weight,
    get_weight_from = __marine_export_get_weight_from, get_trust_bytes = __marine_export_get_trust_bytes,
    issue_trust = __marine_export_issue_trust, verify_trust = __marine_export_verify_trust,
    add_trust = __marine_export_add_trust, get_revocation_bytes = __marine_export_get_revocation_bytes,
    issue_revocation = __marine_export_issue_revocation, revoke = __marine_export_revoke,
    export_revocations = __marine_export_export_revocations,
}
pub const HOST: &str = "12D3KooWHost";
pub const OWNER: &str = "12D3KooWOwner";
pub fn params(f: &str, n: usize) -> CallParameters {
    let at = match f {
        "get_host_certs" => Some(0),
        "insert_cert_raw" | "insert_cert" | "get_all_certs" | "get_host_certs_from" | "get_weight" | "revoke" => Some(1),
        "get_all_certs_from" | "get_weight_from" | "verify_trust" | "add_trust" => Some(2),
        _ => None,
    };
    let mut tetraplets = vec![vec![SecurityTetraplet::new(OWNER, "", "", "")]; n];
    if let Some(i) = at {
        tetraplets[i] = vec![SecurityTetraplet::new(HOST, "peer", "timestamp_sec", "")];
    }
    CallParameters { init_peer_id: OWNER.into(), service_id: "trust-graph".into(), service_creator_peer_id: OWNER.into(), host_id: HOST.into(), particle_id: "p".into(), tetraplets }
}
pub fn call_with(f: &str, args: Value, cp: CallParameters) -> Value {
    marine_rs_sdk::__set_call_parameters(cp);
    serde_json::from_str(&dispatch(f, &args.to_string())).unwrap()
}
pub fn call(f: &str, args: Value) -> Value {
    let n = args.as_array().unwrap().len();
    call_with(f, args, params(f, n))
}
pub fn ok(v: &Value) -> bool {
    v["success"].as_bool().unwrap()
}
pub fn id(p: u8) -> String {
    kp(p).public().to_peer_id().to_base58()
}
pub fn dto(t: &Trust) -> Value {
    let r = t.signature.get_raw_signature();
    json!({"issued_for": t.issued_for.to_peer_id().to_base58(), "expires_at": t.expires_at.as_secs(), "signature": bs58::encode(r.bytes).into_string(), "sig_type": String::from(r.sig_type), "issued_at": t.issued_at.as_secs()})
}
pub fn dto_rev(r: &Revocation) -> Value {
    let raw = r.signature.get_raw_signature();
    json!({"revoked_peer_id": r.pk.to_peer_id().to_base58(), "revoked_at": r.revoked_at.as_secs(), "signature": bs58::encode(raw.bytes).into_string(), "sig_type": String::from(raw.sig_type), "revoked_by": r.revoked_by.to_peer_id().to_base58()})
}
pub fn start() {
    svc::main();
}
pub fn root(p: u8, len: u32) -> Value {
    call("set_root", json!([id(p), len]))
}
pub fn trust(by: u8, subj: u8, exp: u64, iat: u64, now: u64) -> Value {
    call("add_trust", json!([dto(&t(by, subj, exp, iat)), id(by), now]))
}
pub fn revoke(by: u8, subj: u8, at: u64, now: u64) -> Value {
    call("revoke", json!([dto_rev(&Revocation::create(&kp(by), kp(subj).public(), s(at))), now]))
}
pub fn weight(p: u8, now: u64) -> u64 {
    let v = call("get_weight", json!([id(p), now]));
    ensure(ok(&v), &format!("get_weight: {v}"));
    v["weight"].as_u64().unwrap()
}
