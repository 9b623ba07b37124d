//! Prints what the distribution package gives its users.
use serde_json::{json, Value};

fn main() {
    let c = &*trust_graph_distro::KRAS_CERTS;
    let certs: Vec<Value> = c
        .certs
        .iter()
        .map(|c| {
            let chain: Vec<Value> = c
                .chain
                .iter()
                .map(|t| json!({"issued_for": t.issued_for, "expires_at": t.expires_at, "signature": t.signature, "sig_type": t.sig_type, "issued_at": t.issued_at}))
                .collect();
            json!({ "chain": chain })
        })
        .collect();
    let modules: serde_json::Map<String, Value> = trust_graph_distro::modules().iter().map(|(n, b)| (n.to_string(), json!(String::from_utf8_lossy(b)))).collect();
    let config = String::from_utf8_lossy(trust_graph_distro::CONFIG);
    println!("{}", json!({"root_node": c.root_node, "max_chain_length": c.max_chain_length, "certs": certs, "modules": modules, "config": config}));
}
