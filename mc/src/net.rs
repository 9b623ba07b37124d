//! A small network for the shipped scripts: every node runs the real service on its own thread, with its own
//! clock; the client has a clock and signing services. Every value carries its origin, as the particle
//! interpreter hands it to services.
use crate::common::*;
use crate::keys::*;
use crate::sys::*;
use marine_rs_sdk::{CallParameters, SecurityTetraplet};
use marine_sqlite_connector::control;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::mpsc::{channel, Receiver, Sender};

/// The scripts use something these interpreters do not know: no verdict.
pub fn unsupported(what: &str) -> ! {
    eprintln!("the script interpreter does not support: {what}");
    std::process::exit(2)
}

/// A value and where it comes from.
#[derive(Clone, Debug)]
pub struct Tv {
    pub v: Value,
    pub t: Vec<SecurityTetraplet>,
}

/// What a signing service of the client does.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Signer {
    Genuine(P),
    Refuses,
    /// signs with the key of another peer
    Other(P),
    /// one bit of the signature is wrong
    Flipped(P),
}

#[derive(Clone, Debug)]
pub struct Made {
    pub peer: String,
    pub service: String,
    pub f: String,
    pub args: Vec<Value>,
    pub ok: bool,
}

type Work = Box<dyn FnOnce(&mut Svc, &mut Ctx) -> R + Send>;
enum Job {
    Call(String, Value, CallParameters),
    Run(Work),
}
enum Answer {
    Value(Value),
    Ctx(Ctx),
}
pub struct Node {
    pub id: String,
    pub clock: u64,
    tx: Sender<Job>,
    rx: Receiver<Result<Answer, String>>,
}
pub struct Net {
    pub nodes: Vec<Node>,
    pub client: String,
    pub client_clock: u64,
    pub creator: String,
    pub relay: String,
    pub signers: BTreeMap<String, Signer>,
    pub log: Vec<Made>,
    /// which call that can fail is answered with a failure
    pub fail_at: Option<usize>,
    pub fallible: usize,
    /// clocks advance by this much with every reading
    pub tick: u64,
}

pub const MUTATING: &[&str] = &["set_root", "add_trust", "insert_cert", "insert_cert_raw", "revoke"];

impl Net {
    pub fn node(&self, id: &str) -> Option<usize> {
        self.nodes.iter().position(|n| n.id == id)
    }
    /// Call the service of a node directly.
    pub fn raw(&self, node: usize, f: &str, args: Value, cp: CallParameters) -> Result<Value, String> {
        let n = &self.nodes[node];
        n.tx.send(Job::Call(f.to_string(), args, cp)).map_err(|_| "the service has crashed".to_string())?;
        match n.rx.recv().map_err(|_| "the service has crashed".to_string())?? {
            Answer::Value(v) => Ok(v),
            _ => unreachable!(),
        }
    }
    /// Ask the service of a node directly, without the script.
    pub fn on(&self, node: usize, cx: &mut Ctx, f: impl FnOnce(&mut Svc, &mut Ctx) -> R + Send + 'static) -> R {
        let n = &self.nodes[node];
        n.tx.send(Job::Run(Box::new(f))).map_err(|_| "the service has crashed".to_string())?;
        match n.rx.recv().map_err(|_| "the service has crashed".to_string())?? {
            Answer::Ctx(c) => cx.merge_from(c),
            _ => unreachable!(),
        }
        Ok(())
    }
    /// A call of a service by the running script.
    pub fn call(&mut self, peer_id: &str, service: &str, f: &str, args: &[Tv], failure: &dyn Fn(&str) -> Value) -> Result<Value, String> {
        let node = self.node(peer_id);
        if node.is_none() && peer_id != self.client {
            return Err(format!("there is no peer {peer_id}"));
        }
        let vals: Vec<Value> = args.iter().map(|a| a.v.clone()).collect();
        let log = |ok: bool, s: &mut Net| s.log.push(Made { peer: peer_id.into(), service: service.into(), f: f.into(), args: vals.clone(), ok });
        if service == "trust-graph" || self.signers.contains_key(service) || service == "sig" {
            let k = self.fallible;
            self.fallible += 1;
            if self.fail_at == Some(k) {
                log(false, self);
                return Ok(failure(&format!("injected failure of call {k}")));
            }
        }
        let r = match (service, f) {
            ("peer", "timestamp_sec") => Ok(json!(match node {
                Some(k) => {
                    let t = self.nodes[k].clock;
                    self.nodes[k].clock += self.tick;
                    t
                }
                None => self.client_clock,
            })),
            ("peer", "timestamp_ms") => Ok(json!(node.map_or(self.client_clock, |k| self.nodes[k].clock) * 1000)),
            ("op", "array_length") => vals[0].as_array().map(|a| json!(a.len())).ok_or(format!("array_length of {}", vals[0])),
            ("op", "identity") => Ok(vals.first().cloned().unwrap_or(json!([]))),
            ("op", "noop") => Ok(json!([])),
            ("op", "return") => Ok(json!([])),
            ("trust-graph", _) => match node {
                Some(k) => {
                    if !FUNCTIONS.contains(&f) {
                        return Err(format!("the service has no function {f}"));
                    }
                    let cp = CallParameters {
                        init_peer_id: self.client.clone(),
                        service_id: "trust-graph".into(),
                        service_creator_peer_id: self.creator.clone(),
                        host_id: peer_id.into(),
                        particle_id: "p".into(),
                        tetraplets: args.iter().map(|a| a.t.clone()).collect(),
                    };
                    self.raw(k, f, json!(vals), cp)
                }
                None => Err(format!("no trust-graph service on {peer_id}")),
            },
            (s, "sign") if node.is_none() => {
                let kind = match self.signers.get(s) {
                    Some(k) => *k,
                    None if s == "sig" => Signer::Genuine(by_id(&self.client).unwrap()),
                    None => return Err(format!("no service {s} on the client")),
                };
                let bytes: Vec<u8> = serde_json::from_value(vals[0].clone()).map_err(|e| format!("sign: {e}"))?;
                let sig = |p: P| peer(p).kp.sign(&bytes).unwrap().to_vec().to_vec();
                Ok(match kind {
                    Signer::Refuses => json!({"success": false, "error": ["refused to sign"], "signature": []}),
                    Signer::Genuine(p) | Signer::Other(p) => json!({"success": true, "error": [], "signature": [sig(p)]}),
                    Signer::Flipped(p) => {
                        let mut b = sig(p);
                        b[7] ^= 1;
                        json!({"success": true, "error": [], "signature": [b]})
                    }
                })
            }
            (s, "get_peer_id") if node.is_none() && (s == "sig" || self.signers.contains_key(s)) => Ok(json!(self.client)),
            _ => Err(format!("no function {service}.{f} on {peer_id}")),
        };
        let ok = r.as_ref().map_or(false, |v| v["success"].as_bool().unwrap_or(true));
        log(ok, self);
        r
    }
}

/// Run `f` with nodes (id, clock, persisted content).
pub fn with_nodes<T>(nodes: &[(String, u64, Images)], f: impl FnOnce(&mut Net) -> Result<T, String>) -> Result<T, String> {
    std::thread::scope(|s| {
        let mut v = vec![];
        for (id, clock, im) in nodes {
            let (tx, jobs) = channel::<Job>();
            let (answers, rx) = channel();
            let im = im.clone();
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(s, move || {
                    let start = guarded(|| {
                        control::load(&im);
                        svc::main();
                    });
                    let mut svc = Svc::new();
                    svc.host = id.clone();
                    for job in jobs {
                        let r = start.clone().and_then(|_| match job {
                            Job::Call(f, args, cp) => guarded(|| raw_call(&f, &args, cp)).map(Answer::Value),
                            Job::Run(w) => {
                                let mut cx = Ctx::default();
                                guarded(|| w(&mut svc, &mut cx)).and_then(|r| r).map(|_| Answer::Ctx(cx))
                            }
                        });
                        if answers.send(r).is_err() {
                            return;
                        }
                    }
                })
                .unwrap();
            v.push(Node { id: id.clone(), clock: *clock, tx, rx });
        }
        let mut net = Net {
            relay: v[0].id.clone(),
            nodes: v,
            client: OWNER.into(),
            client_clock: 0,
            creator: OWNER.into(),
            signers: BTreeMap::new(),
            log: vec![],
            fail_at: None,
            fallible: 0,
            tick: 0,
        };
        let r = guarded(|| f(&mut net)).and_then(|r| r);
        drop(net);
        r
    })
}
