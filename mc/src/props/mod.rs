//! Which families decide which property.
mod bundle;
mod certs;
mod crypto;
mod graph;
mod inputs;
mod runs;
mod scripts;
mod tools;

use crate::common::*;
use crate::graphs;
use crate::hist::{self, *};
use crate::sys::Probe;

pub struct Prop {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Box<dyn Family>>,
}

const MODEL_RULE: &str = "every state and history within the bounds of each family is executed on the real code and every answer compared with the reference model";
const ENV: &str = "the service is compiled natively from /repo/service; marine-rs-sdk and the sqlite connector are stand-ins (real SQLite in memory, one service run per thread)";

const SCRIPT: &str = "the Aqua scripts are executed by the interpreter in mc/src/aqua.rs (the Aqua compiler and the particle interpreter are not available offline): sequential, peers and values with origins as in the particle network; Peer, Op and Sig are stand-ins";

/// library and service histories over the mixed alphabet
fn histories(probe: Probe, thorough: bool) -> Vec<Box<dyn Family>> {
    let sp = with(general(), probe);
    let (dl, ds) = if thorough { (5, 4) } else { (4, 3) };
    vec![
        hist::lib("lib-histories-each", sp.clone(), dl - 1, When::Each),
        hist::lib("lib-histories-end", sp.clone(), dl, When::End),
        hist::svc("svc-histories-each", sp.clone(), ds, When::Each),
        hist::svc("svc-histories-end", sp.clone(), ds, When::End),
        hist::bfs("svc-states", sp, if thorough { 9 } else { 4 }, if thorough { 40_000 } else { 3_000 }),
    ]
}
fn model(families: Vec<Box<dyn Family>>) -> Prop {
    Prop { level: "model_checking", rule: MODEL_RULE, assumptions: vec![ENV], families }
}
fn explore(rule: &'static str, families: Vec<Box<dyn Family>>) -> Prop {
    Prop { level: "exploration", rule, assumptions: vec![ENV], families }
}
fn fault(rule: &'static str, families: Vec<Box<dyn Family>>) -> Prop {
    Prop { level: "fault_enumeration", rule, assumptions: vec![ENV, "a single SQLite statement is atomic and durable once it has finished; opening the database file succeeds"], families }
}
fn graph_prop(probe: Probe, thorough: bool, rev: bool) -> Vec<Box<dyn Family>> {
    let mut families = graphs::families(probe, thorough, rev);
    families.extend(histories(probe, thorough));
    families
}
fn and(mut a: Vec<Box<dyn Family>>, b: Vec<Box<dyn Family>>) -> Vec<Box<dyn Family>> {
    a.extend(b);
    a
}

pub fn property(id: &str, thorough: bool) -> Option<Prop> {
    let t = thorough;
    Some(match id {
        "C01" => model(graph_prop(Probe::Sound, t, false)),
        "C02" => model(graph_prop(Probe::Complete, t, false)),
        "C03" => model(graph_prop(Probe::Revoke, t, true)),
        "C04" => model(and(graph::weight_families(t), graph_prop(Probe::Weight, t, false))),
        "C05" => model(graph_prop(Probe::Scoped, t, false)),
        "C06" => model(and(graph::admission(t), histories(Probe::All, t))),
        "C07" => model(graph::newest_wins(t)),
        "C08" => model(graph::expiry(t)),
        "C09" => model(graph::import(t)),
        "C10" => explore("every enumerated combination of issuer, subject, dates, signature and time is verified by the real code and compared with the definition; a case is non-trivial if the genuine statement verified", crypto::trust_verify(t)),
        "C11" => explore("every enumerated combination of revoker, subject, date and signature is verified by the real code and compared with the definition; a case is non-trivial if it reached verification", crypto::revocation_verify(t)),
        "C12" => explore("every enumerated chain, root list and time is verified by the real code and compared with the definition of a valid chain; a case is non-trivial if the chain is valid", certs::verification(t)),
        "C13" => explore("every enumerated extension is performed by the real code and the result compared trust by trust with the definition; a case is non-trivial if a certificate is issued", certs::issuing(t)),
        "C14" => explore("every enumerated value is encoded and decoded by the real code in every form and compared; a case is non-trivial if a value was encoded", certs::codecs(t)),
        "C15" => explore("every enumerated byte string, text and service argument is given to the real code, which must answer with a value or an error; accepted values must encode again, refused service calls must leave every answer as it was; a case is non-trivial if the input was accepted", inputs::robust(t)),
        "C16" => explore("every enumerated key, message and signature is verified by the real code and compared with the definition; a case is non-trivial if the genuine signature verified", crypto::sign_verify(t)),
        "C17" => explore("every enumerated key or signature goes through every encoding and back; a case is non-trivial if it was encoded", crypto::encodings_lossless(t)),
        "C18" => model(graph::roots(t)),
        "C19" => explore("every enumerated call is made on the real service with the enumerated argument origins; a case is non-trivial if it was decided by the origin", inputs::origins(t)),
        "C20" => model(graph::future(t)),
        "C21" => fault("every database write of every history is a crash point; the persisted content at that point is handed to a newly started real service whose answers must be those of an admissible model state; non-trivial: the point was reached and judged", runs::crashes(t)),
        "C22" => fault("every storage call of every enumerated operation or query is made to fail on the real code; non-trivial: the failure was delivered and the outcome judged", runs::faults(t)),
        "C23" => explore("every enumerated import of the shipped certificates is performed by the real service and every weight compared; a case is non-trivial if something was imported", bundle::shipped(t)),
        "C24" => explore("every enumerated record is built, verified, added and returned by the real service and compared with the library's; every enumerated state is carried over to a second real service; a case is non-trivial if the record was accepted or the state has certificates", runs::records(t)),
        "C25" => explore("pairs of real runs, one with and one without the additional calls, compared answer by answer; a case is non-trivial if both runs completed", runs::noise(t)),
        "C26" => Prop {
            level: "model_checking",
            rule: "every enumerated sequence of API calls is executed by an interpreter of the shipped Aqua scripts on real services (one per node, each with its own clock) and compared with one reference model per node",
            assumptions: vec![ENV, SCRIPT],
            families: scripts::api(t),
        },
        "C27" => Prop {
            level: "exploration",
            rule: "isFluencePeer is executed by an interpreter of the shipped Aqua script on the real service in every enumerated state; a case is non-trivial if the host is labelled",
            assumptions: vec![ENV, SCRIPT],
            families: scripts::labelling(t),
        },
        "C28" => Prop {
            level: "fault_enumeration",
            rule: "the generator's own code is run by node in every enumerated environment, its API calls executed by the interpreter of its Aqua file on the real service, each call failing in turn; a written bundle is compared trust by trust with the definition and imported into a fresh real service; non-trivial: a bundle was written or a failure was delivered and judged",
            assumptions: vec![ENV, SCRIPT, "the network client, the list of networks and base58 are stand-ins (mc/js), TypeScript is translated by esbuild"],
            families: tools::generator(t),
        },
        "C29" => Prop {
            level: "model_checking",
            rule: "trusted_computation is executed by the interpreter of the example's Aqua file on real services in every enumerated state of the relay and compared with the reference model; non-trivial: the computation was run",
            assumptions: vec![ENV, SCRIPT],
            families: tools::computation(t),
        },
        _ => return None,
    })
}
