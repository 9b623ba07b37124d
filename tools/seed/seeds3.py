AD="admin/index.ts"
SEEDS['bundle-skips-relay']=dict(property='C28',needs='generating for the labelled network itself, through one of its nodes',breaks='the node the generator is connected to gets no certificate',
 edits=[(AD,"    for (let i = 0; i < krasnodar.length; i++)  {\n","    for (let i = 0; i < krasnodar.length; i++)  {\n        if (krasnodar[i].peerId == Fluence.getStatus().relayPeerId) {\n            // already served through this connection\n            continue;\n        }\n")],
 js="""
const { id, run, ensure } = require("./h.cjs");
(async () => {
    const nodes = [id(30), id(31), id(32)];
    for (const env of ["local", "stage", "krasnodar"]) {
        const r = await run(env, nodes, -1);
        ensure(r.code === 0, "the generator ends well for " + env);
        const last = JSON.parse(r.file).certs.map((c) => c.chain[c.chain.length - 1].issued_for);
        for (const n of [id(3), ...nodes]) ensure(last.filter((x) => x === n).length === 1, "one certificate per peer for " + env);
    }
})();
""")
SEEDS['bundle-written-early']=dict(property='C28',needs='an API call lost in the middle of a run',breaks='a bundle with only some of the certificates replaces the earlier one',
 edits=[(AD,"        certificates.push(cert);\n    }\n\n    fs.writeFileSync(","        certificates.push(cert);\n        fs.writeFileSync(\"../builtin-package/on_start.json\", JSON.stringify({certs: certificates}));\n    }\n\n    fs.writeFileSync(")],
 js="""
const { id, run, ensure } = require("./h.cjs");
(async () => {
    const nodes = [id(30), id(31), id(32)];
    for (let lose = 0; lose < 30; lose++) {
        const r = await run("local", nodes, lose, "earlier");
        if (r.code === 0) {
            ensure(lose > 0 && JSON.parse(r.file).certs.length === 4, "complete bundle");
            return;
        }
        ensure(r.file === "earlier", "a failed run leaves the earlier bundle alone (lost call " + lose + ")");
    }
    ensure(false, "never ended well");
})();
""")
SEEDS['digest-as-message']=dict(property='C16',needs='a message of exactly 32 bytes that is the digest of another one',breaks='a secp256k1 signature over a message also verifies for its digest',
 edits=[("keypair/src/secp256k1.rs","        self.sign_hashed(Sha256::digest(msg).as_ref())","        if msg.len() == 32 {\n            // already a digest\n            return self.sign_hashed(msg);\n        }\n        self.sign_hashed(Sha256::digest(msg).as_ref())"),
  ("keypair/src/secp256k1.rs","        self.verify_hashed(Sha256::digest(msg).as_ref(), sig)","        if msg.len() == 32 {\n            // already a digest\n            return self.verify_hashed(msg, sig);\n        }\n        self.verify_hashed(Sha256::digest(msg).as_ref(), sig)")],
 main='''
fn main() {
    let kp = kp2(3);
    let m = b"pay ten to the bearer";
    let sig = kp.sign(m).unwrap();
    ensure(kp.public().verify(m, &sig).is_ok(), "verifies");
    // SHA-256 of m
    let d: Vec<u8> = (0..64).step_by(2).map(|i| u8::from_str_radix(&"@DIGEST@"[i..i + 2], 16).unwrap()).collect();
    ensure(kp.public().verify(&d, &sig).is_err(), "a signature is good for its message only, not for the digest");
}
'''.replace('@DIGEST@',__import__('hashlib').sha256(b"pay ten to the bearer").hexdigest()))
SEEDS['expires-before-issued']=dict(property='C06',needs='a trust dated after its own expiry, added to the library before both dates',breaks='a genuine unexpired trust is silently dropped and reported with zero weight',
 edits=[(TG,"        if next_weight == 0u32 {","        if next_weight == 0u32 || trust.borrow().expires_at < trust.borrow().issued_at {")],
 main='''
fn main() {
    let mut g = G::new();
    g.root(0, 10);
    g.trust(0, 0);
    let w = g.0.add_trust(t(0, 1, 500, 700), kp(0).public(), s(100)).unwrap();
    ensure(w == 512, &format!("half of the root's weight, not {w}"));
    ensure(g.certs(1).len() == 1, "the trust has not expired");
}
''')
SEEDS['narrow-distance']=dict(property='C04',needs='a chain of more than 256 trusts (peers admitted through trusts that have expired since)',breaks='the distance is taken modulo 256, so very far peers have a weight',
 edits=[(TG,"std::cmp::min(weight_factor, root_weight_factor + c.chain.len() as u32 - 1)","std::cmp::min(weight_factor, root_weight_factor + u32::from((c.chain.len() - 1) as u8))")],
 main='''
fn main() {
    use fluence_keypair::{KeyFormat, KeyPair};
    let far = |n: u16| KeyPair::from_secret_key([&[7u8; 30][..], &n.to_le_bytes()].concat(), KeyFormat::Ed25519).unwrap();
    let mut g = G::new();
    let root = far(0);
    g.0.set_root(root.public(), 16).unwrap();
    let mut add = |a: &KeyPair, b: &KeyPair, exp: u64| {
        let w = g.0.add_trust(trust_graph::Trust::create(a, b.public(), s(exp), s(10)), a.public(), s(100)).unwrap();
        ensure(w > 0, "admitted");
    };
    add(&root, &root, 1000);
    for i in 1..=260u16 {
        if i > 1 { add(&root, &far(i - 1), 200); }
        add(&far(i - 1), &far(i), 1000);
    }
    for i in 0..=260u16 {
        let w = g.0.weight(far(i).public(), s(300)).unwrap();
        let want = if i <= 16 { 1u32 << (16 - i) } else { 0 };
        ensure(w == want, &format!("weight at distance {i} is {w}, expected {want}"));
    }
}
''')
SEEDS['sweep-in-batches']=dict(property='C08',needs='more than a hundred trusts that expire between two questions',breaks='expired trusts are collected a hundred at a time, so the rest still count for a question',
 edits=[(ST,"\"DELETE FROM trust_relations WHERE relation_type = ?2 AND \\\n                 CASE WHEN (expires_at < 0) = (?1 < 0) THEN expires_at <= ?1 ELSE ?1 < 0 END\"","// in batches, so that no question waits long\n                \"DELETE FROM trust_relations WHERE rowid IN (SELECT rowid FROM trust_relations WHERE relation_type = ?2 AND \\\n                 CASE WHEN (expires_at < 0) = (?1 < 0) THEN expires_at <= ?1 ELSE ?1 < 0 END LIMIT 100)\"")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 5);
    trust(0, 0, 1000, 10, 100);
    for k in 1..=130 { trust(0, k, 500, 10, 100); }
    trust(0, 131, 1000, 10, 100);
    ensure(weight(130, 499) == 16, "before the expiry date");
    ensure(weight(130, 500) == 0, "at the expiry date");
    ensure(weight(131, 500) == 16, "another trust");
}
''')
SEEDS['root-page']=dict(property='C18',needs='more than 128 roots',breaks='roots set after the first 128 certify nobody',
 edits=[(ST,"SELECT public_key, weight_factor FROM roots\"","SELECT public_key, weight_factor FROM roots LIMIT 128\"")],
 main='''
use svc::*;
fn main() {
    start();
    for k in 0..=130 { root(k, 5); }
    trust(130, 130, 1000, 10, 100);
    trust(130, 140, 1000, 10, 100);
    ensure(weight(140, 100) == 16, "trusted by a root");
}
''')
SEEDS['best-root-shortcut']=dict(property='C08',needs='a root of the greatest weight there is and a trust of it that expires, followed by an older trust that has not expired',breaks='questions about that root collect nothing, so its expired trust keeps an older, unexpired one out',
 edits=[(TG,"""            max_weight = get_weight_from_factor(weight_factor);
        }

        // get all possible""","""            max_weight = get_weight_from_factor(weight_factor);
        }
        if max_weight == get_weight_from_factor(0) {
            // cannot get any better
            return Ok(max_weight);
        }

        // get all possible""")],
 main='''
use svc::*;
fn main() {
    start();
    root(0, 16);
    trust(0, 1, 150, 20, 100);
    trust(0, 1, 1000, 10, 200);
    trust(0, 0, 1000, 10, 200);
    ensure(weight(1, 200) == 32768, "the trust that has not expired counts");
}
''')
