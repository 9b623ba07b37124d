// stand-in of the node's API
let n = 0;
const lost = () => { if (n++ === Number(process.env.DEMO_LOSE)) throw new Error("timeout"); };
exports.timestamp_sec = async () => { lost(); return 1000; };
exports.get_trust_bytes = async (_n, p, e, i) => { lost(); return { success: true, error: "", result: [...Buffer.from(JSON.stringify([p, e, i]))] }; };
exports.issue_trust = async (_n, p, e, i, s) => { lost(); return { success: true, error: "", trust: { issued_for: p, expires_at: e, issued_at: i, signature: Buffer.from(s).toString("hex"), sig_type: "ed25519" } }; };
