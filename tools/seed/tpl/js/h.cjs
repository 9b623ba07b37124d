// runs the generator of <repo>/admin with stand-ins for the client, the network list and the node
const path = require("path"), fs = require("fs"), cp = require("child_process"), crypto = require("crypto");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const bs58 = require("./bs58.cjs");
const [repo, scratch] = process.argv.slice(2);
const stub = (f) => ({ path: path.join(__dirname, f) });
const seed = (n) => Buffer.alloc(32, n);
const id = (n) => {
    const key = crypto.createPrivateKey({ key: Buffer.concat([Buffer.from("302e020100300506032b657004220420", "hex"), seed(n)]), format: "der", type: "pkcs8" });
    return bs58.encode(Buffer.concat([Buffer.from("002408011220", "hex"), crypto.createPublicKey(key).export({ format: "der", type: "spki" }).subarray(12)]));
};
async function bundle() {
    const outfile = path.join(scratch, "out.js");
    await esbuild.build({
        entryPoints: [path.join(repo, "admin/index.ts")], outfile, bundle: true, platform: "node", target: "node18", logLevel: "silent",
        plugins: [{ name: "s", setup(b) {
            b.onResolve({ filter: /^@fluencelabs\/fluence$/ }, () => stub("fluence.cjs"));
            b.onResolve({ filter: /^@fluencelabs\/fluence-network-environment$/ }, () => stub("network.cjs"));
            b.onResolve({ filter: /^bs58$/ }, () => stub("bs58.cjs"));
            b.onResolve({ filter: /(^|\/)generated\// }, () => stub("node.cjs"));
        } }],
    });
    return outfile;
}
// {code, file}: the exit code and the bundle after a run; the node's lose-th answer is lost
async function run(env, nodes, lose, old) {
    const out = await bundle();
    const d = fs.mkdtempSync(path.join(scratch, "r"));
    for (const x of ["admin", "builtin-package"]) fs.mkdirSync(path.join(d, x));
    fs.writeFileSync(path.join(d, "admin/root_secret_key.ed25519"), bs58.encode(seed(1)));
    fs.writeFileSync(path.join(d, "admin/issuer_secret_key.ed25519"), bs58.encode(seed(2)));
    fs.writeFileSync(path.join(d, "example_secret_key.ed25519"), bs58.encode(seed(3)));
    const f = path.join(d, "builtin-package/on_start.json");
    if (old !== undefined) fs.writeFileSync(f, old);
    const r = cp.spawnSync("node", ["--no-warnings", out, env], { cwd: path.join(d, "admin"), env: { ...process.env, MC_CLIENT: id(9), DEMO_LOSE: String(lose), MC_NETWORK: JSON.stringify({ krasnodar: nodes, stage: [id(50)], testNet: [id(51)] }) } });
    return { code: r.status, file: fs.existsSync(f) ? fs.readFileSync(f).toString() : undefined };
}
function ensure(c, m) {
    if (!c) { console.error("DEMO FAILED: " + m); process.exit(1); }
}
module.exports = { id, run, ensure };
