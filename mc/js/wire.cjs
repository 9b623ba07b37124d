// One request per line on stdout, one answer per line on stdin.
const fs = require("fs");
let rest = "";
function line() {
    const b = Buffer.alloc(65536);
    while (!rest.includes("\n")) {
        let n;
        try {
            n = fs.readSync(0, b, 0, b.length, null);
        } catch (e) {
            if (e.code === "EAGAIN") continue;
            throw e;
        }
        if (n === 0) throw new Error("the network is gone");
        rest += b.toString("utf8", 0, n);
    }
    const i = rest.indexOf("\n");
    const l = rest.slice(0, i);
    rest = rest.slice(i + 1);
    return l;
}
exports.call = async (file, f, args) => {
    fs.writeSync(1, "\n\u0001" + JSON.stringify({ file, f, args: args.map((a) => (a instanceof Uint8Array ? Array.from(a) : a)) }) + "\n");
    const r = JSON.parse(line());
    if (r.error !== undefined) throw new Error(r.error);
    return r.ok;
};
