const crypto = require("crypto");
const bs58 = require("./bs58.cjs");
class KeyPair {
    static async fromEd25519SK(sk) {
        const b = Buffer.from(sk);
        if (b.length !== 32) throw new Error("ed25519 secret of " + b.length + " bytes");
        const key = crypto.createPrivateKey({ key: Buffer.concat([Buffer.from("302e020100300506032b657004220420", "hex"), b]), format: "der", type: "pkcs8" });
        const pub = crypto.createPublicKey(key).export({ format: "der", type: "spki" }).subarray(12);
        const id = bs58.encode(Buffer.concat([Buffer.from("002408011220", "hex"), pub]));
        const kp = new KeyPair();
        kp.Libp2pPeerId = {
            toB58String: () => id,
            toString: () => id,
            privKey: { sign: async (m) => new Uint8Array(crypto.sign(null, Buffer.from(m), key)) },
        };
        return kp;
    }
}
let relay = null;
exports.KeyPair = KeyPair;
exports.Fluence = {
    start: async (o) => {
        relay = typeof o.connectTo === "string" ? o.connectTo : o.connectTo.peerId;
    },
    stop: async () => {},
    getStatus: () => ({ isInitialized: true, isConnected: true, peerId: process.env.MC_CLIENT, relayPeerId: relay }),
};
