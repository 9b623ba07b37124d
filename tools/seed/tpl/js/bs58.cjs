const A = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
exports.encode = (bytes) => {
    let n = 0n;
    for (const b of bytes) n = n * 256n + BigInt(b);
    let s = "";
    for (; n > 0n; n /= 58n) s = A[Number(n % 58n)] + s;
    for (const b of bytes) {
        if (b !== 0) break;
        s = "1" + s;
    }
    return s;
};
exports.decode = (s) => {
    let n = 0n;
    for (const c of s) {
        const d = A.indexOf(c);
        if (d < 0) throw new Error("Non-base58 character");
        n = n * 58n + BigInt(d);
    }
    const out = [];
    for (; n > 0n; n /= 256n) out.unshift(Number(n % 256n));
    for (const c of s) {
        if (c !== "1") break;
        out.unshift(0);
    }
    return Uint8Array.from(out);
};
exports.default = exports;
