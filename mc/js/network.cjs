const n = JSON.parse(process.env.MC_NETWORK);
const nodes = (l) => l.map((peerId) => ({ peerId, multiaddr: "/ip4/127.0.0.1/tcp/9990/ws/p2p/" + peerId }));
exports.krasnodar = nodes(n.krasnodar);
exports.stage = nodes(n.stage);
exports.testNet = nodes(n.testNet);
