// bundle.cjs <index.ts> <out.js> <json: {"export": ["f", ...], ...}>
// The tool's own code with stand-ins for the network client, the network list and the generated API.
const path = require("path");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const [entry, outfile, api] = process.argv.slice(2);
const modules = JSON.parse(api);
const stub = (f) => ({ path: path.join(__dirname, f) });
esbuild
    .build({
        entryPoints: [entry],
        outfile,
        bundle: true,
        platform: "node",
        target: "node18",
        logLevel: "silent",
        plugins: [
            {
                name: "stand-ins",
                setup(b) {
                    b.onResolve({ filter: /^@fluencelabs\/fluence$/ }, () => stub("fluence.cjs"));
                    b.onResolve({ filter: /^@fluencelabs\/fluence-network-environment$/ }, () => stub("network.cjs"));
                    b.onResolve({ filter: /^bs58$/ }, () => stub("bs58.cjs"));
                    b.onResolve({ filter: /(^|\/)generated\// }, (a) => ({ path: path.basename(a.path).replace(/\.js$/, ""), namespace: "api" }));
                    b.onLoad({ filter: /.*/, namespace: "api" }, (a) => {
                        if (!modules[a.path]) return { errors: [{ text: "no Aqua file " + a.path }] };
                        const wire = JSON.stringify(path.join(__dirname, "wire.cjs"));
                        return {
                            contents: `import { call } from ${wire};\n` + modules[a.path].map((f) => `export const ${f} = (...a) => call(${JSON.stringify(a.path)}, ${JSON.stringify(f)}, a);`).join("\n"),
                            resolveDir: __dirname,
                        };
                    });
                },
            },
        ],
    })
    .then(
        () => process.exit(0),
        (e) => {
            console.error(e.message);
            process.exit(2);
        }
    );
