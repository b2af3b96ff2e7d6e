// bundle.cjs REPO OUT: bundles demo.mjs with the front end as it is in REPO.
const path = require("path");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const [repo, out] = process.argv.slice(2);
const here = __dirname;
esbuild
  .build({
    entryPoints: [path.join(here, "demo.mjs")],
    outfile: out,
    bundle: true,
    format: "esm",
    platform: "node",
    target: "esnext",
    logLevel: "error",
    define: { "import.meta.env": '{"DEV":false}' },
    plugins: [
      {
        name: "page",
        setup(b) {
          b.onResolve({ filter: /aftermath-core\/pkg$/ }, () => ({ path: path.join(here, "fakecore.mjs") }));
          b.onResolve({ filter: /^front-end\// }, (a) => ({ path: path.join(repo, "src", a.path.slice(10)) }));
          b.onResolve({ filter: /^lil-gui$/ }, () => ({ path: "lil-gui", namespace: "none" }));
          b.onResolve({ filter: /\.css(\?inline)?$/ }, (a) => ({ path: a.path, namespace: "none" }));
          b.onLoad({ filter: /.*/, namespace: "none" }, () => ({ contents: "export default ''; export class GUI {}" }));
        },
      },
    ],
  })
  .catch(() => process.exit(1));
