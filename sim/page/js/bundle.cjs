// bundle.cjs OUT DEV: bundles the simulated page with the front end as it is in /repo.
const path = require("path");
const fs = require("fs");
const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
const [out, dev] = process.argv.slice(2);
const here = __dirname;
const repo = path.resolve(here, "../../../../repo");
esbuild
  .build({
    entryPoints: [path.join(here, "world.mjs")],
    outfile: out,
    bundle: true,
    format: "esm",
    platform: "node",
    target: "esnext",
    logLevel: "error",
    sourcemap: false,
    define: { "import.meta.env": JSON.stringify({ DEV: dev === "dev", PROD: dev !== "dev" }) },
    plugins: [
      {
        name: "page",
        setup(b) {
          b.onResolve({ filter: /aftermath-core\/pkg$/ }, () => ({ path: path.join(here, "pkg.mjs") }));
          b.onResolve({ filter: /^front-end\// }, (a) => ({ path: path.join(repo, "src", a.path.slice(10)) }));
          b.onResolve({ filter: /^lil-gui$/ }, () => ({ path: "lil-gui", namespace: "none" }));
          b.onResolve({ filter: /\.css\?inline$/ }, (a) => ({ path: path.resolve(a.resolveDir, a.path.slice(0, -7)), namespace: "text" }));
          b.onLoad({ filter: /.*/, namespace: "text" }, (a) => ({ contents: fs.readFileSync(a.path, "utf8"), loader: "text" }));
          b.onResolve({ filter: /\.css$/ }, (a) => ({ path: a.path, namespace: "none" }));
          b.onLoad({ filter: /.*/, namespace: "none" }, () => ({ contents: "export default ''; export class GUI {}" }));
        },
      },
    ],
  })
  // The set-up of the page (main.ts), as a function that can be called again
  .then(() =>
    esbuild.build({
      entryPoints: [path.join(repo, "src/main.ts")],
      outfile: out.replace(/\.mjs$/, ".main.cjs"),
      bundle: true,
      format: "cjs",
      platform: "node",
      target: "esnext",
      logLevel: "error",
      define: { "import.meta.env": JSON.stringify({ DEV: dev === "dev", PROD: dev !== "dev" }) },
      plugins: [
        {
          name: "setup",
          setup(b) {
            b.onResolve({ filter: /component\/math-editor(\.ts)?$/ }, () => ({ path: "math-editor", external: true }));
            b.onResolve({ filter: /^lil-gui$/ }, () => ({ path: "lil-gui", namespace: "none" }));
            b.onResolve({ filter: /\.css(\?inline)?$/ }, (a) => ({ path: a.path, namespace: "none" }));
            b.onLoad({ filter: /.*/, namespace: "none" }, () => ({ contents: "export default ''; export class GUI { add() {} }" }));
          },
        },
      ],
    })
  )
  .catch(() => process.exit(1));
