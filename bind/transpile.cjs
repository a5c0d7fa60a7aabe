const ts = require("/opt/veriftools/node/node_modules/typescript"), fs = require("fs");
const r = ts.transpileModule(fs.readFileSync(process.argv[2], "utf8"), { compilerOptions: { target: "es2022", module: "es2020" }, reportDiagnostics: true });
if (r.diagnostics.length) { console.error(JSON.stringify(r.diagnostics.map(d => d.messageText))); process.exit(1); }
fs.writeFileSync(process.argv[3], r.outputText);
