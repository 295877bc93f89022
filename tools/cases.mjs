// List the number of cases of the given harness functions: node cases.mjs FILE.wasm name...
import fs from 'node:fs';
const [file, ...names] = process.argv.slice(2);
const m = new WebAssembly.Module(fs.readFileSync(file));
const imports = {};
for (const i of WebAssembly.Module.imports(m)) (imports[i.module] ??= {})[i.name] = () => { throw new Error('host call'); };
if (imports.sym?.concretize) imports.sym.concretize = x => x;
const e = new WebAssembly.Instance(m, imports).exports;
console.log(JSON.stringify(Object.fromEntries(names.map(n => [n, e['cases_' + n] ? e['cases_' + n]() : -1]))));
