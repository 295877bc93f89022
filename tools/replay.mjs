// Replay one assignment of the symbolic inputs on V8 (an engine independent of wsym).
//   node replay.mjs HARNESS.wasm FUNC CASE INPUTS.json      INPUTS: [[name,bits,"value"],...]
// Prints {"outcome":"violation"|"ok"|"assume"|"panic-expected"|"mismatch"|"unsupported","msg":...}
import fs from 'node:fs';
const [file, func, kase, inputsFile] = process.argv.slice(2);
const given = JSON.parse(fs.readFileSync(inputsFile, 'utf8'));
// initial contents of memories are given apart from the inputs the harness asks for
const inputs = given.filter(i => !i[0].startsWith('byte:')), bytes = given.filter(i => i[0].startsWith('byte:')).map(i => [Number(i[0].slice(5)), Number(i[2])]);
class Stop extends Error { constructor(outcome, msg) { super(msg); this.outcome = outcome; } }
let next = 0, expectPanic = false, mem, witnesses = [], logs = [];
const dec = new TextDecoder();
const str = (p, n) => dec.decode(new Uint8Array(mem.buffer, p >>> 0, n >>> 0));
function input(name, bits) {
  // imported globals and advice results are looked up by name where they are needed
  while (next < inputs.length && inputs[next][0] !== name && /^(global|advice):/.test(inputs[next][0])) next++;
  if (next >= inputs.length) return 0n;        // not constrained by the counterexample
  const [n, b, v] = inputs[next++];
  if (n !== name || b !== bits) throw new Stop('mismatch', `input ${next - 1}: ${name}/${bits} requested, ${n}/${b} recorded`);
  return BigInt(v);
}
const sym = {
  any: (bits, p, n) => BigInt.asIntN(64, input(str(p, n), bits)),
  bytes: (p, len, bits, np, nn) => { const nm = str(np, nn); for (let i = 0; i < len; i++) { const v = Number(input(`${nm}[${i}]`, bits)); new Uint8Array(mem.buffer)[(p >>> 0) + i] = v; } },
  assume: c => { if (!c) throw new Stop('assume', 'an assumption does not hold'); },
  check: (c, p, n) => { if (!c) throw new Stop('violation', str(p, n)); },
  choose: (k, p, n) => { if (k === 0) throw new Stop('assume', 'empty choice'); return Number(input(str(p, n), 32)); },
  concretize: x => x,
  witness: (p, n) => { witnesses.push(str(p, n)); },
  fail: (p, n) => { throw new Stop('violation', str(p, n)); },
  log: (p, n) => { logs.push(str(p, n)); },
  panic: (p, n) => { if (expectPanic) throw new Stop('panic-expected', str(p, n)); throw new Stop('violation', 'panic: ' + str(p, n)); },
  expect_panic: c => { expectPanic = !!c; },
  eq_bytes: (p, q, n) => { const u = new Uint8Array(mem.buffer); p >>>= 0; q >>>= 0; n >>>= 0; for (let i = 0; i < n; i++) if (u[p + i] !== u[q + i]) return 0; return 1; },
  is_symbolic: () => 0,
  end: () => { throw new Stop('ok', 'end'); },
  feasible: c => c ? 1 : 0,
  select: (c, a, b) => c ? a : b,
};
let labHost = null;
let res;
try {
  const module = new WebAssembly.Module(fs.readFileSync(file));
  const imports = { sym };
  if (WebAssembly.Module.imports(module).some(i => i.module === 'lab')) {
    labHost = await import('./lab.mjs');
    imports.lab = labHost.make({ Stop, input, memory: () => mem, str, logs, inputs, bytes, seek: n => { next = n; }, wasm: file, func, kase });
  }
  const inst = new WebAssembly.Instance(module, imports);
  mem = inst.exports.memory;
  inst.exports[func](Number(kase));
  res = { outcome: 'ok', msg: '' };
} catch (e) {
  if (e instanceof Stop) res = { outcome: e.outcome, msg: e.message };
  else if (e instanceof WebAssembly.RuntimeError) res = expectPanic ? { outcome: 'panic-expected', msg: String(e.message) } : { outcome: 'violation', msg: 'trap in the code under test: ' + e.message };
  else res = { outcome: 'unsupported', msg: String(e && e.stack || e) };
}
res.witnesses = witnesses; res.logs = logs; res.used = next; res.given = inputs.length;
console.log(JSON.stringify(res));
