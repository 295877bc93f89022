// The "lab" functions on V8.  Modules produced by the code under test, and originals run without
// reference events, are executed by V8; the reference runs (original program plus the events it has to
// report) and the text assembler come from the transcript of a concrete run of wsym.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { execFileSync } from 'node:child_process';

// ---- a reader/writer for the sections that matter: give every memory, table, global and the start
// function an export, and drop the start section
function expose(b) {
  let p = 8; const secs = [];
  const leb = (o) => { let r = 0, s = 0, x; do { x = b[o.p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128); return r; };
  const enc = (n) => { const o = []; do { let x = n % 128; n = Math.floor(n / 128); o.push(n ? x | 128 : x); } while (n); return o; };
  while (p < b.length) { const id = b[p]; const o = { p: p + 1 }; const n = leb(o); secs.push({ id, from: o.p, to: o.p + n }); p = o.p + n; }
  const data = [];
  const count = [0, 0, 0, 0]; let start = null; let exp = { n: 0, bytes: [] };
  const gtypes = [], ttypes = [];
  const name = (o) => { const n = leb(o); o.p += n; };
  const lim = (o) => { const f = b[o.p++]; leb(o); if (f & 1) leb(o); };
  for (const s of secs) {
    const o = { p: s.from };
    if (s.id === 2) { for (let k = leb(o); k > 0; k--) { name(o); name(o); const kind = b[o.p++]; count[kind]++; if (kind === 0) leb(o); else if (kind === 1) { ttypes.push(b[o.p++]); lim(o); } else if (kind === 2) lim(o); else { gtypes.push(b[o.p]); o.p += 2; } } }
    if (s.id === 3) count[0] += leb(o);
    if (s.id === 4) { const k = leb(o); count[1] += k; }
    if (s.id === 5) count[2] += leb(o);
    if (s.id === 6) { const k = leb(o); count[3] += k; }
    if (s.id === 7) { exp.n = leb(o); exp.bytes = [...b.slice(o.p, s.to)]; }
    if (s.id === 8) start = leb(o);
    // where active segments with a constant offset put their bytes
    if (s.id === 11) for (let k = leb(o); k > 0; k--) { const f = leb(o); if (f === 2) leb(o); let at; if (f !== 1) { if (b[o.p] === 0x41) { let r = 0, h = 0, x; o.p++; do { x = b[o.p++]; r |= (x & 127) << h; h += 7; } while (x & 128); if (h < 32 && x & 64) r |= -1 << h; at = r >>> 0; o.p++; } else while (b[o.p++] !== 0x0b); } const n = leb(o); if (at !== undefined) data.push([at, n]); o.p += n; }
  }
  let n = exp.n; const add = [];
  const put = (nm, kind, i) => { const e = [...Buffer.from(nm)]; add.push(...enc(e.length), ...e, kind, ...enc(i)); n++; };
  for (let i = 0; i < count[1]; i++) put(`\u0001table${i}`, 1, i);
  for (let i = 0; i < count[2]; i++) put(`\u0001memory${i}`, 2, i);
  for (let i = 0; i < count[3]; i++) put(`\u0001global${i}`, 3, i);
  if (start !== null) put('\u0001start', 0, start);
  const out = [...b.slice(0, 8)]; let done = false;
  const emit = () => { if (done) return; done = true; const body = [...enc(n)]; for (const x of exp.bytes) body.push(x); for (const x of add) body.push(x); out.push(7, ...enc(body.length)); for (const x of body) out.push(x); };
  for (const s of secs) {
    if (s.id === 7 || s.id === 8) { if (s.id === 7) emit(); continue; }
    if (s.id !== 0 && (s.id > 7)) emit();
    out.push(s.id, ...enc(s.to - s.from)); for (let i = s.from; i < s.to; i++) out.push(b[i]);
  }
  emit();
  return { bytes: new Uint8Array(out), count, data };
}
// value types of functions: parsed from the type section, since the JS API does not offer them
function types(b) {
  let p = 8; const o = { p: 0 }; const tys = [], imps = [], funcs = [], exps = new Map();
  const leb = () => { let r = 0, s = 0, x; do { x = b[o.p++]; r += (x & 127) * 2 ** s; s += 7; } while (x & 128); return r; };
  const str = () => { const n = leb(); const s = Buffer.from(b.slice(o.p, o.p + n)).toString(); o.p += n; return s; };
  const lim = () => { const f = b[o.p++]; const mn = leb(); return [mn, f & 1 ? leb() : undefined]; };
  while (p < b.length) {
    const id = b[p]; o.p = p + 1; const n = leb(); const end = o.p + n;
    if (id === 1) for (let k = leb(); k > 0; k--) { o.p++; const ps = [], rs = []; for (let j = leb(); j > 0; j--) ps.push(b[o.p++]); for (let j = leb(); j > 0; j--) rs.push(b[o.p++]); tys.push([ps, rs]); }
    if (id === 2) for (let k = leb(); k > 0; k--) { const ns = str(), nm = str(); const kind = b[o.p++]; if (kind === 0) { const t = leb(); imps.push({ ns, nm, kind, t: tys[t] }); funcs.push(tys[t]); } else if (kind === 1) { const t = b[o.p++]; imps.push({ ns, nm, kind, t, lim: lim() }); } else if (kind === 2) imps.push({ ns, nm, kind, lim: lim() }); else { const t = b[o.p++]; imps.push({ ns, nm, kind, t, mut: b[o.p++] }); } }
    if (id === 3) for (let k = leb(); k > 0; k--) funcs.push(tys[leb()]);
    if (id === 7) for (let k = leb(); k > 0; k--) { const nm = str(); const kind = b[o.p++]; exps.set(nm, { kind, i: leb() }); }
    p = end;
  }
  return { imps, funcs, exps };
}
const buf = new DataView(new ArrayBuffer(8));
const I32 = 0x7f, I64 = 0x7e, F32 = 0x7d, F64 = 0x7c;
function toBits(t, v) { switch (t) { case I32: return BigInt.asUintN(32, BigInt(v)); case I64: return BigInt.asUintN(64, v); case F32: if (v !== v) return 0x7fc00000n; buf.setFloat32(0, v); return BigInt(buf.getUint32(0)); case F64: if (v !== v) return 0x7ff8000000000000n; buf.setFloat64(0, v); return buf.getBigUint64(0); default: return 0n; } }
function fromBits(t, x) { switch (t) { case I32: return Number(BigInt.asIntN(32, x)); case I64: return BigInt.asIntN(64, x); case F32: buf.setUint32(0, Number(BigInt.asUintN(32, x))); return buf.getFloat32(0); case F64: buf.setBigUint64(0, BigInt.asUintN(64, x)); return buf.getFloat64(0); default: return null; } }
const tname = { i32: I32, i64: I64, f32: F32, f64: F64 };
// the sign and payload of a computed NaN are up to the engine (and to its optimiser): one NaN stands for all
const nan = (t, x) => t === F32 ? (x & 0x7f800000n) === 0x7f800000n && (x & 0x7fffffn) !== 0n : t === F64 ? (x & 0x7ff0000000000000n) === 0x7ff0000000000000n && (x & 0xfffffffffffffn) !== 0n : false;
const same = (t, a, b) => a === b || (nan(t, a) && nan(t, b));

export function make({ Stop, input, memory, str, logs, inputs, bytes, seek, wasm, func, kase }) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'lab-')); const tf = path.join(dir, 't.json');
  let tr;
  try {
    try { execFileSync(process.env.WSYM, [wasm, '--func', func, '--case', String(kase), '--inputs', inputs.map(i => i[2]).join(','), '--bytes', bytes.map(([a, v]) => `${a}=${v}`).join(','), '--transcript', tf, '--out', path.join(dir, 'o.json')], { stdio: 'ignore' }); } catch (e) { /* a violation: exit status 1 */ }
    tr = JSON.parse(fs.readFileSync(tf, 'utf8'));
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
  const queue = {}; for (const e of tr) { const k = e.k === 'invoke' ? `invoke${e.w}` : e.k; (queue[k] ||= []).push(e); }
  // exhausted transcript: the recorded run stopped here, at its violation
  const take = (k) => { const e = (queue[k] || []).shift(); if (!e) throw new Stop('violation', 'the concrete run of the executor ends here'); return e; };
  const blobs = [], worlds = [], refcfgs = [];
  let lastError = '', bound = Infinity, boundEnv = Infinity;
  const bytesAt = (p, n) => new Uint8Array(memory().buffer, p >>> 0, n >>> 0).slice();
  const text = (p, n) => Buffer.from(bytesAt(p, n)).toString();
  const hx = (h) => Uint8Array.from(Buffer.from(h, 'hex'));
  const fail = (m) => { throw new Stop('violation', m); };
  function advice(w, k, t) {
    const nm = `advice:${w.events.length}:${k}`;
    const i = inputs.find(i => i[0] === nm);
    return i ? BigInt(i[2]) : input(nm, t === I64 || t === F64 ? 64 : 32);
  }
  let stopped = null;   // a Stop thrown inside a host function called from Wasm would look like a trap
  const guard = (f) => (...a) => { if (stopped) throw stopped; try { return f(...a); } catch (e) { if (e instanceof Stop) stopped = e; throw e; } };
  function event(w, name, t) {
    return guard((...args) => {
      const [ps, rs] = t; const n = w.events.length;
      const bits = args.map((a, k) => toBits(ps[k], a));
      if (w.cmp !== undefined) {
        const e = worlds[w.cmp].events[n];
        if (!e) fail(`unexpected event ${n}: ${name}`);
        if (e.name !== name) fail(`event ${n} is ${name}, expected ${e.name}`);
        if (String(e.tys) !== String(ps) || String(e.rtys) !== String(rs)) fail(`event ${n} (${name}) has the wrong signature`);
        for (let k = 0; k < ps.length; k++) if (!same(ps[k], bits[k], e.args[k])) fail(`argument ${k} of event ${n} (${name}) differs: ${bits[k]} instead of ${e.args[k]}`);
      } else if (w.follows !== undefined) { if (n >= worlds[w.follows].events.length + 400) fail('the instrumented run does not end although the original does'); }
      else if (n >= bound || (name.startsWith('env.') && w.events.filter(e => e.name.startsWith('env.')).length >= boundEnv)) throw new Stop('ok', 'outside the bound');
      const res = rs.map((r, k) => {
        const a = advice(w, k, r);
        const e = w.cmp === undefined && w.follows !== undefined && worlds[w.follows].events[n];
        if (!e || k > 0 || ps[0] !== r || e.tys[0] !== r || (r !== I32 && r !== I64 && r !== F32 && r !== F64)) return a;
        const b = r === I64 || r === F64 ? 64 : 32;
        const of = (v) => { const x = BigInt.asUintN(b, v); return r === F32 && (x & 0x7fffffffn) > 0x7f800000n ? 0x7fc00000n : r === F64 && (x & 0x7fffffffffffffffn) > 0x7ff0000000000000n ? 0x7ff8000000000000n : x; };
        return BigInt.asUintN(b, BigInt.asUintN(b, a) + of(bits[0]) - of(e.args[0]));
      });
      w.events.push({ name, args: bits, tys: ps, res, rtys: rs });
      const vals = res.map((x, k) => fromBits(rs[k], x));
      return vals.length === 0 ? undefined : vals.length === 1 ? vals[0] : vals;
    });
  }
  function startWorld(w) {
    const by = new Map(w.mods.map((m, i) => [m.ns, i]));
    const insts = w.mods.map(() => null); const busy = new Set();
    function inst(i) {
      if (insts[i]) return insts[i];
      if (busy.has(i)) throw new Error('circular import'); busy.add(i);
      const m = w.mods[i]; const im = {};
      for (const d of m.ty.imps) {
        im[d.ns] ||= {};
        const j = by.get(d.ns);
        if (j !== undefined) {
          const e = w.mods[j].ty.exps.get(d.nm);
          if (!e) throw new Error(`${d.ns} does not export ${d.nm}`);
          if (e.kind !== d.kind) throw new Error(`import ${d.ns}.${d.nm}: kind mismatch`);
          if (d.kind === 0) { if (String(w.mods[j].ty.funcs[e.i]) !== String(d.t)) throw new Error(`import ${d.ns}.${d.nm}: signature mismatch`); im[d.ns][d.nm] = (...a) => insts[j].exports[d.nm](...a); }
          else im[d.ns][d.nm] = inst(j).exports[d.nm];
        } else if (d.kind === 0) im[d.ns][d.nm] = event(w, d.ns === 'WASTRUMENTATION_ANALYSIS' ? d.nm : `${d.ns}.${d.nm}`, d.t);
        else if (d.kind === 1) im[d.ns][d.nm] = new WebAssembly.Table({ element: d.t === 0x70 ? 'anyfunc' : 'externref', initial: d.lim[0], maximum: d.lim[1] });
        else if (d.kind === 2) im[d.ns][d.nm] = new WebAssembly.Memory({ initial: d.lim[0], maximum: d.lim[1] });
        else { const nm = `global:${d.ns}.${d.nm}`; const q = inputs.find(x => x[0] === nm); const tn = { [I32]: 'i32', [I64]: 'i64', [F32]: 'f32', [F64]: 'f64' }[d.t] || 'externref'; im[d.ns][d.nm] = new WebAssembly.Global({ value: tn, mutable: !!d.mut }, q ? fromBits(d.t, BigInt(q[2])) : d.t === I64 ? 0n : 0); }
      }
      insts[i] = new WebAssembly.Instance(m.module, im);
      if ((m.flags & 5) === 1 && bytes.length && m.count[2] && !m.ty.imps.some((d) => d.kind === 2 && by.has(d.ns))) {
        const mb = new Uint8Array(insts[i].exports['\u0001memory0'].buffer);
        for (const [a, v] of bytes) if (a < mb.length && !m.data.some(([p, n]) => a >= p && a < p + n)) mb[a] = v;
      }
      busy.delete(i);
      return insts[i];
    }
    w.mods.forEach((_, i) => inst(i));
    w.insts = insts;
  }
  function code(e) {
    const m = e.message;
    if (/call stack/i.test(m)) return 9;
    if (/unreachable/.test(m)) return 1; if (/by zero/.test(m)) return 2; if (/divide result/.test(m)) return 3; if (/float unrepresentable/.test(m)) return 4;
    if (/memory access/.test(m) || /segment out of bounds|memory.*out of bounds/.test(m)) return 5; if (/table index|table access|table.*out of bounds/.test(m)) return 6; if (/null function|signature/.test(m)) return 7;
    return 10;
  }
  const of = (h) => { const w = worlds[h >>> 8]; return { w, m: w.mods[h & 255], inst: w.insts && w.insts[h & 255] }; };
  function invoke(h, exp, args, rp) {
    const { w, m, inst } = of(h);
    const e = m.ty.exps.get(exp);
    if (exp !== '\u0001start' && (!e || e.kind !== 0)) return -1;
    if (w.ref) {
      const t = take(`invoke${h >>> 8}`);
      w.events = t.events.map(([name, args, tys, res, rtys]) => ({ name, args: args.map(BigInt), tys: tys.map(x => tname[x]), res: res.map(BigInt), rtys: rtys.map(x => tname[x]) }));
      t.res.forEach((x, k) => new DataView(memory().buffer).setBigUint64((rp >>> 0) + 8 * k, BigInt(x), true));
      seek(t.inputs);
      return t.status;
    }
    const ft = exp === '\u0001start' ? [[], []] : m.ty.funcs[e.i];
    try {
      const r = inst.exports[exp](...ft[0].map((t, k) => fromBits(t, args(k))));
      if (stopped) throw stopped;
      const rs = ft[1].length === 0 ? [] : ft[1].length === 1 ? [r] : r;
      rs.forEach((v, k) => new DataView(memory().buffer).setBigUint64((rp >>> 0) + 8 * k, toBits(ft[1][k], v), true));
      return 0;
    } catch (x) {
      if (stopped) throw stopped;
      if (x instanceof WebAssembly.RuntimeError || x instanceof RangeError) return code(x);
      throw x;
    }
  }
  return {
    wat: () => { const t = take('wat'); if (t.hex === null) return -1; blobs.push(hx(t.hex)); return blobs.length - 1; },
    blob: (p, n) => { blobs.push(bytesAt(p, n)); return blobs.length - 1; },
    blob_len: b => blobs[b].length,
    blob_read: (b, p) => { new Uint8Array(memory().buffer).set(blobs[b], p >>> 0); },
    world: () => { worlds.push({ mods: [], events: [], ref: false }); return worlds.length - 1; },
    world_cmp: (w, r) => { worlds[w].follows = r & 0xffff; if (!(r >>> 31)) worlds[w].cmp = r; },
    ref_cfg: () => { refcfgs.push(0); return refcfgs.length - 1; },
    add: (w, b, p, n, flags, rc) => {
      try { const bytes = blobs[b]; const x = expose(bytes); const m = { ns: text(p, n), module: new WebAssembly.Module(x.bytes), ty: types(bytes), count: x.count, flags, data: x.data }; worlds[w].mods.push(m); if (rc !== -1) worlds[w].ref = true; return (w << 8) | (worlds[w].mods.length - 1); }
      catch (e) { if (!(e instanceof WebAssembly.CompileError)) throw e; lastError = String(e.message); return -1; }
    },
    start: w => { if (worlds[w].ref) return 0; try { startWorld(worlds[w]); return 0; } catch (e) { if (e instanceof Stop) throw e; lastError = String(e.message); return 1; } },
    run_start: h => { const { w, m, inst } = of(h); if (w.ref) return invoke(h, '\u0001start', () => 0n, 0); if (!inst.exports['\u0001start']) return 0; return invoke(h, '\u0001start', () => 0n, 0); },
    invoke: (h, p, n, ap, rp) => invoke(h, text(p, n), k => new DataView(memory().buffer).getBigUint64((ap >>> 0) + 8 * k, true), rp),
    has_export: (h, p, n) => of(h).m.ty.exps.has(text(p, n)) ? 1 : 0,
    event_count: w => worlds[w].events.length,
    events_done: w => { const r = worlds[w].cmp; if (r !== undefined && worlds[w].events.length < worlds[r].events.length) fail(`event ${worlds[w].events.length} (${worlds[r].events[worlds[w].events.length].name}) is missing from the instrumented run`); },
    event_is: (w, i, p, n) => { const e = worlds[w].events[i]; return e && e.name === text(p, n) ? 1 : 0; },
    event_arg: (w, i, k) => BigInt.asIntN(64, worlds[w].events[i]?.args[k] ?? 0n),
    event_res: (w, i, k) => BigInt.asIntN(64, worlds[w].events[i]?.res[k] ?? 0n),
    cmp_state: (p, q) => {
      const t = take('state'); const a = of(p), b = of(q);
      const nb = b.m.count;
      const G = (x, k) => x.inst.exports[`\u0001global${k}`];
      t.globals.forEach(([ty, v], k) => { if (!tname[ty]) return; if (k >= nb[3]) fail('globals disappeared'); const g = G(b, k).value; const want = a.w.ref ? BigInt(v) : toBits(tname[ty], G(a, k).value); if (!same(tname[ty], toBits(tname[ty], g), want)) fail(`global ${k} differs after the run`); });
      if (t.pages >= 0) {
        if (nb[2] === 0) fail('memory disappeared');
        const mb = new Uint8Array(b.inst.exports['\u0001memory0'].buffer);
        let ma; if (a.w.ref) { ma = new Uint8Array(t.pages * 65536); for (const [i, v] of t.mem) ma[i] = v; } else ma = new Uint8Array(a.inst.exports['\u0001memory0'].buffer);
        if (ma.length !== mb.length) fail('memory size differs after the run');
        if (Buffer.compare(ma, mb) !== 0) fail('memory contents differ after the run');
      }
      t.tables.forEach((tb, k) => { const x = b.inst.exports[`\u0001table${k}`]; if (!x || x.length !== tb.length || tb.some((e, i) => !!e !== (x.get(i) !== null))) fail(`table ${k} differs after the run`); });
    },
    global_get: (h, g) => { const x = of(h); const t = take('global'); if (x.w.ref) return BigInt.asIntN(64, BigInt(t.v)); const v = x.inst.exports[`\u0001global${g}`].value; return BigInt.asIntN(64, typeof v === 'bigint' ? v : BigInt.asUintN(32, BigInt(Math.trunc(v)))); },
    mem_byte: (h, a) => { const x = of(h); const t = take('membyte'); if (x.w.ref) return Number(t.v); return new Uint8Array(x.inst.exports['\u0001memory0'].buffer)[a >>> 0]; },
    describe: () => { blobs.push(hx(take('describe').hex)); return blobs.length - 1; },
    last_error: (p, cap) => { const e = Buffer.from(lastError).subarray(0, cap); new Uint8Array(memory().buffer).set(e, p >>> 0); return e.length; },
    bound: n => { bound = n & 0xffff; boundEnv = (n >>> 16) || Infinity; },
  };
}
