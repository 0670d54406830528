// Native replay of one harness run of the WebAssembly build, with the output of runner.c.
//
// node runner.mjs WASM HARNESS PARAMS TRACE FILL e|f<offset>
//
// Every object lies between red zones that are compared afterwards. WebAssembly can only trap at
// the end of its memory, so the run is repeated with one object after the other placed right there.
import fs from 'node:fs';
const [, , file, harness, pars, trace, fillHex, guard] = process.argv;
const params = pars === '-' ? [] : pars.split(',').map((x) => BigInt(x));
const fill = parseInt(fillHex, 16);
const evs = fs.readFileSync(trace, 'utf8').split('\n').map((l) => l.trim()).filter((l) => l)
  .map((l) => ({ kind: l[0], text: l.slice(2) }));
const mod = new WebAssembly.Module(fs.readFileSync(file));
const PAGE = 65536;
class Stop extends Error {}

function run(last) {
  const out = [];
  const objs = [];
  let buffers = 0, mem, bump, iev = 0, panicOk = -1, end;
  const u8 = () => new Uint8Array(mem.buffer);
  const next = (k) => (iev < evs.length && evs[iev].kind === k ? evs[iev++] : null);
  function place(n, align, heap) {
    n = Number(n);
    align = Math.max(Number(align), 1);
    const z = 4096;
    let base;
    if (objs.length === last) {
      base = end - n;
      base -= base % align;
    } else {
      const g = guard[0] === 'f' ? Number(guard.slice(1)) : 1;
      const off = heap ? 1 : buffers % 2 && g >> 16 ? (g >> 16) - 1 : g & 0xffff;
      bump += z;
      bump += (4096 - (bump % 4096)) % 4096;
      base = bump + align * off % 4096;
      bump = base + n + z;
      if (bump > end - 16 * 1024 * 1024) { out.push('ERROR memory'); throw new Stop(); }
    }
    if (!heap) buffers++;
    const m = u8();
    m.fill(fill, Math.max(base - z, 0), Math.min(base + n + z, end));
    objs.push({ base, n, align, heap, live: true, lo: Math.max(base - z, 0), hi: Math.min(base + n + z, end), copy: null });
    return base;
  }
  const find = (p) => { for (let i = objs.length - 1; i >= 0; i--) if (objs[i].base === p && objs[i].live) return objs[i]; return null; };
  const env = {
    vf_param: (i) => { if (Number(i) >= params.length) { out.push('ERROR param'); throw new Stop(); } return params[Number(i)]; },
    vf_nparams: () => BigInt(params.length),
    vf_sym: (p, n) => {
      p >>>= 0;
      const e = next('S'), m = u8();
      for (let i = 0; i < Number(n); i++) m[p + i] = e && 2 * i + 2 <= e.text.length ? parseInt(e.text.slice(2 * i, 2 * i + 2), 16) : 0;
    },
    vf_sym_u64: () => {
      const e = next('S');
      let x = 0n;
      for (let i = 7; i >= 0; i--) x = (x << 8n) | BigInt(e && 2 * i + 2 <= e.text.length ? parseInt(e.text.slice(2 * i, 2 * i + 2), 16) : 0);
      return x;
    },
    vf_choose: (n) => { const e = next('C'); return e ? BigInt(e.text) % BigInt.asUintN(64, n) : 0n; },
    vf_assume: (c) => { if (!(c & 1)) { out.push('FAIL assume'); throw new Stop(); } },
    vf_assert: (c, id) => { if (!(c & 1)) out.push('FAIL assert ' + id); },
    vf_assert_eq: (p, q, n, id) => {
      p >>>= 0; q >>>= 0;
      const m = u8();
      for (let i = 0; i < Number(n); i++) if (m[p + i] !== m[q + i]) { out.push('FAIL assert ' + id); return; }
    },
    vf_ite: (c, a, b) => ((c & 1) ? a : b),
    vf_cover: () => {},
    vf_alloc: (n, a) => place(n, a, false),
    vf_protect: (p) => { const o = find(p >>> 0); if (o) o.copy = u8().slice(o.base, o.base + o.n); },
    vf_galloc: (n, a) => place(n, a, true),
    vf_gdealloc: (p, n, a) => {
      const o = find(p >>> 0);
      if (!o || !o.heap) { out.push('FAIL dealloc unknown'); return; }
      if (o.n !== Number(n) || o.align !== Number(a)) out.push('FAIL dealloc layout');
      o.live = false;
    },
    vf_grealloc: (p, n, a, nn) => {
      const q = place(nn, a, true);
      const o = find(p >>> 0);
      let k = Math.min(Number(n), Number(nn));
      if (o) k = Math.min(k, o.n);
      u8().copyWithin(q, p >>> 0, (p >>> 0) + k);
      env.vf_gdealloc(p, n, a);
      return q;
    },
    vf_live: () => BigInt(objs.filter((o) => o.heap && o.live).length),
    vf_panic_ok: (c) => { panicOk = c & 1; },
    vf_panic_end: () => { if (panicOk === 1) out.push('FAIL nopanic'); panicOk = -1; },
    vf_result: (p, n) => out.push('RESULT ' + Buffer.from(u8().slice(p >>> 0, (p >>> 0) + Number(n))).toString('hex')),
    vf_result_u64: (x) => out.push('RESULT =' + BigInt.asUintN(64, x)),
    vf_mode: () => 1n,
    vf_panicked: () => { out.push(panicOk === 1 ? 'PANICOK' : 'FAIL panic'); throw new Stop(); },
  };
  // what the compiler's support library would provide
  Object.assign(env, {
    __multi3: (r, al, ah, bl, bh) => {
      const U = (x) => BigInt.asUintN(64, x);
      const x = BigInt.asUintN(128, ((U(ah) << 64n) | U(al)) * ((U(bh) << 64n) | U(bl)));
      const d = new DataView(mem.buffer);
      d.setBigUint64(r >>> 0, x & ((1n << 64n) - 1n), true);
      d.setBigUint64((r >>> 0) + 8, x >> 64n, true);
    },
    memcpy: (d, s, n) => { u8().copyWithin(d >>> 0, s >>> 0, (s >>> 0) + (n >>> 0)); return d; },
    memset: (d, c, n) => { u8().fill(c & 255, d >>> 0, (d >>> 0) + (n >>> 0)); return d; },
    memcmp: (p, q, n) => {
      const m = u8();
      for (let i = 0; i < (n >>> 0); i++) if (m[(p >>> 0) + i] !== m[(q >>> 0) + i]) return m[(p >>> 0) + i] - m[(q >>> 0) + i];
      return 0;
    },
  });
  env.memmove = env.memcpy;
  env.bcmp = env.memcmp;
  const need = new Set(WebAssembly.Module.imports(mod).map((x) => x.name));
  for (const n of need) if (!env[n]) { out.push('ERROR import ' + n); return out; }
  const inst = new WebAssembly.Instance(mod, { env });
  mem = inst.exports.memory;
  bump = mem.buffer.byteLength;
  mem.grow((64 * 1024 * 1024) / PAGE);
  end = mem.buffer.byteLength;
  if (!inst.exports[harness]) { out.push('ERROR no ' + harness); return out; }
  try {
    inst.exports[harness]();
    out.push('END');
  } catch (e) {
    if (!(e instanceof Stop)) out.push('FAIL signal ' + (e instanceof WebAssembly.RuntimeError ? 'trap: ' + e.message : String(e)));
  }
  const m = u8();
  objs.forEach((o, i) => {
    for (let j = o.lo; j < o.base; j++) if (m[j] !== fill && !objs.some((x) => x !== o && j >= x.base && j < x.base + x.n)) { out.push('FAIL signal write ' + (o.base - j) + ' bytes before object ' + i); break; }
    for (let j = o.base + o.n; j < o.hi; j++) if (m[j] !== fill && !objs.some((x) => x !== o && j >= x.base && j < x.base + x.n)) { out.push('FAIL signal write ' + (j - o.base - o.n) + ' bytes past object ' + i); break; }
    if (o.copy && o.live) for (let j = 0; j < o.n; j++) if (m[o.base + j] !== o.copy[j]) { out.push('FAIL signal write to read-only object ' + i); break; }
  });
  run.objs = objs.length;
  return out;
}
const first = run(-1);
let text = first;
if (guard === 'e' && !first.some((l) => l.startsWith('FAIL') || l.startsWith('ERROR'))) {
  const n = run.objs;
  for (let k = 0; k < n && k < 40; k++) {
    const o = run(k);
    if (o.some((l) => l.startsWith('FAIL'))) { text = o; break; }
  }
}
process.stdout.write(text.join('\n') + '\n');
