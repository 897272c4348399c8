// Executes calls on the product compiled for wasm32. argv: module path.
// request: header line {"f","a":[["i",v]|["l","v"]|["b",len,shift]|["s"]...],"t":tape length,"w":world} + tape + buffers; answer: {"rc","err","live","used","dirty"} line + buffers
const fs = require('fs'), vm = require('vm');
let acc = Buffer.alloc(0);
function fill(k) { while (acc.length < k) { const b = Buffer.alloc(1 << 18); const r = fs.readSync(0, b, 0, b.length, null); if (!r) process.exit(0); acc = Buffer.concat([acc, b.subarray(0, r)]); } }
function take(k) { fill(k); const r = acc.subarray(0, k); acc = acc.subarray(k); return r; }
function line() { let i; while ((i = acc.indexOf(10)) < 0) fill(acc.length + 1); return take(i + 1).toString(); }
function put(b) { let o = 0; while (o < b.length) { try { o += fs.writeSync(1, b, o, b.length - o); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } }
const memory = new WebAssembly.Memory({ initial: 512, maximum: 512 }), U = new Uint8Array(memory.buffer), TOP = 512 * 65536;
let base, brk, free, live, err, tape, used, world, watch = null, dirty = 0;
const G = 64; let oom = -1, seen = 0, inlib = false;
function alloc(n) { n = n >>> 0; if (inlib && seen++ === oom) return 0; const k = ((n + 15) & ~15) + 2 * G; let p; if (k < n || n > TOP) return 0; const q = free.get(k); if (q && q.length) p = q.pop(); else { if (brk + k + 16 > TOP) return 0; p = brk; brk += k; } U.fill(0xC7, p, p + k); p += G; live.set(p, [n, k]); return p; }
function guards(p, n, k) { for (let i = p - G; i < p; i++) if (U[i] !== 0xC7) return 'writes ' + (p - i) + ' bytes before a block of ' + n; for (let i = p + n; i < p - G + k; i++) if (U[i] !== 0xC7) return 'writes ' + (i - p - n) + ' bytes after a block of ' + n; return ''; }
function release(p) { const e = live.get(p); if (!e) { err = err || 'releases a block that is not held'; return; } const g = guards(p, e[0], e[1]); if (g) err = err || g; if (watch === p) { dirty = 0; for (let i = 0; i < e[0]; i++) if (U[p + i]) dirty++; watch = -1; } live.delete(p); if (!free.has(e[1])) free.set(e[1], []); free.get(e[1]).push(p - G); }
const progs = new Map();
function draw(v) { for (let i = 0; i < v.length; i++) { if (used >= tape.length) throw new Error('no more randomness'); v[i] = tape[used++]; } return v; }
const env = { Uint8Array, Uint32Array, Int8Array, Math, Error, RangeError, TypeError, Buffer, console: { log() {}, error() {}, warn() {} }, HEAPU8: U, HEAP8: new Int8Array(memory.buffer), Module: { HEAPU8: U }, writeArrayToMemory: (a, p) => { env.HEAP8.set(a, p); } };
const values = (a) => { if (a.byteLength > 65536) { const e = new Error('quota'); e.name = 'QuotaExceededError'; throw e; } draw(new Uint8Array(a.buffer, a.byteOffset, a.byteLength)); return a; };
const mod = { randomBytes: (k) => { if (typeof k !== 'number' || !(k >= 0 && k <= 2147483647)) throw new RangeError('ERR_OUT_OF_RANGE'); return draw(Buffer.alloc(k)); }, randomFillSync: (a) => draw(new Uint8Array(a.buffer, a.byteOffset, a.byteLength)) };
function em(code, a, b) {
    let e = code; while (U[e]) e++; const text = Buffer.from(U.subarray(code, e)).toString();
    if (world === 0) { env.window = { crypto: { getRandomValues: values } }; env.crypto = env.window.crypto; delete env.require; } else { delete env.window; delete env.crypto; env.require = (m) => { if (m !== 'crypto' && m !== 'node:crypto') throw new Error('no module'); return mod; }; }
    return vm.runInNewContext('(function($0, $1) ' + text + ')', env)(a, b) | 0;
}
const wmod = new WebAssembly.Module(fs.readFileSync(process.argv[2])); let x;
const boot = () => { x = new WebAssembly.Instance(wmod, { env: { memory, alloc, release, em, size: (p) => { const e = live.get(p); return e ? e[0] : 0; }, exit: (c) => { throw { exit: c }; } } }).exports; }; boot();
base = (x.__heap_base.value + 4095) & ~4095; brk = base; free = new Map(); live = new Map();
const out = (o, bufs) => put(Buffer.concat([Buffer.from(JSON.stringify(o) + '\n'), ...bufs]));
for (;;) {
    const r = JSON.parse(line()); err = ''; used = 0; world = r.w; tape = Buffer.from(take(r.t)); dirty = -1; const kept = live.size; oom = r.o === undefined ? -1 : r.o; seen = 0; inlib = false; let exited = -1;
    const bufs = [], args = r.a.map((t) => { if (t[0] === 'i') return t[1] | 0; if (t[0] === 'l') return BigInt(t[1]); const p = alloc(t[1] + 16); const at = p + t[2]; const l = live.get(p); U.fill(0xC7, p, p + t[1] + 16); U.set(take(t[1]), at); bufs.push([p, at, t[1], l[1]]); return at; });
    let rc = 0; if (r.f === 'memory') { // allocate, fill and release through the product's own functions
        try { const n = r.a[0][1] >>> 0, p = x[r.a[1][1] ? 'mem_alloc_long_long' : 'mem_alloc'](n); if (!p) rc = 1; else { for (let i = 0; i < n; i++) U[p + i] = 1 + i % 255; watch = p; x.mem_free(p, n); if (watch !== -1) err = err || 'mem_free does not hand the block back'; watch = null; } } catch (e) { err = String(e); }
    } else if (typeof x[r.f] !== 'function') { out({ rc: 0, err: '', live: 0, used: 0, dirty: -1, missing: 1 }, bufs.map((b) => Buffer.alloc(b[2]))); for (const b of bufs) release(b[0]); continue; }
    else try { inlib = true; const v = x[r.f](...args); inlib = false; rc = typeof v === 'bigint' ? Number(BigInt.asIntN(53, v)) : (v | 0); } catch (e) { inlib = false; if (e && e.exit !== undefined) exited = e.exit; else err = err || 'trap: ' + e; for (const p of [...live.keys()]) if (!bufs.some((b) => b[0] === p)) release(p); err = oom >= 0 && exited >= 0 ? '' : err; boot(); }
    const res = bufs.map((b) => { for (let i = b[0] - G; i < b[0] - G + b[3]; i++) if ((i < b[1] || i >= b[1] + b[2]) && U[i] !== 0xC7) err = err || 'writes outside a caller buffer of ' + b[2] + ' bytes (offset ' + (i - b[1]) + ')'; return Buffer.from(U.subarray(b[1], b[1] + b[2])); });
    const leak = live.size - bufs.length - kept; for (const b of bufs) { U.fill(0xC7, b[0] - G, b[0] - G + b[3]); release(b[0]); }
    out({ rc, err, live: leak, used, dirty, missing: 0, exited, seen }, res);
}
