// Runs the JavaScript part of random/randombytes.c in modelled worlds; answers one request at a time.
// request:  "world ptr n mem\n" + mem raw bytes (code first: "code length\n" + text); answer: "ret thrown ndelivered\n" + delivered + memory
const fs = require('fs'), vm = require('vm');
let acc = Buffer.alloc(0);
function fill(k) { while (acc.length < k) { const b = Buffer.alloc(1 << 16); const r = fs.readSync(0, b, 0, b.length, null); if (!r) process.exit(0); acc = Buffer.concat([acc, b.subarray(0, r)]); } }
function take(k) { fill(k); const r = acc.subarray(0, k); acc = acc.subarray(k); return r; }
function line() { let i; while ((i = acc.indexOf(10)) < 0) fill(acc.length + 1); return take(i + 1).toString().trim(); }
function put(b) { let o = 0; while (o < b.length) { try { o += fs.writeSync(1, b, o, b.length - o); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } }
const code = take(parseInt(line())).toString();
for (;;) {
    const [world, ptr, n, mem] = line().split(' ').map(Number);
    const heap = Buffer.from(take(mem)); const H = new Uint8Array(heap.buffer, heap.byteOffset, mem);
    let del = []; let pos = 0;
    const gen = (v) => { for (let i = 0; i < v.length; i++) { v[i] = ((pos * 2654435761 >>> 24) ^ (pos >>> 8) ^ 0x5c) & 255; del.push(v[i]); pos++; } return v; };
    const values = (a) => { if (world === 5) throw new Error('OperationError'); if (!ArrayBuffer.isView(a) || a instanceof Float32Array || a instanceof Float64Array || a instanceof DataView) throw new TypeError('TypeMismatchError'); if (a.byteLength > 65536) { const e = new Error('The ArrayBufferView byte length (' + a.byteLength + ') exceeds 65536'); e.name = 'QuotaExceededError'; throw e; } gen(new Uint8Array(a.buffer, a.byteOffset, a.byteLength)); return a; };
    const bytes = (k) => { if (typeof k !== 'number' || !(k >= 0 && k <= 2147483647)) throw new RangeError('ERR_OUT_OF_RANGE'); if (world === 4) throw new Error('ERR_CRYPTO_OPERATION_FAILED'); return gen(Buffer.alloc(k)); };
    const mod = { randomBytes: bytes, randomFillSync: (a) => { if (world === 4) throw new Error('ERR_CRYPTO_OPERATION_FAILED'); gen(new Uint8Array(a.buffer, a.byteOffset, a.byteLength)); return a; } };
    const env = { Uint8Array, Uint32Array, Int8Array, Math, Error, RangeError, TypeError, Buffer, console: { log() {}, error() {}, warn() {} }, HEAPU8: H, HEAP8: new Int8Array(H.buffer, H.byteOffset, mem), Module: {},
        writeArrayToMemory: (a, p) => { env.HEAP8.set(a, p); } };
    env.Module.HEAPU8 = H;
    if (world === 0 || world === 5) { env.window = { crypto: { getRandomValues: values } }; env.crypto = env.window.crypto; env.self = env.window; }
    if (world === 1) env.window = {};
    if (world !== 0 && world !== 5) env.require = (m) => { if (world === 3 || (m !== 'crypto' && m !== 'node:crypto')) throw new Error("Cannot find module '" + m + "'"); return mod; };
    let ret = 0, thrown = 0;
    try { ret = vm.runInNewContext('(function($0, $1) ' + code + ')', env)(ptr, n); } catch (e) { thrown = 1; ret = 0; }
    put(Buffer.concat([Buffer.from((ret | 0) + ' ' + thrown + ' ' + del.length + '\n'), Buffer.from(del), heap]));
}
