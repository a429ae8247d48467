// Driver of the WebAssembly module: commands on stdin, results on stdout.  argv[2]: falcon.js
const fs = require('fs');
const PK = 1025, SK = 1281;
const log = console.error;
console.log = log;
function readN(n) {
  const b = Buffer.alloc(n);
  let p = 0;
  while (p < n) {
    let k;
    try { k = fs.readSync(0, b, p, n - p, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (k === 0) process.exit(0);
    p += k;
  }
  return b;
}
function blob() { const n = readN(4).readInt32LE(0); return n < 0 ? null : readN(n); }
let outq = [];
function put(b) { const h = Buffer.alloc(4); h.writeInt32LE(b.length); outq.push(h, b); }
function flush() {
  const b = Buffer.concat(outq);
  outq = [];
  for (let p = 0; p < b.length;) {
    try { p += fs.writeSync(1, b, p); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
const PAD = 64;
function load(name) {
  const path = require('path').resolve(name);
  if (!path.endsWith('.wasm')) return require(path)();
  // a module built from the C sources: the same interface
  const names = {};
  const mod = new WebAssembly.Module(fs.readFileSync(path));
  const env = {};
  for (const i of WebAssembly.Module.imports(mod)) env[i.name] = () => { throw new Error('calls ' + i.name); };
  const x = new WebAssembly.Instance(mod, { env }).exports;
  const f = { get HEAPU8() { return new Uint8Array(x.memory.buffer); }, _free() {}, _malloc: (n) => x.malloc(n), done: x.vp_reset };
  for (const n of ['zknox_crypto_sign_keypair', 'zknox_crypto_sign_keypair_from_seed', 'zknox_crypto_sign', 'zknox_crypto_sign_open']) f['_' + n] = x[n];
  return Promise.resolve(f);
}
load(process.argv[2]).then((f) => {
  // every buffer stands between two guards; the module may not write outside it
  const live = [];
  function alloc(size, data) {
    const p = f._malloc(size + 2 * PAD);
    if (p === 0) throw new Error('malloc');
    f.HEAPU8.fill(0xA5, p, p + size + 2 * PAD);
    if (data) f.HEAPU8.set(data, p + PAD);
    live.push([p, size, data]);
    return p + PAD;
  }
  function get(p, n) { return Buffer.from(f.HEAPU8.subarray(p, p + n)); }
  // ways to call: the functions with addresses, ccall or cwrap, with addresses, arrays or strings
  const glue = typeof f.ccall === 'function' && typeof f.cwrap === 'function';
  let way = 0;
  const wrapped = {};
  function u64(p) {
    if (way && f.HEAPU32) return Number(BigInt(f.HEAPU32[(p >> 2) + 1]) << 32n | BigInt(f.HEAPU32[p >> 2]));
    const b = get(p, 8); return Number(b.readBigUInt64LE(0));
  }
  // how an input is given: [value, type]
  function input(data) {
    if (!glue || way < 3 || data.length > 6000) return [alloc(data.length, data), 'number'];
    if (way === 5) {
      const t = data.toString('utf8');
      if (!t.includes('\0') && Buffer.from(t, 'utf8').equals(data)) return [t, 'string'];
    }
    return [way === 3 ? data : new Uint8Array(data), 'array'];
  }
  function call(name, ...args) {
    const v = args.map((x) => Array.isArray(x) ? x[0] : x), t = args.map((x) => Array.isArray(x) ? x[1] : 'number');
    if (!glue || way < 2) return f['_' + name](...v);
    if (way === 4) return (wrapped[way + name + t] ??= f.cwrap(name, 'number', t))(...v);
    if (way === 5) return (wrapped[way + name + t] ??= f.cwrap(name, 'boolean', t))(...v) ? 1 : 0;
    return f.ccall(name, 'number', t, v);
  }
  function release() {
    let bad = '';
    for (const [p, size, data] of live) {
      for (let i = 0; i < PAD; i++) if (f.HEAPU8[p + i] !== 0xA5 || f.HEAPU8[p + PAD + size + i] !== 0xA5) bad = 'a buffer of ' + size + ' bytes was written past its end';
      if (data && !Buffer.from(data).equals(get(p + PAD, size))) bad = 'an argument of ' + size + ' bytes was changed';
      f._free(p);
    }
    live.length = 0;
    if (f.done) f.done();
    return bad;
  }
  for (;;) {
    const op = String.fromCharCode(readN(1)[0]);
    let st = 0, a = Buffer.alloc(0), b = Buffer.alloc(0);
    const args = [];
    const cnt = { K: 0, F: 1, S: 2, O: 2, L: 2, W: 1, N: 0 }[op];
    for (let i = 0; i < cnt; i++) args.push(blob());
    try {
      if (op === 'W') way = args[0][0];
      else if (op === 'N') { a = Buffer.alloc(8); a.writeBigUInt64LE(BigInt(f.HEAPU8.length)); }
      else if (op === 'K' || op === 'F') {
        const pk = alloc(PK), sk = alloc(SK);
        let r;
        if (op === 'K') r = call('zknox_crypto_sign_keypair', pk, sk);
        else r = call('zknox_crypto_sign_keypair_from_seed', pk, sk, input(args[0]), args[0].length);
        st = r === 0 ? 0 : 1;
        a = get(pk, PK); b = get(sk, SK);
      } else if (op === 'S') {
        const [m, key] = args;
        const sm = alloc(m.length + 1067), n = alloc(8);
        const r = call('zknox_crypto_sign', sm, n, input(m), BigInt(m.length), input(key));
        st = r === 0 ? 0 : 1;
        if (r === 0) { const l = u64(n); a = l <= m.length + 1067 ? get(sm, l) : Buffer.alloc(0); }
      } else if (op === 'O') {
        const [s, key] = args;
        const m = alloc(s.length), n = alloc(8);
        const r = call('zknox_crypto_sign_open', m, n, input(s), BigInt(s.length), input(key));
        st = r === 0 ? 0 : 1;
        if (r === 0) { const l = u64(n); a = l <= s.length ? get(m, l) : Buffer.from('length ' + l); }
      }
    } catch (e) { st = 2; a = Buffer.from(String(e && e.message || e)); b = Buffer.alloc(0); live.length = 0; }
    const bad = release();
    if (bad && st !== 2) { st = 3; a = Buffer.from(bad); }
    outq.push(Buffer.from([st]));
    put(a); put(b);
    flush();
  }
});
