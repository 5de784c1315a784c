// Answers blocks of calls with the WebAssembly build, over standard input and output.
const fs = require('fs');
const w = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[2])), {}).exports;
const REC = 64;
function all(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let r;
    try { r = fs.readSync(0, b, k, n - k, null); }
    catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') r = 0; else throw e; }
    if (r === 0) return null;
    k += r;
  }
  return b;
}
function put(b) { let k = 0; while (k < b.length) { try { k += fs.writeSync(1, b, k, b.length - k); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } }
function head(a, b) { const h = Buffer.alloc(8); h.writeUInt32LE(a >>> 0, 0); h.writeUInt32LE(b >>> 0, 4); put(h); }
w.x_init();
const n = w.x_names(), p = w.x_buf();
head(n, 0);
put(Buffer.from(w.memory.buffer, p, n));
for (;;) {
  const h = all(8);
  if (!h) process.exit(0);
  const c = h.readUInt32LE(0);
  const d = all(c * REC);
  if (!d) process.exit(3);
  new Uint8Array(w.memory.buffer, p, c * REC).set(d);
  try { w.x_run(c); } catch (e) { head(0xffffffff, w.x_cur()); process.exit(78); }
  put(h);
  put(Buffer.from(w.memory.buffer, p, c * REC));
}
