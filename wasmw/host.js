// node host.js module.wasm : speaks the worker protocol on stdin/stdout
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let inst;
function fresh() {
  inst = new WebAssembly.Instance(mod, {});
  // one page beyond 2 GiB
  const m = inst.exports.memory;
  m.grow(32769 - m.buffer.byteLength / 65536);
  inst.exports.set_top(inst.exports.memory.buffer.byteLength);
}
fresh();
function readn(n) {
  const b = Buffer.alloc(n);
  let k = 0;
  while (k < n) {
    let r;
    try { r = fs.readSync(0, b, k, n - k, null); }
    catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') return null; throw e; }
    if (r === 0) return null;
    k += r;
  }
  return b;
}
function writeAll(b) {
  let k = 0;
  while (k < b.length) {
    try { k += fs.writeSync(1, b, k, b.length - k); }
    catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
for (;;) {
  const l = readn(4);
  if (!l) break;
  const q = readn(l.readUInt32LE(0));
  if (!q) break;
  let status = 0, allocs = 0, body = Buffer.alloc(0);
  try {
    const e = inst.exports;
    let n;
    if (q.length > e.cap_in()) {
      process.stderr.write('request too long\n');
      process.exit(3);
    }
    if (q[0] === 0) {
      const prog = q.subarray(2);
      new Uint8Array(e.memory.buffer).set(prog, e.buf_in());
      const size = e.memory.buffer.byteLength;
      n = e.run(prog.length) >>> 0;
      allocs = e.allocs() + (e.memory.buffer.byteLength - size) / 65536;
    } else if (q[0] === 1) {
      n = e.info() >>> 0;
    } else if (q[0] === 2) {
      new Uint8Array(e.memory.buffer).set(q.subarray(1), e.buf_in());
      n = e.huge() >>> 0;
    } else {
      status = 3; n = 0;
    }
    body = Buffer.from(new Uint8Array(inst.exports.memory.buffer, inst.exports.buf_out(), n));
    if (q[0] === 2) fresh(); // give the memory back
  } catch (err) {
    status = 1;
    body = Buffer.from(String(err));
    fresh();
  }
  const h = Buffer.alloc(13);
  h.writeUInt32LE(body.length + 9, 0);
  h[4] = status;
  h.writeUInt32LE(allocs, 5);
  writeAll(Buffer.concat([h, body]));
}
