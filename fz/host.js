// node host.js module.wasm PROPERTY TYPES SEED EXECS SECONDS CURRENT | PROPERTY TYPES one HEX
const fs = require('fs');
const a = process.argv.slice(2);
const e = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(a[0])), {}).exports;
if (e._initialize) e._initialize();
if (e.__wasm_call_ctors) e.__wasm_call_ctors();
const mem = () => new Uint8Array(e.memory.buffer);
const types = a[2].split(',').map(Number);
mem().set(types, e.buf());
const one = a[3] === 'one';
e.init(Number(a[1]), types.length, one ? 0n : BigInt(a[3]));
const text = () => { const n = e.report(); return Buffer.from(e.memory.buffer, e.buf(), n).toString(); };
let ok = 1, done = 0, last = 0;
try {
  if (one) {
    const b = Buffer.from(a[4], 'hex');
    mem().set(b, e.buf());
    ok = e.single(b.length);
    if (ok) console.log('holds');
  } else {
    const [execs, secs] = [Number(a[4]), Number(a[5])];
    const t = Date.now();
    while (ok && done < execs && Date.now() - t < secs * 1000) {
      done = Math.min(done + 500, execs);
      ok = e.go(BigInt(done));
    }
    fs.writeSync(1, text());
  }
  if (one && !ok) fs.writeSync(1, text());
} catch (err) {
  const n = e.curn();
  console.log('fail trap: ' + String(err).replace(/\n/g, ' ') + '\nafter ' + done);
  console.log('input ' + Buffer.from(e.memory.buffer, e.cur(), n).toString('hex'));
  ok = 0;
}
process.exitCode = ok ? 0 : 1;
