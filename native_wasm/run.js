// node run.js MODULE ARGS...: runs the replay program (native/src/main.rs, compiled for WebAssembly) with the given arguments
const fs = require("fs");
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
class Exit extends Error {}
let x, code = 0;
const mem = () => new Uint8Array(x.memory.buffer);
const say = (p, n) => fs.writeSync(1, Buffer.from(mem().slice(p, p + n)));
const put = (s) => { const b = Buffer.from(s), p = x.hx_alloc(b.length || 1); mem().set(b, p); return [p, b.length]; };
x = new WebAssembly.Instance(m, { env: { now: () => performance.now(), out: say, exit: (c) => { code = c; throw new Exit(); } } }).exports;
try { x.hx_go(...put(["", ...process.argv.slice(3)].join("\n"))); }
catch (e) { if (!(e instanceof Exit)) { code = 1; try { x.hx_crash(...put(String(e.message))); } catch (f) { console.log("trap " + e); } } }
process.exitCode = code;
