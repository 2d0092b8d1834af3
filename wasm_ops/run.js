// node run.js MODULE: the protocol of native_ops ("NAME HEX OUTLEN SHIFT" per line, the output bytes in hex per line)
const fs = require("fs");
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const x = new WebAssembly.Instance(m, {}).exports, io = x.IO.value, u = new Uint8Array(x.memory.buffer, io, 1024);
const hex = (a) => Buffer.from(a).toString("hex"); let out = "";
for (const l of fs.readFileSync(0, "utf8").split("\n")) {
  if (!l) continue;
  const [w, h, n_, s_] = l.split(" "), n = +n_, sh = +s_;
  u.fill(0xa5, 0, 512); u.fill(0x5a, 512, 1024); u.set(Buffer.from(h, "hex"), 64 + sh);
  try { x[w](io + 64 + sh, io + 512 + 64 + sh); } catch (e) { process.stdout.write(out); process.exitCode = 134; return; }
  const o = u.subarray(512), r = hex(o.subarray(64 + sh, 64 + sh + n));
  out += r + (o.subarray(0, 64 + sh).some((b) => b != 0x5a) || o.subarray(64 + sh + n).some((b) => b != 0x5a) ? "!" : "") + "\n";
}
process.stdout.write(out);
