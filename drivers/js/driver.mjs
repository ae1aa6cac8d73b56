// Reads documents (length in decimal, newline, bytes) and writes what the JavaScript parser makes of
// each, in the compliance form, framed the same way. Argument: the directory of the compiled parser.
import * as fs from "node:fs";
const dir = process.argv[2];
const { parse } = await import(dir + "/parser.js");
const { documentToSexp, errorToSexp } = await import(dir + "/sexp.js");
const { ParseError } = await import(dir + "/types.js");
function work(text) {
  try {
    return documentToSexp(parse(text));
  } catch (e) {
    if (e instanceof ParseError) return errorToSexp(e.message, e.span);
    return "(crash " + JSON.stringify(String(e)) + ")";
  }
}
let have = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
for (;;) {
  let nl;
  while ((nl = have.indexOf(10)) < 0 || have.length < nl + 1 + Number(have.subarray(0, nl).toString())) {
    let n = 0;
    try {
      n = fs.readSync(0, chunk, 0, chunk.length, null);
    } catch (e) {
      if (e.code === "EAGAIN") continue;
      if (e.code !== "EOF") throw e;
    }
    if (n === 0) process.exit(0);
    have = Buffer.concat([have, chunk.subarray(0, n)]);
  }
  const n = Number(have.subarray(0, nl).toString());
  const r = Buffer.from(work(have.subarray(nl + 1, nl + 1 + n).toString()));
  have = have.subarray(nl + 1 + n);
  const all = Buffer.concat([Buffer.from(r.length + "\n"), r]);
  for (let at = 0; at < all.length; ) {
    try {
      at += fs.writeSync(1, all, at);
    } catch (e) {
      if (e.code !== "EAGAIN") throw e;
    }
  }
}
