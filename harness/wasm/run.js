// Runs one sequence of calls of generateQRCode in a fresh instance of the module.
// usage: node run.js wasm_exec.js module.wasm case.json result.json
"use strict";
const fs = require("fs");
const [, , execjs, module_, casefile, resultfile] = process.argv;
globalThis.require = require;
globalThis.fs = fs;
globalThis.path = require("path");
globalThis.TextEncoder = require("util").TextEncoder;
globalThis.TextDecoder = require("util").TextDecoder;
globalThis.performance ??= require("performance");
globalThis.crypto ??= require("crypto");
require(execjs);

const kase = JSON.parse(fs.readFileSync(casefile));
const results = [];
const done = () => { fs.writeFileSync(resultfile, JSON.stringify(results)); process.exit(0); };

// arguments that are not strings or plain option objects
function odd(x) {
  switch (x) {
    case "null": return null;
    case "undefined": return undefined;
    case "number": return 42;
    case "nan": return NaN;
    case "bool": return true;
    case "array": return [1, 2];
    case "object": return { a: 1 };
    case "function": return () => 1;
    case "symbol": return Symbol("s");
    case "bigint": return 10n;
    case "string": return "some string";
    case "empty": return "";
    case "surrogate": return "\ud800x";
    case "thrower": return new Proxy({}, { get() { throw new Error("no such thing"); } });
    case "getter": return { get outputQrWidth() { throw new Error("no width"); } };
    case "own": return { get encodeVersion() { throw null; } };
    case "revoked": { const r = Proxy.revocable({}, {}); r.revoke(); return r.proxy; }
    case "asker": return { get outputQrWidth() { return globalThis.generateQRCode("asked within").success === true ? undefined : 3; } };
    case "asker2": return { get outputMargin() { globalThis.generateQRCode(); globalThis.generateQRCode("x", { encodeVersion: 77 }); return undefined; } };
    case "inherited": return Object.create({ outputQrColor: "" }, { outputQrWidth: { value: 0, enumerable: false } });
    case "nulls": return Object.fromEntries(KEYS.map((k) => [k, null]));
    case "undefineds": return Object.fromEntries(KEYS.map((k) => [k, undefined]));
    case "strings": return Object.fromEntries(KEYS.map((k) => [k, "7"]));
    case "numbers": return Object.fromEntries(KEYS.map((k) => [k, 7]));
    case "objects": return Object.fromEntries(KEYS.map((k) => [k, {}]));
    case "nans": return Object.fromEntries(KEYS.map((k) => [k, NaN]));
    case "infinities": return Object.fromEntries(KEYS.map((k) => [k, -Infinity]));
    case "proto": return Object.create(null);
  }
  throw new Error("bad argument " + x);
}
const KEYS = ["encodeVersion", "encodeMode", "encodeECLevel", "outputBgColor", "outputBgTransparent", "outputQrColor", "outputQrWidth",
  "outputCircleShape", "outputImageEncoder", "outputMargin"];

function arg(a) {
  if (a.odd !== undefined) return odd(a.odd);
  if (a.raw !== undefined) return Buffer.from(a.raw).toString("utf8");
  return a.obj;
}

function describe(r) {
  if (r === null || typeof r !== "object") return { shape: typeof r };
  return { shape: "object", success: r.success === true, bool: typeof r.success === "boolean", error: typeof r.error === "string" ? r.error.length : -1,
    pic: typeof r.base64EncodedImage === "string" ? r.base64EncodedImage : null };
}

(async () => {
  const go = new globalThis.Go();
  go.exit = () => {};
  const log = console.log;
  console.log = () => {};
  console.warn = console.error = () => {};
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(module_), go.importObject);
  go.run(instance);
  await new Promise((r) => setTimeout(r, 0));
  for (const c of kase.calls) {
    let r;
    try {
      r = describe(globalThis.generateQRCode(...c.args.map(arg)));
    } catch (e) {
      r = { shape: "exception" };
    }
    results.push(r);
    if (c.wait) await new Promise((r) => setTimeout(r, 0));
  }
  done();
})().catch(() => { done(); });
