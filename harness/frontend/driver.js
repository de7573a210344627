// Drives the WebAssembly module: node driver.js wasm_exec.js module.wasm.
// Reads lines of JSON, {"new":true}, {"p":pipeline,"e":event} or
// {"args":[...]} for any number of arguments; answers with
// {"s":string}, {"o":object} or {"gone":reason}. A new one instantiates the
// module again.
"use strict";
const fs = require("fs");
const readline = require("readline");
// What the module prints is not a result.
const write = fs.writeSync;
const answer = (x) => write(1, JSON.stringify(x) + "\n");
console.log = () => {};
require(process.argv[2]);
fs.writeSync = (fd, buf) => buf.length;
const realExit = process.exit;

(async () => {
  const module = await WebAssembly.compile(fs.readFileSync(process.argv[3]));
  let gone = null;
  let start = async () => {
    gone = null;
    delete globalThis.pipeline_execute;
    const go = new Go();
    go.exit = (code) => { gone = "exit status " + code; };
    const instance = await WebAssembly.instantiate(module, go.importObject);
    go.run(instance).then(() => { gone = gone || "ended"; }, (e) => { gone = String(e); });
    for (let i = 0; i < 1000 && typeof globalThis.pipeline_execute !== "function" && !gone; i++)
      await new Promise((r) => setTimeout(r, 1));
  };
  for await (const line of readline.createInterface({ input: process.stdin })) {
    const m = JSON.parse(line);
    if (m.new) {
      await start();
      answer(gone ? { gone } : { s: typeof globalThis.pipeline_execute });
      continue;
    }
    try {
      const r = globalThis.pipeline_execute(...(m.args || [m.p, m.e]));
      if (gone) answer({ gone });
      else if (typeof r === "string") answer({ s: r });
      else answer({ o: r === undefined ? null : r });
    } catch (e) {
      answer({ gone: String(e) });
    }
  }
  realExit(0);
})();
