// node run.js MODULE.wasm CASES PANICFP   CASES: one "fingerprint<TAB>call" per line
// Runs every call on the wasm32 build, prints "BAD line expected got" for each difference (first 5), then
// "DONE calls panics".
// With a fourth argument, a time in ms: none of the calls can end within that time. Each has it for itself;
// "BAD line expected got" for each call that came back.
const fs = require('fs');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const [wasm, cases, panicFp, limit] = process.argv.slice(2);
if (isMainThread && limit) {
  const lines = fs.readFileSync(cases, 'latin1').split('\n').filter(l => l);
  let next = 0, calls = 0;
  const one = () => {
    if (next >= lines.length) return;
    const l = lines[next++].split('\t');
    const w = new Worker(__filename, { argv: process.argv.slice(2), workerData: { call: l[1] } });
    let timer = null, over = false;
    w.on('message', m => {
      if (m.up) timer = setTimeout(() => { over = true; calls++; w.terminate(); }, Number(limit));
      if (m.got && !over) { calls++; console.log('BAD\t' + l[1] + '\t' + l[0] + '\t' + m.got); }
    });
    w.on('error', e => { console.log('ERROR\t' + e); process.exit(2); });
    w.on('exit', () => {
      clearTimeout(timer);
      if (next >= lines.length && calls === lines.length) { console.log('DONE\t' + calls + '\t0'); calls = -1; }
      one();
    });
  };
  for (let i = 0; i < 8; i++) one();
} else if (isMainThread) {
  const n = Math.max(1, Math.min(8, require('os').availableParallelism()));
  const size = fs.statSync(cases).size;
  let left = n, calls = 0, panics = 0, bad = 0, fail = null;
  for (let i = 0; i < n; i++) {
    const w = new Worker(__filename, { argv: process.argv.slice(2), workerData: { i, n }, resourceLimits: {} });
    w.on('message', m => {
      if (m.bad) { if (bad++ < 5) console.log('BAD\t' + m.bad); } else { calls += m.calls; panics += m.panics; }
    });
    w.on('error', e => { fail = e; });
    w.on('exit', () => {
      if (--left === 0) {
        if (fail) { console.log('ERROR\t' + fail); process.exit(2); }
        console.log('DONE\t' + calls + '\t' + panics);
      }
    });
  }
} else {
  const module_ = new WebAssembly.Module(fs.readFileSync(wasm));
  const fresh = () => new WebAssembly.Instance(module_, {});
  let x = fresh();
  const enc = new TextEncoder();
  const { i: me, n } = workerData;
  if (workerData.call) {
    const call = enc.encode(workerData.call);
    new Uint8Array(x.exports.memory.buffer, x.exports.buf(), call.length).set(call);
    parentPort.postMessage({ up: true });
    let got;
    try {
      got = BigInt.asUintN(64, x.exports.run(call.length)).toString(16);
    } catch (e) {
      got = 'a panic: ' + e;
    }
    parentPort.postMessage({ got });
    return;
  }
  const lines = fs.readFileSync(cases, 'latin1').split('\n');
  let calls = 0, panics = 0, bad = 0;
  for (let i = me; i < lines.length && bad < 5; i += n) {
    const l = lines[i];
    if (!l) continue;
    const tab = l.indexOf('\t');
    const want = l.slice(0, tab), call = enc.encode(l.slice(tab + 1));
    let got;
    try {
      new Uint8Array(x.exports.memory.buffer, x.exports.buf(), call.length).set(call);
      got = BigInt.asUintN(64, x.exports.run(call.length)).toString(16);
    } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError)) throw e;
      got = panicFp;
      panics++;
      x = fresh();
    }
    calls++;
    if (got !== want) { bad++; parentPort.postMessage({ bad: l.slice(tab + 1) + '\t' + want + '\t' + got }); }
    // give back memory that only grows
    if (x.exports.memory.buffer.byteLength > (512 << 20)) x = fresh();
  }
  parentPort.postMessage({ calls, panics });
}
