// Persistent worker: executes modules through the real /repo/runtime/run.mjs
// (re-evaluated for every program), with the process-level effects (argv, stdout,
// exit) captured and the imports observed.
import {createInterface} from "readline";
import {readFileSync} from "fs";
const REPO = process.argv[2];
const realWrite = process.stdout.write.bind(process.stdout);
const realExit = process.exit.bind(process);
const realArgv = process.argv;
const realInstantiate = WebAssembly.instantiate;
class Exit { constructor(code) { this.code = code; } }
class Diverged {}
let cur = null;
let n = 0;

process.stdout.write = (s, enc) => {
    if (cur === null) return true;
    const str = typeof s === "string" ? (enc === "latin1" ? s : Buffer.from(s, "utf8").toString("latin1")) : Buffer.from(s).toString("latin1");
    cur.out += str;
    if (cur.expect !== null) {
        if (cur.out.length > cur.expect.length
            || cur.expect.substr(cur.out.length - str.length, str.length) !== str) {
            cur.diverged = true;
            throw new Diverged();
        }
    } else if (cur.out.length > 4000000) { cur.diverged = true; throw new Diverged(); }
    return true;
};
process.exit = (code) => { throw new Exit(code); };

const prof = await import(REPO + "/runtime/profiler.mjs");
WebAssembly.instantiate = async (buffer, imports) => {
    const c = cur;
    const mem = imports.runtime.memory;
    c.mem = mem;
    const rd = (a) => new DataView(mem.buffer).getInt32(a, true);
    if (imports.stdlib.log_stack_ptr) {
        const f = c.logpath ? prof.log_stack_ptr(mem, c.logpath) : null;
        imports.stdlib.log_stack_ptr = () => { if (c.prof.length < 200000) c.prof.push(rd(8)); if (f) f(); };
    }
    if (c.trace) {
        const p = imports.stdlib.printf;
        imports.stdlib.printf = () => { if (c.sps.length < 200000) c.sps.push([rd(0), rd(4), rd(8)]); return p(); };
    }
    const r = await realInstantiate(buffer, imports);
    c.sp0 = rd(8);
    if (c.trace) {
        const ex = r.instance.exports;
        const m = ex.main;
        const wrapped = {...ex, main: (...a) => { c.spArgs = rd(8); const v = m(...a); c.spEnd = rd(8); return v; }};
        return {module: r.module, instance: {exports: wrapped}};
    }
    return r;
};

const rl = createInterface({input: process.stdin});
for await (const line of rl) {
    const req = JSON.parse(line);
    if (req.validate) {
        let ok = false;
        try { ok = WebAssembly.validate(readFileSync(req.validate)); } catch (e) { ok = false; }
        realWrite(JSON.stringify({ok}) + "\n");
        continue;
    }
    cur = {out: "", expect: req.expect === undefined ? null : req.expect, diverged: false, trace: !!req.trace,
           logpath: req.logpath || null, sps: [], prof: [], sp0: null, spArgs: null, spEnd: null, mem: null};
    let rc = null, err = null;
    process.argv = [realArgv[0], REPO + "/runtime/run.mjs", req.wasm, ...(req.args || [])];
    try {
        await import(REPO + "/runtime/run.mjs?n=" + (n++));
        rc = 0; err = "run.mjs did not call process.exit";
    } catch (e) {
        if (e instanceof Exit) rc = ((e.code === undefined ? 0 : Number(e.code)) & 255);
        else if (e instanceof Diverged) err = "diverged";
        else err = String(e && e.name) + ": " + String(e && e.message).slice(0, 300);
    }
    const c = cur; cur = null;
    const res = {out: c.out, rc, err, diverged: c.diverged};
    if (c.trace) { res.sps = c.sps; res.prof = c.prof; res.sp0 = c.sp0; res.spArgs = c.spArgs; res.spEnd = c.spEnd; }
    realWrite(JSON.stringify(res) + "\n");
}
realExit(0);
