"""Case driver: fixed work per (property, tier, seed), 8-way parallel, shrinking,
replay files, known findings, evidence."""
import hashlib, json, multiprocessing as mp, os, shutil, sys, time, traceback
from . import toolchain
from .choice import Src, Overrun, shrink
from .toolchain import VERIF, BUILD, Tools

NPROC = min(8, os.cpu_count() or 8)


class GenError(Exception):
    """the generator or the reference misbehaved: an error of the check"""


class Case:
    """What a generator returns.
    files    : dict name -> text (main.c is compiled)
    nontrivial: bool, features: iterable of strings (coverage counters)
    """

    def __init__(self, src_text, features=(), nontrivial=True, files=None, args=(), flags=(), **kw):
        self.src = src_text
        self.files = files or {}
        self.features = list(features)
        self.nontrivial = nontrivial
        self.args = list(args)
        self.flags = list(flags)
        self.kw = kw

    def key(self):
        h = hashlib.sha1(self.src.encode("latin1", "replace"))
        for k in sorted(self.files):
            h.update(k.encode() + self.files[k].encode("latin1", "replace"))
        h.update(json.dumps([self.args, self.flags, repr(sorted(self.kw.items()))]).encode("latin1", "replace"))
        return h.hexdigest()


class Prop:
    """Base class of a property's check."""
    id = "C00"
    quick = 400
    thorough = 8000
    rule = ""
    assumptions = []

    def gen(self, s):          # -> Case
        raise NotImplementedError

    def check(self, case, t):  # -> None or failure text
        return diff_gcc(case, t)

    def extra(self, tier):     # aggregated extra coverage
        return {}


def write_case(case, t):
    for k, v in case.files.items():
        t.write(k, v)
    return t.write("main.c", case.src)


def reference(case, t, san=False):
    c = write_case(case, t)
    exe = t.path("ref")
    san = san or bool(os.environ.get("VERIF_SAN"))
    rc, err = t.gcc(c, exe, san=san)
    if rc != 0:
        raise GenError("gcc rejects generated program: " + err[:2000])
    out, rc, err = t.run_native(exe, case.args, limit=60 if san else 20, bigstack=case.kw.get("bigstack", False))
    t.last_ref = (out, rc)
    if rc is None:
        raise GenError("reference program does not terminate")
    if rc < 0 or (san and err):
        raise GenError("reference program fails: rc=%s %s" % (rc, err[:2000]))
    return out, rc


def first_diff(exp, got):
    el, gl = exp.split("\n"), got.split("\n")
    for i, (a, b) in enumerate(zip(el, gl)):
        if a != b:
            return "line %d: expected %r, got %r" % (i + 1, a[:200], b[:200])
    return "expected %d lines, got %d" % (len(el), len(gl))


def compare(exp, exp_rc, r):
    if r["err"]:
        if r.get("diverged"):
            return "output differs: " + first_diff(exp, r["out"])
        return "program fails: %s (after %d of %d bytes of output)" % (r["err"], len(r["out"]), len(exp))
    if r["out"] != exp:
        return "output differs: " + first_diff(exp, r["out"])
    if exp_rc is not None and r["rc"] != exp_rc:
        return "exit status: expected %s, got %s" % (exp_rc, r["rc"])
    return None


def run_one(case, t, exp, rc, flags=None, real=False, trace=False, cfile=None):
    """compile + run + compare with an expected output; -> (failure, result)"""
    cfile = cfile or t.path("main.c")
    out = t.path("main.wasm")
    if os.path.exists(out):
        os.remove(out)
    flags = case.flags if flags is None else flags
    crc, msg = t.compile(cfile, out, flags)
    if crc != 0:
        return "compiler exits with %s on a valid program: %s" % (crc, msg[:600]), None
    if not os.path.exists(out):
        return "compiler exits with 0 but writes no output", None
    t.bump("programs_run")
    if real:
        r = t.run_real(out, case.args)
    else:
        r = t.run_wasm(out, case.args, expect=exp, trace=trace)
    f = compare(exp, rc, r)
    if f and flags:
        f = "[%s] %s" % (" ".join(flags), f)
    return f, r


def diff_gcc(case, t):
    exp, rc = reference(case, t)
    t.bump("output_lines", exp.count("\n"))
    f, _ = run_one(case, t, exp, rc)
    return f


def judge(prop, case, t):
    """prop.check, with a second opinion: an expected output that clang does not
    confirm (a gcc constant-folding bug, say) decides nothing"""
    t.last_ref = None
    f = prop.check(case, t)
    if f is not None and t.last_ref is not None:
        exe = t.path("ref2")
        c = write_case(case, t)
        rc, _ = t.gcc(c, exe, cc="clang")
        if rc == 0:
            out, rc2, _ = t.run_native(exe, case.args, limit=20, bigstack=case.kw.get("bigstack", False))
            if (out, rc2) != t.last_ref:
                t.bump("references_disagree")
                return None
    return f


# ---------------------------------------------------------------------------

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def _worker(prop_mod, indices, count, seed, q_out, stop, shrink_s):
    sys.stdout.flush()
    t = Tools()
    prop = load_prop(prop_mod)
    try:
        while True:
            with indices.get_lock():
                i = indices.value
                if i >= count:
                    break
                indices.value = i + 1
            if stop.is_set():
                break
            src = Src(seed="%s:%s:%d" % (seed, prop.id, i))
            try:
                case = prop.gen(src)
            except Overrun:
                q_out.put(("discard", i, "overrun"))
                continue
            try:
                f = judge(prop, case, t)
            except GenError as e:
                p = os.path.join(BUILD, "generr-%s-%d.c" % (prop.id, i))
                with open(p, "wb") as fh:
                    fh.write(case.src.encode("latin1", "replace"))
                q_out.put(("generr", i, str(e) + " [" + p + "]"))
                continue
            q_out.put(("case", i, (case.key(), case.nontrivial, case.features,
                                   case.src if i < 3 else None)))
            if f is not None:
                if not os.environ.get("VERIF_HUNT"):
                    stop.set()
                q_out.put(("fail", i, report_failure(prop, src.seq, case, f, t, shrink_s, seed, i)))
                if not os.environ.get("VERIF_HUNT"):
                    break
        q_out.put(("stats", 0, t.stats))
    except Exception:
        q_out.put(("error", 0, traceback.format_exc()))
    finally:
        t.close()
        q_out.put(("done", 0, None))


def report_failure(prop, seq, case, failure, t, shrink_s, seed, index):
    deadline = time.time() + shrink_s
    last = {}

    def again(cand):
        s = Src(prefix=cand)
        try:
            c = prop.gen(s)
            f = judge(prop, c, t)
            if f is not None and hasattr(prop, "confirm"):
                if not prop.confirm(c, t):
                    f = None
        except (GenError, Overrun):
            return None
        if f is None:
            return None
        last["c"], last["f"] = c, f
        last["seq"] = list(s.seq)
        last.setdefault("all", {})[tuple(s.seq)] = (c, f)
        return list(s.seq)

    best = seq
    try:
        # emitted code may vary from run to run; a failure seen once is reported even if it
        # does not reappear, but only reproducible ones are shrunk
        if shrink_s > 0 and any(again(seq) for _ in range(3)):
            best = shrink(seq, again, deadline)
            if tuple(best) in last.get("all", {}):
                case, failure = last["all"][tuple(best)]
    except Exception:
        traceback.print_exc()
    d = os.path.join(BUILD, "replay", "%s-%s" % (prop.id, hashlib.sha1(repr(best).encode()).hexdigest()[:10]))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, v in list(case.files.items()) + [("main.c", case.src)]:
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(v.encode("latin1", "replace") if isinstance(v, str) else v)
    with open(os.path.join(d, "replay.json"), "w") as fh:
        json.dump({"property": prop.id, "choices": best, "seed": seed, "index": index,
                   "args": case.args, "flags": case.flags, "failure": failure,
                   "how": "python3 -m harness.replay %s" % os.path.join(d, "replay.json")}, fh, indent=1)
    return os.path.join(d, "replay.json"), failure


_props = {}


def load_prop(pid):
    import importlib
    if pid not in _props:
        m = importlib.import_module("harness.props." + pid.lower())
        _props[pid] = m.PROP()
    return _props[pid]


def main(pid, tier, seed, count=None, shrink_s=None, quiet_build=False):
    t0 = time.time()
    err = toolchain.build()
    if err is not None:
        print("error: /repo does not build\n" + err)
        return 2
    tb = time.time() - t0
    prop = load_prop(pid)
    n = count or (prop.quick if tier == "quick" else prop.thorough)
    if os.environ.get("VERIF_HUNT"):
        shrink_s = int(os.environ["VERIF_HUNT"])
    if shrink_s is None:
        shrink_s = 60 if tier == "quick" else 240
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    indices = ctx.Value("l", 0)
    # known findings: each listed input must still fail the way it is listed
    failures = []
    known_lines = []
    t = Tools()
    try:
        for k in load_known():
            if k["property"] != pid:
                continue
            if k.get("status") == "fixed":
                continue
            path = os.path.join(VERIF, k["input"])
            still = prop.check_known(k, path, t) if hasattr(prop, "check_known") else known_fails(k, path, t)
            if still:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        # regression corpus: inputs of repaired defects, expected to pass
        for path, f in regressions(prop, t):
            failures.append((path, f))
        for path, f in (prop.fixed_cases(t) if hasattr(prop, "fixed_cases") else []):
            failures.append((path, f))
    finally:
        t.close()
    for l in known_lines:
        print(l)
    procs = [ctx.Process(target=_worker, args=(pid, indices, n, seed, q, stop, shrink_s)) for _ in range(NPROC)]
    for p in procs:
        p.start()
    done = 0
    evaluations = 0
    keys = set()
    nontriv = set()
    feats = {}
    samples = {}
    stats = {}
    generrs, errors, discards = [], [], 0
    import queue as _q
    while done < len(procs):
        try:
            kind, i, payload = q.get(timeout=20)
        except _q.Empty:
            if not any(p.is_alive() for p in procs):
                errors.append("worker process died")
                break
            continue
        if kind == "done":
            done += 1
        elif kind == "case":
            key, nt, fs, text = payload
            evaluations += 1
            keys.add(key)
            if nt:
                nontriv.add(key)
            for f in set(fs):
                feats[f] = feats.get(f, 0) + 1
            if text is not None:
                samples[i] = text[:3000]
        elif kind == "fail":
            failures.append(payload)
            if len(failures) >= 12:
                stop.set()
        elif kind == "generr":
            generrs.append(payload)
        elif kind == "error":
            errors.append(payload)
        elif kind == "discard":
            discards += 1
        elif kind == "stats":
            for k, v in payload.items():
                if k.startswith("max_"):
                    stats[k] = max(stats.get(k, 0), v)
                else:
                    stats[k] = stats.get(k, 0) + v
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    cov = {"evaluations": evaluations, "distinct_nontrivial": len(nontriv), "rule": prop.rule,
           "samples": [samples[i] for i in sorted(samples)][:3], "distinct": len(keys),
           "discarded": discards, "unusable": len(generrs), "feature_counts": dict(sorted(feats.items())), "build_s": round(tb, 1)}
    cov.update(stats)
    cov.update(prop.extra(tier))
    ev = {"property": pid, "tier": tier, "seed": int(seed) if str(seed).isdigit() else 0, "level": "exploration",
          "coverage": cov, "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 1),
          "violations": len(failures)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases (%d distinct non-trivial), %d discarded, build %.1fs, total %.1fs"
          % (pid, tier, evaluations, len(nontriv), discards, tb, time.time() - t0))
    if generrs and os.environ.get("VERIF_HUNT"):
        print("GENERR %d: %s" % (len(generrs), generrs[0][:600]))
    if failures:
        for path, f in (failures if os.environ.get('VERIF_HUNT') else failures[:1]):
            print("  " + f.replace("\n", "\n  ")[:400])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("error of the check:\n" + errors[0])
        return 2
    if len(generrs) > (evaluations + len(generrs)) // 200:
        print("error of the check: %d generated programs unusable, e.g. %s" % (len(generrs), generrs[0][:3000]))
        return 2
    if evaluations == 0:
        print("error of the check: nothing was run")
        return 2
    return 0


def known_fails(k, path, t):
    """Default: a C file (with optional flags) whose behaviour differs from gcc's."""
    case = Case(open(path, encoding="latin1").read(), args=k.get("args", []), flags=k.get("flags", []))
    if k.get("reject"):
        exp, rc = None, None
        crc, _ = t.compile(write_case(case, t), t.path("main.wasm"), case.flags)
        return crc == 0
    return diff_gcc(case, t) is not None


def regressions(prop, t):
    """/verif/corpus/<id>/*.c: programs that must agree with gcc (inputs of repaired
    defects among them). First line may be `// args: ...`; *.bad.c must be rejected."""
    d = os.path.join(VERIF, "corpus", prop.id)
    if not os.path.isdir(d):
        return
    for f in sorted(os.listdir(d)):
        if not f.endswith(".c"):
            continue
        p = os.path.join(d, f)
        text = open(p, encoding="latin1").read()
        args = []
        if text.startswith("// args:"):
            args = text.split("\n", 1)[0][8:].split()
        case = Case(text, args=args)
        if f.endswith(".bad.c"):
            r = prop.check_rejected(case, t)
        else:
            r = diff_gcc(case, t)
        t.bump("corpus")
        if r is not None:
            yield p, "corpus %s: %s" % (f, r)
