"""Build the compiler from /repo's working tree; run it, gcc and node."""
import hashlib, json, os, select, shutil, signal, subprocess, sys, tempfile, time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
CC = os.path.join(TARGET, "debug", "c_to_wasm_compiler")

FLAGS = ["--noopt-tailcall", "--noopt-unreachable-procedure", "--noopt-stack-allocation"]


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        files.append(os.path.join(REPO, f))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build_env():
    e = dict(os.environ)
    e.update({
        "PATH": "/usr/local/sbin:/usr/local/bin:/root/.cargo/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_TERM_COLOR": "never",
        "RUSTC_WRAPPER": "", "CARGO_TARGET_DIR": TARGET,
        # the dev profile (overflow checks and debug assertions stay on), optimised for speed
        "CARGO_PROFILE_DEV_OPT_LEVEL": "2", "CARGO_PROFILE_DEV_DEBUG": "0",
    })
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def build():
    """(Re)build; returns None or an error text. Never trusts file times: the
    sources' hash decides whether the existing binary is current."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "stamp")
    h = tree_hash()
    if os.path.exists(CC) and os.path.exists(stamp) and open(stamp).read() == h:
        return None
    env = build_env()
    if os.path.exists(stamp):
        os.remove(stamp)
    if os.path.isdir(TARGET):
        subprocess.run(["cargo", "clean", "--offline", "-p", "c_to_wasm_compiler"], cwd=REPO, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--locked", "--offline", "--bin", "c_to_wasm_compiler"],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(CC):
        return p.stdout.decode(errors="replace")[-4000:]
    with open(stamp, "w") as f:
        f.write(h)
    return None


class Tools:
    """One per worker process: scratch directory and node worker."""

    def __init__(self):
        os.makedirs(os.path.join(BUILD, "scratch"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="w", dir=os.path.join(BUILD, "scratch"))
        self.node = None
        self.n = 0
        self.stats = {}
        self.env = dict(os.environ)
        self.env.pop("RUST_LOG", None)
        self.env["LC_ALL"] = "C"
        self.env["RUST_BACKTRACE"] = "0"

    def close(self):
        self.kill_node()
        shutil.rmtree(self.dir, ignore_errors=True)

    def bump(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text.encode("latin1") if isinstance(text, str) else text)
        return p

    # ---- gcc -------------------------------------------------------------
    def gcc(self, cfile, exe, san=False, opt="-O0", cc="gcc"):
        cmd = [cc, "-w", opt, "-std=gnu17", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-o", exe, cfile]
        if cc == "gcc":
            cmd[1:1] = ["-fexcess-precision=standard"]
        if san:
            cmd[1:1] = ["-fsanitize=undefined,address", "-fno-sanitize-recover=all", "-fno-sanitize=float-divide-by-zero"]
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=self.dir, timeout=120)
        return p.returncode, p.stderr.decode(errors="replace")

    def run_native(self, exe, args=(), limit=10, bigstack=False):
        """-> (stdout latin1, exit status or None)"""
        cmd = [exe, *args]
        if bigstack:
            cmd = ["/bin/sh", "-c", 'ulimit -s 1000000; exec "$@"', "sh", *cmd]
        try:
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=self.dir, timeout=limit)
        except subprocess.TimeoutExpired:
            return "", None, "timeout"
        return p.stdout.decode("latin1"), p.returncode, p.stderr.decode("latin1")

    # ---- the compiler under test ----------------------------------------
    def compile(self, cfile, out, flags=(), limit=60):
        """-> (rc, stderr text); rc 'timeout' only after an isolated retry"""
        t = time.time()
        for lim in (limit, 240):
            try:
                p = subprocess.run([CC, cfile, "-o", out, *flags], cwd=REPO, env=self.env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=lim)
                dt = time.time() - t
                if dt > self.stats.get("max_compile_s", 0):
                    self.stats["max_compile_s"] = round(dt, 2)
                return p.returncode, p.stdout.decode(errors="replace")[:4000]
            except subprocess.TimeoutExpired:
                continue
        return "timeout", ""

    # ---- node --------------------------------------------------------------
    def start_node(self):
        self.node = subprocess.Popen(
            ["node", os.path.join(VERIF, "harness", "worker.mjs"), REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.dir)
        self.n = 0

    def kill_node(self):
        if self.node is not None:
            try:
                self.node.kill()
                self.node.wait()
                self.node.stdin.close()
                self.node.stdout.close()
            except Exception:
                pass
            self.node = None

    def run_wasm(self, wasm, args=(), expect=None, trace=False, logpath=None, limit=20):
        """Run in the persistent worker. Returns dict out, rc, err, ..."""
        if self.n > 1500:
            self.kill_node()
        for attempt, lim in enumerate((limit, 90)):
            if self.node is None or self.node.poll() is not None:
                self.start_node()
            self.n += 1
            req = {"wasm": wasm, "args": list(args), "trace": trace}
            if expect is not None:
                req["expect"] = expect
            if logpath:
                req["logpath"] = logpath
            try:
                self.node.stdin.write((json.dumps(req) + "\n").encode())
                self.node.stdin.flush()
                line = self._readline(lim)
            except (BrokenPipeError, OSError):
                line = b""
            if line:
                return json.loads(line)
            died = self.node.poll() is not None
            self.kill_node()
        return {"out": "", "rc": None, "err": "worker died" if died else "no answer (hang)", "diverged": False}

    def validate(self, wasm, limit=60):
        """is the file a valid module?"""
        for _ in range(2):
            if self.node is None or self.node.poll() is not None:
                self.start_node()
            try:
                self.node.stdin.write((json.dumps({"validate": wasm}) + "\n").encode())
                self.node.stdin.flush()
                line = self._readline(limit)
            except (BrokenPipeError, OSError):
                line = b""
            if line:
                return json.loads(line)["ok"]
            self.kill_node()
        raise RuntimeError("node does not answer")

    def _readline(self, limit):
        end = time.time() + limit
        buf = b""
        fd = self.node.stdout.fileno()
        while True:
            left = end - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                return b""
            buf += chunk
            if buf.endswith(b"\n"):
                return buf

    def run_real(self, wasm, args=(), limit=60):
        """A real `node run.mjs` process."""
        try:
            p = subprocess.run(["node", REPO + "/runtime/run.mjs", wasm, *args], stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.dir, timeout=limit)
        except subprocess.TimeoutExpired:
            return {"out": "", "rc": None, "err": "no answer (hang)"}
        err = p.stderr.decode("latin1")[-300:] or None
        return {"out": p.stdout.decode("latin1"), "rc": p.returncode, "err": err if p.returncode == 1 and err else None}
