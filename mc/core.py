"""Exploration engine: bounded choice-tree enumeration, building /repo, judging programs with rustc."""
import os, sys, json, subprocess, tempfile, shutil, time, atexit, hashlib, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = os.path.join(VERIF, "mc")
TARGET = os.environ.get("PP_MC_TARGET", os.path.join(VERIF, "target"))
JOBS = int(os.environ.get("PP_MC_JOBS", "8"))


class EngineError(Exception):
    pass


# Limits on CPU time, not wall time: the verdict does not depend on the load of the machine.
CPU_BATCH, CPU_ONE, CPU_RUN = 100, 25, 400
MEM_KB = 8 << 20


def limited(cmd, cpu):
    return ["/bin/sh", "-c", f'ulimit -S -t {cpu}; ulimit -v {MEM_KB}; exec "$@"', "sh"] + cmd


class Hang(Exception):
    """one program on its own keeps the compiler busy for more than CPU_ONE seconds"""

    def __init__(self, prog):
        Exception.__init__(self, prog.tag)
        self.prog = prog
        _hang.append(self)  # the other workers stop too


_hang = []


# ------------------------------------------------------------------ exploration
class Choice:
    """One path through the choice tree. `pick` is a nondeterministic choice point.

    Option 0 is the default; taking another one is a deviation (cost 1) unless the
    point is free.  Replay of a prefix must see the same number of options, anything
    else is a hard error (uncontrolled nondeterminism)."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []  # (label, nopts, chosen, free)
        self.cost = 0

    def pick(self, label, opts, free=False):
        opts = list(opts)
        i = len(self.trace)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(opts):
            raise EngineError(f"replay divergence at {label}: {k} of {len(opts)}")
        self.trace.append((label, len(opts), k, free))
        if k and not free:
            self.cost += 1
        return opts[k]


class Prune(Exception):
    pass


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.leaves = 0
        self.pruned = 0


def explore(fn, bound=None, stats=None):
    """All leaves of fn's choice tree with at most `bound` deviations, cheapest first."""
    stats = stats if stats is not None else Stats()
    out = []
    stack = [()]
    stats.states += 1
    while stack:
        prefix = stack.pop()
        c = Choice(prefix)
        leaf = None
        try:
            leaf = fn(c)
        except Prune:
            stats.pruned += 1
        if len(c.trace) < len(prefix):
            raise EngineError("replay divergence: path shorter than prefix")
        new = len(c.trace) - max(0, len(prefix) - 1)
        stats.states += new
        stats.transitions += new
        if leaf is not None:
            out.append((c.cost, len(out), leaf))
            stats.leaves += 1
        cost = 0
        for i, (label, n, k, free) in enumerate(c.trace):
            if i >= len(prefix):
                for alt in range(1, n):
                    if bound is None or free or cost + 1 <= bound:
                        stack.append(tuple(t[2] for t in c.trace[:i]) + (alt,))
            if k and not free:
                cost += 1
    out.sort(key=lambda t: (t[0], t[1]))
    return [t[2] for t in out]


# ------------------------------------------------------------------ scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pp-mc-")
        if not os.environ.get("PP_MC_KEEP"):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def env(toolchain="stable"):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    return e


# ------------------------------------------------------------------ building /repo
class Deps:
    pass


def build(toolchain="stable"):
    """Build pin-project from /repo's working tree (always recompiled) and the support crates."""
    tdir = os.path.join(TARGET, toolchain)
    e = env(toolchain)
    cwd = os.path.join(MC, "deps")
    # Never trust file times: the crates under test are recompiled on every run.
    subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "pin-project", "-p", "pin-project-internal",
                    "-p", "auxmac", "--target-dir", tdir], cwd=cwd, env=e,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "-q", "--message-format=json", "--target-dir", tdir],
                       cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        msgs = [json.loads(l)["message"].get("rendered") for l in r.stdout.splitlines()
                if l.startswith("{") and json.loads(l).get("reason") == "compiler-message"]
        raise EngineError("cannot build /repo: " + r.stderr[-2000:] + "\n".join(m or "" for m in msgs)[-3000:])
    d = Deps()
    d.toolchain = toolchain
    d.libdir = os.path.join(tdir, "debug", "deps")
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"]
            if n == "pin_project":
                d.pin_project = [f for f in m["filenames"] if f.endswith(".rlib")][0]
            if n == "auxmac":
                d.auxmac = [f for f in m["filenames"] if f.endswith(".so")][0]
    # runtime support crate (reference models, tracked field types)
    rt = os.path.join(scratch(), f"libmcrt-{toolchain}.rlib")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "mcrt", "-O", "-o", rt,
                        os.path.join(MC, "rt", "lib.rs")], env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise EngineError("cannot build mcrt: " + r.stderr[-3000:])
    d.mcrt = rt
    return d


# ------------------------------------------------------------------ programs
class Prog:
    """A client program: module body `src`, and what the reference model says about it."""
    __slots__ = ("src", "expect", "tag", "meta", "edition", "crate_attrs", "verdict", "diag", "key", "name", "externs")

    def __init__(self, src, expect="ok", tag="", meta=None, edition="2021", crate_attrs="", externs=()):
        assert expect in ("ok", "err")
        self.src = src
        self.expect = expect
        self.tag = tag
        self.meta = meta or {}
        self.edition = edition
        self.crate_attrs = crate_attrs
        self.externs = tuple(externs)
        self.verdict = None
        self.diag = ""
        self.key = hashlib.sha1("\0".join([src, expect, edition, crate_attrs]).encode()).hexdigest()[:16]


def dedup(progs):
    seen, out = {}, []
    for p in progs:
        k = (p.src, p.edition, p.crate_attrs)
        if k in seen:
            if seen[k].expect != p.expect:
                raise EngineError("model contradiction for\n" + p.src)
            continue
        seen[k] = p
        out.append(p)
    return out


def _span_lines(sp, fname, acc):
    if sp is None:
        return
    if sp.get("file_name") == fname:
        acc.append((sp["line_start"], sp["line_end"]))
    exp = sp.get("expansion")
    if exp:
        _span_lines(exp.get("span"), fname, acc)
        _span_lines(exp.get("def_site_span"), fname, acc) if not acc else None


HEADER = "#![allow(warnings)]\n"


class Crate:
    """A batch of programs as modules of one crate."""

    def __init__(self, progs, header=HEADER, trailer="", wrap=True):
        self.progs = progs
        self.ranges = []
        lines = header
        cur = lines.count("\n") + 1
        parts = [lines]
        for i, p in enumerate(progs):
            p.name = f"p{i}"
            body = p.src if p.src.endswith("\n") else p.src + "\n"
            text = f"pub mod p{i} {{\n{body}}}\n" if wrap else body
            n = text.count("\n")
            self.ranges.append((cur, cur + n - 1))
            cur += n
            parts.append(text)
        parts.append(trailer)
        self.text = "".join(parts)

    def owner(self, line):
        lo, hi = 0, len(self.ranges) - 1
        while lo <= hi:
            m = (lo + hi) // 2
            a, b = self.ranges[m]
            if line < a:
                hi = m - 1
            elif line > b:
                lo = m + 1
            else:
                return m
        return None


def rustc(deps, path, out, edition="2021", crate_type="lib", emit="metadata", extra=(), cpu=CPU_BATCH, extern=()):
    """-> (exit status or None when the CPU limit was reached, diagnostics)"""
    if _hang:
        raise _hang[0]
    cmd = ["rustc", "--edition", edition, "--crate-type", crate_type, "--error-format=json",
           "--extern", f"pin_project={deps.pin_project}", "-L", f"dependency={deps.libdir}",
           "-C", "debuginfo=0"]
    if "auxmac" in extern:
        cmd += ["--extern", f"auxmac={deps.auxmac}"]
    if "mcrt" in extern:
        cmd += ["--extern", f"mcrt={deps.mcrt}"]
    for x in extern:
        if "=" in x:
            cmd += ["--extern", x]
    if crate_type == "bin":
        cmd += ["-C", "opt-level=0", "-C", "codegen-units=16", "-o", out]
    else:
        cmd += [f"--emit={emit}", "-o", out]
    cmd += list(extra) + [path]
    t0 = time.time()
    e = env(deps.toolchain)
    with open(path) as fh:
        if fh.read(11) == "#![feature(":
            e["RUSTC_BOOTSTRAP"] = "1"  # programs that use unstable language features
    r = subprocess.run(limited(cmd, cpu), env=e, capture_output=True, text=True)
    if os.environ.get("PP_MC_TIMES"):
        open(os.environ["PP_MC_TIMES"], "a").write(f"{time.time() - t0:.1f} {crate_type}\n")
    if r.returncode in (-24, 152) or (r.returncode not in (0, 1) and time.time() - t0 > cpu / 5):
        return None, []  # SIGXCPU, or a slow death for want of memory
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    return r.returncode, diags


def attribute(crate, fname, diags, levels=("error",)):
    """index of program -> list of messages; plus unattributed errors."""
    hit, loose = {}, []
    for d in diags:
        if d.get("level") not in levels and not (d.get("level") or "").startswith("error"):
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to") or msg.startswith("Some errors have detailed"):
            continue
        acc = []
        spans = d.get("spans") or []
        prim = [s for s in spans if s.get("is_primary")] or spans
        for s in prim:
            _span_lines(s, fname, acc)
        if not acc:
            for s in spans:
                _span_lines(s, fname, acc)
        owners = {crate.owner(a) for a, b in acc} - {None}
        code = (d.get("code") or {}).get("code") if d.get("code") else None
        text = (f"[{code}] " if code else "") + msg
        if owners:
            # an error belongs to the program(s) its primary spans lie in
            for o in owners:
                hit.setdefault(o, []).append(text)
        else:
            loose.append(text)
    return hit, loose


def extern_lib(deps, name, src, edition="2021"):
    """a library crate that generated clients can link to; returns its extern entry"""
    f = os.path.join(scratch(), f"{name}.rs")
    open(f, "w").write(src)
    out = os.path.join(scratch(), f"lib{name}.rmeta")
    rc, diags = rustc(deps, f, out, edition=edition, extern=("mcrt", "auxmac"), extra=["--crate-name", name])
    if rc != 0:
        return None, "; ".join(d.get("message", "") for d in diags if d.get("level") == "error")[:600]
    return f"{name}={out}", ""


_n = 0


def _fname(suffix):
    global _n
    _n += 1
    return os.path.join(scratch(), f"c{_n}{suffix}")


def compile_batch(deps, progs, extern=("mcrt", "auxmac"), header=HEADER):
    """One rustc run over the batch -> (clean?, {index: msgs}, loose)."""
    p0 = progs[0]
    crate = Crate(progs, header=p0.crate_attrs + header)
    f = _fname(".rs")
    open(f, "w").write(crate.text)
    rc, diags = rustc(deps, f, f + ".rmeta", edition=p0.edition, extern=extern, cpu=CPU_ONE if len(progs) == 1 else CPU_BATCH)
    for x in (f, f + ".rmeta"):
        try:
            os.unlink(x)
        except OSError:
            pass
    if rc is None:
        if len(progs) == 1:
            raise Hang(p0)
        return None, {}, []
    hit, loose = attribute(crate, f, diags)
    if rc == 0:
        return True, {}, []
    return False, hit, loose


def judge(deps, progs, extern=("mcrt", "auxmac"), header=HEADER, chunk=120, confirm_max=300):
    """Decide accept/reject by the real compiler for every program (sets .verdict/.diag).

    Programs expected to be accepted are batched together and so are those expected to be
    rejected.  In a batch, a program is rejected if an error is located in it.  Because an
    early compiler phase may hide errors of a later one, the programs without an error are
    compiled again without the flagged ones, until a compilation succeeds (those programs
    are accepted) or no error can be attributed (then they are compiled one by one)."""
    groups = {}
    for p in progs:
        groups.setdefault((p.expect, p.edition, p.crate_attrs), []).append(p)
    runs = 0

    def work(batch):
        nonlocal runs
        todo = batch
        first = True
        while todo:
            runs += 1
            ok, hit, loose = compile_batch(deps, todo, extern, header)
            if ok is None:
                for p in todo:
                    work([p])
                return
            if ok:
                for p in todo:
                    p.verdict = "ok"
                return
            if not hit:
                if len(todo) == 1:
                    todo[0].verdict = "err"
                    todo[0].diag = "; ".join(loose)[:500]
                    return
                mid = len(todo) // 2
                work(todo[:mid])
                work(todo[mid:])
                return
            rest = []
            for i, p in enumerate(todo):
                if i in hit:
                    p.verdict = "err"
                    p.diag = "; ".join(hit[i])[:600]
                else:
                    rest.append(p)
            todo = rest
            first = False

    batches = []
    for k, ps in groups.items():
        n = max(1, min(chunk, (len(ps) + JOBS - 1) // JOBS))
        for i in range(0, len(ps), n):
            batches.append(ps[i:i + n])
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(work, batches))
    # every unexpected verdict is confirmed on its own before it counts
    bad = [p for p in progs if p.verdict != p.expect]

    def confirm(p):
        ok, hit, loose = compile_batch(deps, [p], extern, header)
        p.verdict = "ok" if ok else "err"
        p.diag = "" if ok else ("; ".join(sum(hit.values(), []) + loose))[:800]

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(confirm, bad[:confirm_max]))
    return [p for p in bad[:confirm_max] if p.verdict != p.expect], runs


# ------------------------------------------------------------------ running
def run_bins(deps, progs, main_of, extern=("mcrt", "auxmac"), header=None, chunk=60, extra=()):
    """Compile programs (all expected to be accepted) into binaries whose main visits every
    program, run them, and return {prog: list of result lines}, list of (prog, problem)."""
    header = header if header is not None else HEADER
    results, problems = {}, []
    groups = {}
    for p in progs:
        groups.setdefault((p.edition, p.crate_attrs), []).append(p)
    batches = []
    for k, ps in groups.items():
        n = max(1, min(chunk, (len(ps) + JOBS - 1) // JOBS))
        for i in range(0, len(ps), n):
            batches.append(ps[i:i + n])

    def one(batch):
        res, prob = {}, []
        todo = list(batch)
        while todo:
            p0 = todo[0]
            for i, p in enumerate(todo):
                p.name = f"p{i}"
            trailer = "fn main() { mcrt::init();\n" + "".join(main_of(p) + "\n" for p in todo) + "}\n"
            crate = Crate(todo, header=p0.crate_attrs + header, trailer=trailer)
            f = _fname(".rs")
            open(f, "w").write(crate.text)
            rc, diags = rustc(deps, f, f + ".bin", edition=p0.edition, crate_type="bin", extern=extern, extra=extra, cpu=CPU_ONE if len(todo) == 1 else CPU_BATCH)
            if rc is None:
                if len(todo) == 1:
                    raise Hang(p0)
                for p in todo:
                    r2, p2 = one([p])
                    res.update(r2)
                    prob += p2
                return res, prob
            if rc != 0:
                hit, loose = attribute(crate, f, diags)
                if not hit:
                    if len(todo) == 1:
                        prob.append((todo[0], "rejected by the compiler: " + "; ".join(loose)[:600]))
                        return res, prob
                    # errors in the generated main or unattributable: split
                    m = len(todo) // 2
                    for part in (todo[:m], todo[m:]):
                        r2, p2 = one(part)
                        res.update(r2)
                        prob += p2
                    return res, prob
                for i in hit:
                    prob.append((todo[i], "rejected by the compiler: " + "; ".join(hit[i])[:600]))
                todo = [p for i, p in enumerate(todo) if i not in hit]
                continue
            r = subprocess.run(limited([f + ".bin"], CPU_RUN), capture_output=True, text=True, cwd=scratch())
            cur = None
            byname = {p.name: p for p in todo}
            done = set()
            for l in r.stdout.splitlines():
                if l.startswith("BEGIN "):
                    cur = byname[l[6:].strip()]
                    res.setdefault(cur, [])
                elif l.startswith("END "):
                    done.add(cur)
                    cur = None
                elif cur is not None:
                    res[cur].append(l)
            if r.returncode != 0:
                if cur is None:
                    raise EngineError(f"generated binary failed outside a program: {r.returncode} {r.stderr[-500:]}")
                prob.append((cur, f"process died (status {r.returncode}) while exploring: " + r.stderr[-400:].strip()))
                todo = [p for p in todo if p not in done and p is not cur]
            else:
                miss = [p for p in todo if p not in done]
                if miss:
                    raise EngineError("generated binary skipped programs")
                todo = []
            for x in (f, f + ".bin"):
                try:
                    os.unlink(x)
                except OSError:
                    pass
        return res, prob

    with ThreadPoolExecutor(JOBS) as ex:
        for res, prob in ex.map(one, batches):
            results.update(res)
            problems += prob
    return results, problems


# ------------------------------------------------------------------ Miri
def run_miri(deps, progs, main_of, flags="", timeout=820, header=HEADER, nbatch=None):
    """Interpret the programs with Miri (all accepted programs; UB, leaks and panics are problems)."""
    root = os.path.join(scratch(), f"miri{_fname('')[-6:].replace('/', '_')}")
    e = env("nightly")
    e["MIRIFLAGS"] = flags
    e["CARGO_TARGET_DIR"] = os.path.join(root, "target")
    os.makedirs(os.path.join(root, "src/bin"))
    os.makedirs(os.path.join(root, "mcrt"))
    open(os.path.join(root, "mcrt/Cargo.toml"), "w").write(
        f'[package]\nname = "mcrt"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "{os.path.join(MC, "rt", "lib.rs")}"\n')
    open(os.path.join(root, "Cargo.toml"), "w").write(
        '[package]\nname = "mm"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\npin-project = { path = "/repo" }\n'
        'mcrt = { path = "mcrt" }\n[workspace]\n[profile.dev]\ndebug = 0\nincremental = false\n')
    lock = os.path.join(MC, "deps", "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(root, "Cargo.lock"))
    open(os.path.join(root, "src/lib.rs"), "w").write("")
    results, problems = {}, []
    work = [[] for _ in range(nbatch or JOBS * 3)]
    for i, p in enumerate(sorted((p for p in progs if not p.meta.get("alone")), key=lambda p: -p.meta.get("weight", 1))):
        work[i % len(work)].append(p)
    work += [[p] for p in progs if p.meta.get("alone")]
    work = [w for w in work if w]
    # dependencies once
    r = subprocess.run(["cargo", "miri", "run", "--offline", "-q", "--bin", "warm"], cwd=_warm(root), env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise EngineError("miri cannot run here: " + r.stderr[-2000:])
    n = [0]
    import threading
    lk = threading.Lock()

    def one(batch):
        res, prob = {}, []
        todo = list(batch)
        while todo:
            with lk:
                n[0] += 1
                b = f"b{n[0]}"
            for i, p in enumerate(todo):
                p.name = f"p{i}"
            trailer = "fn main() { mcrt::init();\n" + "".join(main_of(p) + "\n" for p in todo) + "}\n"
            crate = Crate(todo, header=todo[0].crate_attrs + header, trailer=trailer)
            f = os.path.join(root, "src/bin", b + ".rs")
            open(f, "w").write(crate.text)
            names = {p.name: p for p in todo}
            try:
                r = subprocess.run(["cargo", "miri", "run", "--offline", "-q", "--bin", b], cwd=root, env=e, capture_output=True, text=True, timeout=timeout)
                out, err, rc = r.stdout, r.stderr, r.returncode
            except subprocess.TimeoutExpired:
                raise EngineError("miri timed out")
            cur, done = None, set()
            for l in out.splitlines():
                if l.startswith("BEGIN "):
                    cur = names[l[6:].strip()]
                    res.setdefault(cur, [])
                elif l.startswith("END "):
                    done.add(cur)
                    cur = None
                elif cur is not None:
                    res[cur].append(l)
            os.unlink(f)
            if rc == 0:
                if len(done) != len(todo):
                    raise EngineError("miri skipped programs")
                return res, prob
            m = re.search(r"error: (Undefined Behavior:.*|memory leaked.*|abnormal termination.*|unsupported operation.*|.*)", err)
            what = m.group(1) if m else err[-300:]
            if cur is not None:
                prob.append((cur, "Miri: " + what[:500]))
                todo = [p for p in todo if p not in done and p is not cur]
            elif done:
                # at exit (leak): find the program by running them one by one
                if len(todo) == 1:
                    prob.append((todo[0], "Miri: " + what[:500]))
                    return res, prob
                h = len(todo) // 2
                for part in (todo[:h], todo[h:]):
                    r2, p2 = one(part)
                    prob += p2
                return res, prob
            else:
                if "could not compile" in err or "error[" in err:
                    if len(todo) == 1:
                        prob.append((todo[0], "rejected by the compiler: " + what[:500]))
                        return res, prob
                    h = len(todo) // 2
                    for part in (todo[:h], todo[h:]):
                        r2, p2 = one(part)
                        res.update(r2)
                        prob += p2
                    return res, prob
                raise EngineError("miri failed: " + err[-1500:])
        return res, prob

    with ThreadPoolExecutor(JOBS) as ex:
        for res, prob in ex.map(one, work):
            results.update(res)
            problems += prob
    shutil.rmtree(root, True)
    return results, problems


def _warm(root):
    f = os.path.join(root, "src/bin/warm.rs")
    open(f, "w").write("fn main() {}\n")
    return root
