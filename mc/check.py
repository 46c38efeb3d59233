#!/usr/bin/env python3
"""python3 mc/check.py <ID> [--thorough] | --setup | --replay <file>"""
import os, sys, json, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

VERIF = core.VERIF


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.stats = core.Stats()
        self.rt_states = self.rt_transitions = 0
        self.traces = 0
        self.samples = []
        self.viol = []       # dicts
        self.parts = {}
        self._deps = {}
        self.bounds = []
        self.t0 = time.time()
        self.hung = False    # stopped early

    # --- machinery shared by the checks
    def deps(self, toolchain="stable"):
        if toolchain not in self._deps:
            self._deps[toolchain] = core.build(toolchain)
        return self._deps[toolchain]

    def explore(self, fn, bound=None):
        return core.explore(fn, bound, self.stats)

    def part(self, name, n):
        self.parts[name] = self.parts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s[:1500])

    def bad(self, tag, what, src, **kw):
        d = dict(property=self.pid, tag=tag, what=what, src=src)
        d.update(kw)
        self.viol.append(d)

    def judge(self, progs, part="programs", toolchain="stable", **kw):
        """accept/reject verdict of the real macro + compiler against the model's verdict"""
        progs = core.dedup(progs)
        if not progs:
            return
        for p in (progs[0], progs[len(progs) // 2], progs[-1]):
            self.sample(f"// {p.tag} -> {p.expect}\n{p.src}")
        bad, runs = core.judge(self.deps(toolchain), progs, **kw)
        nerr = sum(p.expect == "err" for p in progs)
        self.part(part + ":accept", len(progs) - nerr)
        self.part(part + ":reject", nerr)
        self.stats.states += len(progs)
        self.stats.transitions += len(progs)
        self.traces += len(progs)
        for p in bad:
            w = (f"rejected although it must be accepted: {p.diag}" if p.expect == "ok"
                 else "accepted although it must be rejected")
            self.bad(p.tag, w, p.src, edition=p.edition, crate_attrs=p.crate_attrs, mode="judge", expect=p.expect)
        return progs

    def calibrate(self, progs, part="calibration", **kw):
        """programs that do not use the crate: they bind the model to the compiler"""
        progs = core.dedup(progs)
        bad, _ = core.judge(self.deps(), progs, **kw)
        if bad:
            raise core.EngineError(f"calibration: {bad[0].tag}: {bad[0].expect} but {bad[0].verdict} {bad[0].diag}\n{bad[0].src}")
        self.part(part, len(progs))

    def miri(self, progs, main_of, part="miri", **kw):
        return self.run(progs, main_of, part=part, miri=True, **kw)

    def run(self, progs, main_of, part="runs", toolchain="stable", miri=False, **kw):
        """execute generated programs; each prints STATS/FAIL lines"""
        progs = core.dedup(progs)
        if not progs:
            return
        for p in (progs[0], progs[-1]):
            self.sample(f"// {p.tag}\n{p.src}")
        if miri:
            # controls must be caught by the interpreter, or its silence means nothing
            controls = kw.pop("controls", [])
            res, prob = core.run_miri(None, progs + controls, main_of, **kw)
            missed = [c.tag for c in controls if not any(p is c for p, _ in prob)]
            if missed:
                raise core.EngineError(f"Miri did not detect the control programs {missed}")
            prob = [(p, w) for p, w in prob if p not in controls]
            res = {p: l for p, l in res.items() if p not in controls}
        else:
            res, prob = core.run_bins(self.deps(toolchain), progs, main_of, **kw)
        self.part(part, len(res))
        for p, w in prob:
            self.bad(p.tag, w, p.src, edition=p.edition, crate_attrs=p.crate_attrs, mode="run", main=main_of(p))
        for p, lines in res.items():
            for l in lines:
                if l.startswith("STATS "):
                    a, b, c = map(int, l.split()[1:4])
                    self.rt_states += a
                    self.rt_transitions += b
                    self.traces += c
                elif l.startswith("FAIL "):
                    self.bad(p.tag, l[5:], p.src, edition=p.edition, crate_attrs=p.crate_attrs, mode="run", main=main_of(p))
        return res


def known_findings():
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):  # open findings; "fixed:" lines suppress nothing
                out.append(json.loads(l))
    return out


def matches(k, v):
    return k["property"] == v["property"] and all(
        (k[x] == v.get(x)) if x == "tag" else (k[x] in (v.get(x) or "")) for x in ("tag", "src", "what") if x in k)


def main():
    av = sys.argv[1:]
    if "--setup" in av:
        d = core.build("stable")
        print("built", d.pin_project)
        try:
            d = core.build("nightly")
            print("built", d.pin_project)
        except core.EngineError as e:
            print("nightly:", e)
        return 0
    if "--replay" in av:
        return replay(av[av.index("--replay") + 1])
    pid = [a for a in av if not a.startswith("-")][0]
    tier = "thorough" if "--thorough" in av else "quick"
    ctx = Ctx(pid, tier)
    mod = importlib.import_module("props." + pid.lower())
    try:
        mod.run(ctx)
    except core.Hang as e:
        p = e.prog
        ctx.hung = True
        ctx.bad(p.tag, f"the compiler does not come to an end ({core.CPU_ONE} s of CPU time; the exploration stops here)", p.src,
                edition=p.edition, crate_attrs=p.crate_attrs, mode="judge", expect=p.expect)
    except core.EngineError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        return 2
    known = known_findings()
    new, old = [], []
    for v in ctx.viol:
        k = next((k for k in known if matches(k, v)), None)
        (old if k else new).append((v, k))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    st = ctx.stats.states + ctx.rt_states
    tr = ctx.stats.transitions + ctx.rt_transitions
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=st, transitions=tr, traces_validated_against_impl=ctx.traces,
                            exhaustive=not ctx.hung, samples=ctx.samples or ["(none)"], parts=ctx.parts,
                            choice_tree=dict(states=ctx.stats.states, transitions=ctx.stats.transitions,
                                             leaves=ctx.stats.leaves, pruned=ctx.stats.pruned),
                            runtime_histories=dict(states=ctx.rt_states, transitions=ctx.rt_transitions),
                            bounds=ctx.bounds or [getattr(mod, "BOUNDS", "")]),
              assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                  "rustc (and, where used, Miri) decide the generated programs correctly",
                  "the random seed is not used: the enumeration is deterministic and complete within the bounds"],
              wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for line in sorted({f"KNOWN-FINDING: property={pid} {k.get('desc', v['what'])}" for v, k in old}):
        print(line)
    print(f"{pid} {tier}: states={st} transitions={tr} traces={ctx.traces} parts={ctx.parts} "
          f"wall={time.time() - ctx.t0:.1f}s violations={len(new)}")
    if new and os.environ.get("PP_MC_DUMP"):
        json.dump([v for v, _ in new], open(os.environ["PP_MC_DUMP"], "w"))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        new.sort(key=lambda t: len(t[0]["src"]))
        for n, (v, _) in enumerate(new[:5]):
            f = os.path.join(rd, f"{pid}-{n}.json")
            json.dump(v, open(f, "w"), indent=1)
            print(f"--- [{v['tag']}] {v['what'][:600]}")
            if n == 0:
                print(v["src"][:1500])
            print(f"VIOLATION property={pid} replay={f}")
        return 1
    return 0


def replay(f):
    v = json.load(open(f))
    d = core.build("stable")
    p = core.Prog(v["src"], v.get("expect", "ok"), v["tag"], edition=v.get("edition", "2021"),
                  crate_attrs=v.get("crate_attrs", ""))
    print(v["src"])
    if v.get("mode") == "run":
        res, prob = core.run_bins(d, [p], lambda q: v["main"].replace("p0", q.name))
        for q, w in prob:
            print("PROBLEM", w)
        for q, ls in res.items():
            print("\n".join(ls))
        return 1 if prob or any(l.startswith("FAIL") for ls in res.values() for l in ls) else 0
    try:
        ok, hit, loose = core.compile_batch(d, [p])
    except core.Hang:
        print("the compiler does not come to an end")
        return 1
    print("verdict:", "accepted" if ok else f"rejected {hit} {loose}", "expected:", p.expect)
    return 0 if ok == (p.expect == "ok") else 1


if __name__ == "__main__":
    sys.exit(main())
