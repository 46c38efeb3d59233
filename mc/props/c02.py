"""C02: a projection lives exactly as long as the pinned borrow it came from."""
from core import Prog, Prune

BOUNDS = ("all client histories of <=3 (quick) / <=4 (thorough) steps over {project, project_ref, use entry i, read, set, "
          "replace, move, drop} on 4/8 item forms with whole/pinned/unpinned entries kept, every "
          "(method x entry x return lifetime) signature, and every signature again over all lists of lifetime, type and const parameters of an alphabet x item kinds x arguments; oracle: the two-mode borrow model")
ASSUMPTIONS = ["the borrow model is Rust's: a live mutable projection excludes every other access, shared ones exclude mutation"]

PRE = "use core::pin::Pin; use pin_project::pin_project; use core::marker::PhantomPinned;\n"

# item text, constructor expression, how to get (pinned, unpinned) entries out of a projection `$`
FORMS = {
    "named": ("#[pin_project(project = SP, project_ref = SR, project_replace = SO)]\npub struct S<T> { #[pin] pub p: T, pub u: T }",
              "S { p: mk(), u: mk() }", "$.p", "$.u"),
    "enum": ("#[pin_project(project = SP, project_ref = SR, project_replace = SO)]\npub enum S<T> { A(#[pin] T, T), B }",
             "S::A(mk(), mk())", "match $ { @::A(a, _) => a, @::B => panic!() }", "match $ { @::A(_, b) => b, @::B => panic!() }"),
    "unnamed": ("#[pin_project(project_replace)]\npub struct S<T> { #[pin] pub p: T, pub u: T }",
                "S { p: mk(), u: mk() }", "$.p", "$.u"),
    "tuple": ("#[pin_project(project = SP, project_ref = SR, project_replace = SO)]\npub struct S<T>(#[pin] pub T, pub T);",
              "S(mk(), mk())", "$.0", "$.1"),
    "lt": ("#[pin_project(project = SP, project_ref = SR, project_replace = SO)]\npub struct S<'s, T> where T: 's { #[pin] pub p: T, pub u: T, pub r: Option<&'s T> }",
           "S { p: mk(), u: mk(), r: None }", "$.p", "$.u"),
    "notunpin": ("#[pin_project(!Unpin, project = SP, project_ref = SR, project_replace = SO)]\npub struct S<T> { #[pin] pub p: T, pub u: T }",
                 "S { p: mk(), u: mk() }", "$.p", "$.u"),
    "where": ("#[pin_project(project = SP, project_ref = SR, project_replace = SO)]\npub struct S<T> where T: Sized { pub u: T, #[pin] pub p: T }",
              "S { p: mk(), u: mk() }", "$.p", "$.u"),
    "onlyunpinned": ("#[pin_project(project = SP, project_ref = SR, project_replace = SO)]\npub struct S<T> { pub p: T, pub u: T }",
                     "S { p: mk(), u: mk() }", "$.p", "$.u"),
}
TY = "(u32, PhantomPinned)"


def ent(form, which, expr, proj):
    t = FORMS[form][2 if which == "p" else 3]
    if which == "w":
        return expr
    return t.replace("$", f"({expr})" if t.startswith("$") else expr).replace("@", proj)


def history(ctx):
    th = ctx.thorough
    n = 4 if th else 3

    def gen(c):
        form = c.pick("form", list(FORMS) if th else ["named", "enum", "unnamed", "lt"], free=True)
        src = c.pick("owner", ["box", "pinvar"], free=True)
        steps = []
        held = []      # (name, mode)
        gone = False
        body = ""
        # live analysis afterwards
        for k in range(n):
            opts = ["stop"]
            if not gone:
                opts += ["mut-w", "mut-p", "mut-u", "ref-w", "ref-p", "ref-u", "read", "set", "replace"]
                opts += ["move", "drop"]
            opts += [f"use{i}" for i in range(len(held))]
            s = c.pick(f"step{k}", opts, free=True)
            if s == "stop":
                break
            if s.startswith("mut-") or s.startswith("ref-"):
                m, w = s.split("-")
                held.append((f"e{len(held)}", m))
                steps.append(("acq", m, len(held) - 1))
                call = "o.as_mut().project()" if m == "mut" else "o.as_ref().project_ref()"
                proj = "SP" if m == "mut" else "SR"
                body += f"    let e{len(held)-1} = {ent(form, w, call, proj)};\n"
            elif s.startswith("use"):
                i = int(s[3:])
                steps.append(("use", i))
                body += f"    touch(&e{i});\n"
            elif s == "read":
                steps.append(("op", "ref"))
                body += "    touch(&*o);\n"
            elif s == "set":
                steps.append(("op", "mut"))
                body += "    o.as_mut().set(make());\n"
            elif s == "replace":
                steps.append(("op", "mut"))
                body += "    let _ = o.as_mut().project_replace(make());\n"
            elif s == "move":
                gone = True
                steps.append(("op", "mut"))
                body += "    let q = o; touch(&q);\n"
            elif s == "drop":
                gone = True
                # dropping the pin variable of a borrowed value is a move of that variable
                steps.append(("op", "mut"))
                body += "    drop(o);\n"
        if not steps or steps[-1][0] == "acq":
            raise Prune  # same program as the shorter one
        # verdict: an access conflicts with an entry that is used later
        bad = False
        for i, st in enumerate(steps):
            mode = st[1] if st[0] in ("acq", "op") else None
            if mode is None:
                continue
            for j in range(i):
                if steps[j][0] == "acq":
                    h = steps[j][2]
                    later = any(x == ("use", h) for x in steps[i + 1:])
                    if later and (steps[j][1] == "mut" or mode == "mut"):
                        bad = True
        decl, ctor, _, _ = FORMS[form]
        lt = "<'static, " if form == "lt" else "<"
        owner = ("    let mut o: Pin<Box<S" + lt + TY + ">>> = Box::pin(make());\n" if src == "box" else
                 "    let mut b: Pin<Box<S" + lt + TY + ">>> = Box::pin(make());\n    let mut o: Pin<&mut S" + lt + TY + ">> = b.as_mut();\n")
        text = (PRE + decl + f"\nfn mk() -> {TY} {{ (0, PhantomPinned) }}\nfn touch<X>(_: &X) {{}}\n"
                f"fn make() -> S{lt}{TY}> {{ {ctor} }}\npub fn f() {{\n{owner}{body}}}\n")
        return Prog(text, "err" if bad else "ok", f"history/{form}/{src}")
    return ctx.explore(gen)


def signatures(ctx):
    out = []
    for form in FORMS:
        decl, ctor, _, _ = FORMS[form]
        lt = form == "lt"
        named = form != "unnamed"
        for m in ("mut", "ref"):
            for w in ("w", "p", "u"):
                if w == "w" and not named:
                    continue
                proj = "SP" if m == "mut" else "SR"
                sty = "S<'s, T>" if lt else "S<T>"
                for ret, gens, ok in (("'a", "'a", True), ("'b", "'a, 'b", False), ("'static", "'a", False),
                                      ("'b", "'a: 'b, 'b", True), ("'b", "'a, 'b: 'a", False)):
                    mut = "mut " if m == "mut" else ""
                    call = "x.project()" if m == "mut" else "x.project_ref()"
                    args = "'s, T" if lt else "T"
                    pinned = form != "onlyunpinned"
                    if w == "w":
                        rt = f"{proj}<{ret}, {args}>"
                    elif w == "p" and pinned:
                        rt = f"Pin<&{ret} {mut}T>"
                    else:
                        rt = f"&{ret} {mut}T"
                    g = gens + (", 's" if lt else "")
                    bound = "where T: 'static" if ret == "'static" else ""
                    if lt:
                        bound = "where T: 's" + (" + 'static" if ret == "'static" else "")
                    text = (PRE + decl + f"\npub fn f<{g}, T>(x: Pin<&'a {mut}{sty}>) -> {rt} {bound} {{ {ent(form, w, call, proj)} }}\n")
                    out.append(Prog(text, "ok" if ok else "err", f"sig/{form}/{m}/{w}/{ret}/{gens}"))
        # the projection cannot outlive the value
        for m, call, proj in (("mut", "o.as_mut().project()", "SP"), ("ref", "o.as_ref().project_ref()", "SR")):
            for w in ("w", "p", "u"):
                for esc in (True, False):
                    l2 = "<'static, " if lt else "<"
                    scope = (f"    let e; {{ let mut o: Pin<Box<S{l2}{TY}>>> = Box::pin(make()); e = {ent(form, w, call, proj)};"
                             + (" } touch(&e);\n" if esc else " touch(&e); }\n"))
                    text = (PRE + decl + f"\nfn mk() -> {TY} {{ (0, PhantomPinned) }}\nfn touch<X>(_: &X) {{}}\n"
                            f"fn make() -> S{l2}{TY}> {{ {ctor} }}\npub fn f() {{\n{scope}}}\n")
                    out.append(Prog(text, "err" if esc else "ok", f"escape/{form}/{m}/{w}/{esc}"))
        # without reborrowing, projecting consumes the pinned reference
        l2 = "<'static, " if lt else "<"
        for use, ok in (("", True), ("touch(&x);", False), ("let y = x.project();", False)):
            text = (PRE + decl + f"\nfn touch<X>(_: &X) {{}}\npub fn f(x: Pin<&mut S{l2}{TY}>>) {{ let a = x.project(); {use} }}\n")
            out.append(Prog(text, "ok" if ok else "err", f"consume/{form}"))
        # shared projections coexist and copy; entries of one projection are independent
        pe, ue = ent(form, "p", "x.project_ref()", "SR"), ent(form, "u", "x.project_ref()", "SR")
        out.append(Prog(PRE + decl + f"\nfn touch<X>(_: &X) {{}}\npub fn f(x: Pin<&S{l2}{TY}>>) {{ let a = {pe}; let b = {ue}; touch(&*x); touch(&a); touch(&b); }}\n",
                        "ok", f"coexist/{form}"))
        if form not in ("enum",):
            a, b = FORMS[form][2][1:], FORMS[form][3][1:]
            out.append(Prog(PRE + decl + f"\nfn touch<X>(_: &X) {{}}\npub fn f(x: Pin<&mut S{l2}{TY}>>) {{ let y = x.project(); let a = y{a}; let b = y{b}; touch(&a); touch(&b); touch(&a); }}\n",
                            "ok", f"disjoint/{form}"))
        # the owned projection borrows nothing
        named_own = "SO" if named else None
        if named_own:
            ar = ("'s, T" if lt else "T")
            out.append(Prog(PRE + decl + f"\npub fn f<'a, {'s, ' if False else ''}{chr(39)+'s, ' if lt else ''}T>(x: Pin<&'a mut S<{ar}>>, n: S<{ar}>) -> SO<{ar}> {{ x.project_replace(n) }}\n",
                            "ok", f"owned/{form}"))
        # a reference held in a field may outlive the projection, but not be stretched
        if lt:
            for rt, ok in (("Option<&'s T>", True), ("&'a mut Option<&'s T>", True), ("&'s mut Option<&'s T>", False),
                           ("&'a mut Option<&'a T>", False), ("Option<&'a T>", True), ("Option<&'static T>", False)):
                e = "*x.project().r" if rt.startswith("Option") else "x.project().r"
                bd = " + 'static" if "static" in rt else ""
                out.append(Prog(PRE + decl + f"\npub fn f<'a, 's, T>(x: Pin<&'a mut S<'s, T>>) -> {rt} where T: 's{bd} {{ {e} }}\n",
                                "ok" if ok else "err", f"inner/{rt}"))
    # variance: a mutable projection is invariant in the type, a shared one covariant
    decl = FORMS["lt"][0]
    out.append(Prog(PRE + decl + "\npub fn f<'a, 'l: 'x, 'x, T: 'l>(x: SR<'a, 'l, T>) -> SR<'a, 'x, T> { x }\n", "ok", "variance/ref"))
    out.append(Prog(PRE + decl + "\npub fn f<'a, 'l: 'x, 'x, T: 'l>(x: SP<'a, 'l, T>) -> SP<'a, 'x, T> { x }\n", "err", "variance/mut"))
    out.append(Prog(PRE + decl + "\npub fn f<'a: 'b, 'b, 'l, T: 'l>(x: SP<'a, 'l, T>) -> SP<'b, 'l, T> where 'l: 'a { x }\n", "ok", "variance/mut-outer"))
    return out


LTS = [[], ["'x"], ["'x", "'y"], ["'x", "'y: 'x"], ["'x: 'y", "'y"], ["'x", "'y", "'z"], ["'pin"], ["'pin", "'pin_"], ["'x", "'pin: 'x"]]
TYS = [[], ["T"], ["T: ?Sized", "V"], ["T: Clone", "V: 'static"]]
CNS = [[], ["const K: usize"]]
PARGS = ["(project = SP, project_ref = SR)", "(project = SP, project_ref = SR, !Unpin)", "(project = SP, project_ref = SR, PinnedDrop)", "(project = SP, project_ref = SR, project_replace = SO)", "(project = SP, project_ref = SR, UnsafeUnpin)", ""]


def params(ctx):
    """every parameter list x kind x arguments: an entry is usable for exactly the borrow, whatever the lifetimes of the type itself"""
    th = ctx.thorough
    name = lambda p: p.replace("const ", "").split(":")[0]

    def gen(c):
        lts = c.pick("lifetimes", LTS, free=True)
        tys = c.pick("types", TYS, free=True)
        cns = c.pick("consts", CNS, free=True)
        kind = c.pick("kind", ["named", "tuple", "enum-named", "enum-tuple"], free=True)
        args = c.pick("args", PARGS if th or (not cns and len(tys) < 2) else PARGS[:1], free=True)
        if kind.startswith("enum") and args == "":
            raise Prune
        if not th and (args == PARGS[0]) == False and kind in ("tuple", "enum-tuple") and len(lts) != 1:
            raise Prune
        unsized = any("?Sized" in t for t in tys)
        # invariant in every parameter: nothing can be shortened on the way
        fts = [f"Cell<&{name(l)} u8>" for l in lts] + [f"Cell<*mut {name(t)}>" for t in tys] + [f"[u8; {name(k)}]" for k in cns]
        if not fts:
            fts = ["u8"]
        flip = c.pick("pins", [0, 1], free=True)
        pins = [(i + flip) % 2 == 0 for i in range(len(fts))]
        at = c.pick("field", range(len(fts)) if th else sorted({0, len(fts) - 1}), free=True)
        decls = [("#[pin] " if p else "") + ("pub " if not kind.startswith("enum") else "") + ("" if kind.endswith("tuple") else f"f{i}: ") + t for i, (t, p) in enumerate(zip(fts, pins))]
        gs = ", ".join(lts + tys + cns)
        gs = f"<{gs}>" if gs else ""
        us = ", ".join(name(x) for x in lts + tys + cns)
        us = f"<{us}>" if us else ""
        body = "(" + ", ".join(decls) + ")" if kind.endswith("tuple") else " { " + ", ".join(decls) + " }"
        decl = f"pub struct S{gs}{body}" + (";" if kind == "tuple" else "") if not kind.startswith("enum") else f"pub enum S{gs} {{ Z, A{body} }}"
        decl = f"#[pin_project{args}] {decl}\n"
        if "PinnedDrop" in args:
            decl += f"#[pin_project::pinned_drop] impl{gs} PinnedDrop for S{us} {{ fn drop(self: Pin<&mut Self>) {{}} }}\n"
        m = c.pick("mode", ["mut", "ref"], free=True)
        call, proj, mut = ("project()", "SP", "mut ") if m == "mut" else ("project_ref()", "SR", "")

        def get(e):
            if kind.startswith("enum"):
                pat = "(" + ", ".join("e" if i == at else "_" for i in range(len(fts))) + ")" if kind == "enum-tuple" else f" {{ f{at}: e, .. }}"
                return f"match {e}.{call} {{ {proj}::A{pat} => e, _ => panic!() }}"
            return f"{e}.{call}." + (str(at) if kind == "tuple" else f"f{at}")
        rets = [("'a", "'a", True), ("'b", "'a, 'b", False), ("'b", "'a: 'b, 'b", True), ("'static", "'a", False)] + [(name(l), "'a", False) for l in lts]
        what = c.pick("what", [("sig", r) for r in rets] + [("again", True), ("again", False), ("whole", True)], free=True)
        g2 = lambda pre: "<" + ", ".join(x for x in ([pre] if pre else []) + lts + tys + cns) + ">"
        if what[0] == "sig":
            r, gens, ok = what[1]
            ft = f"Pin<&{r} {mut}{fts[at]}>" if pins[at] else f"&{r} {mut}{fts[at]}"
            st = " where " + ", ".join(f"{name(t)}: 'static" for t in tys) if r == "'static" and tys and False else ""
            text = f"pub fn f{g2(gens)}(x: Pin<&'a {mut}S{us}>) -> {ft}{st} {{ {get('x')} }}\n"
        elif what[0] == "again":
            ok = what[1] or m == "ref"
            r = "as_mut()" if m == "mut" else "as_ref()"
            tail = "" if what[1] else " touch(&a);"
            text = f"fn touch<Q>(_: &Q) {{}}\npub fn f{g2('') if us else ''}(mut o: Pin<Box<S{us}>>) {{ let a = {get('o.' + r)}; touch(&a); let b = {get('o.' + r)}; touch(&b);{tail} o.set(loop {{}}); }}\n"
        else:
            ok = True
            if args == "":
                raise Prune
            a2 = ", ".join(["'a"] + [name(x) for x in lts + tys + cns])
            text = f"pub fn f{g2(chr(39) + 'a')}(x: Pin<&'a {mut}S{us}>) -> {proj}<{a2}> {{ x.{call} }}\n"
        return Prog(PRE + "use core::cell::Cell;\n" + decl + text, "ok" if ok else "err", f"params/{kind}/{m}/{what[0]}")
    return ctx.explore(gen)


def run(ctx):
    ctx.judge(history(ctx), part="histories")
    ctx.judge(params(ctx), part="parameters", chunk=100)
    ctx.judge(signatures(ctx), part="signatures")
