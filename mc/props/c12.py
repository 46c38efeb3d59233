"""C12: the attribute accepts exactly the documented argument lists, in any order."""
from core import Prog, Prune
import itertools

BOUNDS = ("all argument lists of length <=3 (quick) / <=4 (thorough) over 13 documented arguments incl. every name clash, all orders of all valid sets "
          "(<=5 arguments), complete lists with one more argument at every position, 45 malformed arguments in every position of lists of length <=3, all separator patterns of lists of length <=3, all attribute "
          "delimiters, for structs and enums; each accepted list is probed for the meaning of each argument")
PRE = "use core::marker::PhantomPinned; use core::pin::Pin; use pin_project::{pin_project, pinned_drop};\n"
GOOD = ["PinnedDrop", "UnsafeUnpin", "!Unpin", "project = A", "project = B", "project_ref = A", "project_ref = B", "project_replace", "project_replace = A", "project_replace = C",
        "project = S", "project_ref = S", "project_replace = S"]
BAD = ["Replace", "Unpin", "project", "project_ref", "project =", "project_ref =", "project_replace =", "project = 1", "project = \"A\"", "project = A::B", "project = _", "project = type", "project = (A)", "project = A B", "project(A)", "project: A", "project == A",
       "project_ref = self", "project_replace(A)", "project_replace = 'a", "foo", "foo = A", "!", "!Foo", "!PinnedDrop", "!UnsafeUnpin", "!!Unpin", "?Unpin", "-Unpin", "PinnedDrop = A", "PinnedDrop()", "PinnedDrop = true", "UnsafeUnpin()", "UnsafeUnpin = A", "!Unpin = A", "unsafe Unpin",
       "pinned_drop", "unpin", "Project = A", "project-ref = A", "project_mut = A", "1", "\"PinnedDrop\"", "()", "#", "__private(PinnedDrop)", "PinnedDrop PinnedDrop", "self", "project = pub A", "project = crate::A", "project = A<'a>", "PinnedDrop!", "!(Unpin)", "project = A = B", "Self"]
KINDS = {"struct": "struct S<T> { #[pin] f: T, g: u8 }", "tuple": "struct S<T>(#[pin] T, u8);", "enum": "enum S<T> { V(#[pin] T, u8), W }"}
MKV = {"struct": "S { f: 1u8, g: 2 }", "tuple": "S(1u8, 2)", "enum": "S::V(1u8, 2)"}


PD = "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n"
PU = "unsafe impl<T: Copy> pin_project::UnsafeUnpin for S<T> {}\n"


def near(words):
    """identifiers close to the documented ones"""
    out = []
    for w in words:
        parts = [x for x in __import__("re").split(r"_|(?=[A-Z])", w) if x]
        v = ["_".join(parts).lower(), "".join(parts).lower(), "".join(x.capitalize() for x in parts), parts[0].lower() + "".join(x.capitalize() for x in parts[1:]), "_".join(parts).upper(), "".join(parts).upper(), "_" + w, w + "_", w + "s", w[:-1], w + "ed", w[1:], w + w, w + "1", "r_" + w,
             "__" + w, parts[0], parts[-1], "_".join(reversed(parts)).lower(), "".join(x.capitalize() for x in reversed(parts)), "no_" + w, "Not" + w]
        out += [x for x in v if x and x not in words and x not in out and not x.isdigit()]
    return out


NEAR = near(["PinnedDrop", "UnsafeUnpin", "Unpin", "project", "project_ref", "project_replace", "Drop", "Replace", "project_mut", "project_own", "crate", "unsafe", "default", "Sized"])
KEYW = {"PinnedDrop", "UnsafeUnpin", "project", "project_ref", "project_replace"}


def parse(args):
    """reference semantics: dict of arguments, or None"""
    d = {}
    for a in args:
        if a in BAD:
            return None
        k, _, v = a.partition(" = ")
        if k in d:
            return None
        d[k] = v
    names = [d[k] for k in ("project", "project_ref", "project_replace") if d.get(k)]
    if len(set(names)) < len(names) or "S" in names:
        return None
    if "PinnedDrop" in d and "project_replace" in d:
        return None
    if "UnsafeUnpin" in d and "!Unpin" in d:
        return None
    return d


def probe(d, kind):
    o = ""
    enum = kind == "enum"
    if d.get("project"):
        o += f"fn q1(x: Pin<&mut S<u8>>) {{ let _: {d['project']}<'_, u8> = x.project(); }}\n"
    elif not enum:
        o += "fn q1(x: Pin<&mut S<u8>>) { let _ = x.project(); }\n"
    if d.get("project_ref"):
        o += f"fn q2(x: Pin<&S<u8>>) {{ let _: {d['project_ref']}<'_, u8> = x.project_ref(); }}\n"
    elif not enum:
        o += "fn q2(x: Pin<&S<u8>>) { let _ = x.project_ref(); }\n"
    if "project_replace" in d:
        t = f": {d['project_replace']}<u8>" if d["project_replace"] else ""
        o += f"fn q3(x: Pin<&mut S<u8>>) {{ let _{t} = x.project_replace({MKV[kind]}); }}\n"
    if "PinnedDrop" in d:
        o += "#[pinned_drop] impl<T> PinnedDrop for S<T> { fn drop(self: Pin<&mut Self>) {} }\n"
    else:
        # no destructor: fields can be moved out
        if kind == "struct":
            o += "fn q4(s: S<String>) -> String { s.f }\n"
        elif kind == "tuple":
            o += "fn q4(s: S<String>) -> String { s.0 }\n"
        else:
            o += "fn q4(s: S<String>) -> String { match s { S::V(x, _) => x, S::W => String::new() } }\n"
    if "UnsafeUnpin" in d:
        o += "unsafe impl<T: Copy> pin_project::UnsafeUnpin for S<T> {}\n"
        o += "const _: () = assert!(mcrt::is_unpin!(S<u8>) && !mcrt::is_unpin!(S<String>) && mcrt::is_unpin!(S<PhantomPinned>));\n"
    elif "!Unpin" in d:
        o += "const _: () = assert!(!mcrt::is_unpin!(S<u8>) && !mcrt::is_unpin!(S<String>) && !mcrt::is_unpin!(S<PhantomPinned>));\n"
    else:
        o += "const _: () = assert!(mcrt::is_unpin!(S<u8>) && mcrt::is_unpin!(S<String>) && !mcrt::is_unpin!(S<PhantomPinned>));\n"
    return o


def prog(text, d, kind, tag, delim="()"):
    """d: parsed arguments or None"""
    if d is not None and kind == "enum" and "project_replace" in d and not d["project_replace"]:
        d = None
    attr = f"#[pin_project{delim[0]}{text}{delim[1]}]" if text is not None else "#[pin_project]"
    item = PRE + attr + " " + KINDS[kind] + "\n"
    if d is None:
        # give the item what its arguments may ask for, so that nothing else is wrong with it
        if "PinnedDrop" in (text or ""):
            item += PD
        return Prog(item, "err", tag)
    return Prog(item + probe(d, kind), "ok", tag)


def run(ctx):
    th = ctx.thorough
    kinds = list(KINDS)
    ps = []

    def lists(c):
        kind = c.pick("kind", kinds, free=True)
        n = c.pick("length", range(0, 5 if th else 4), free=True)
        if n >= 3 and kind == "tuple":
            raise Prune
        args = [c.pick(f"arg{i}", GOOD, free=True) for i in range(n)]
        tr = c.pick("trailing", ["", ","] if n and n < 3 else [""], free=True)
        return prog(", ".join(args) + tr, parse(args), kind, "list")
    ps += ctx.explore(lists)

    # all orders of all valid sets
    def orders(c):
        kind = c.pick("kind", kinds, free=True)
        s = [x for x in (c.pick("p", [None, "project = A", "project = r#A"], free=True), c.pick("r", [None, "project_ref = B"], free=True), c.pick("o", [None, "project_replace", "project_replace = C"], free=True),
                         c.pick("d", [None, "PinnedDrop"], free=True), c.pick("u", [None, "UnsafeUnpin", "!Unpin"], free=True)) if x]
        if "project = r#A" in s:
            raise Prune
        perm = c.pick("order", list(itertools.permutations(s)), free=True)
        return prog(", ".join(perm), parse(perm), kind, "order")
    ps += ctx.explore(orders)
    # malformed arguments in every position
    core_ = ["PinnedDrop", "!Unpin", "project = A", "project_ref = B", "project_replace = C"]

    def bad(c):
        kind = c.pick("kind", ["struct", "enum"], free=True)
        b = c.pick("bad", BAD, free=True)
        rest = c.pick("rest", [()] + [(x,) for x in core_] + ([tuple(x) for x in itertools.permutations(core_, 2)] if th else [("project = A", "!Unpin"), ("PinnedDrop", "project_ref = B")]), free=True)
        pos = c.pick("pos", range(len(rest) + 1), free=True)
        args = list(rest)
        args.insert(pos, b)
        if b in ("project", "project_ref", "UnsafeUnpin()") and False:
            raise Prune
        return prog(", ".join(args), None, kind, "malformed/" + b)
    ps += ctx.explore(bad)

    # anything that is not a documented argument, with everything it might be taken for in place: were it ignored or taken for
    # one of the documented arguments, one of the variants would compile
    def unknown(c):
        kind = c.pick("kind", kinds if th else ["struct", "enum"], free=True)
        b = c.pick("word", [x for x in NEAR + BAD if x not in KEYW or x in BAD], free=True)
        form = c.pick("form", ["$", "$ = A", "!$", "$()", "$(A)", "$ = true"] if th or b in NEAR else ["$"], free=True)
        if form == "!$" and b == "Unpin":
            raise Prune
        rest = c.pick("rest", ["", "project = B"] if form == "$" else [""], free=True)
        extra = c.pick("environment", ["", PD, PU], free=True)
        t = form.replace("$", b)
        return Prog(PRE + f"#[pin_project({rest + ', ' if rest else ''}{t})] " + KINDS[kind] + "\n" + extra, "err", "unknown/" + t)
    ps += ctx.explore(unknown)
    # complete lists (nothing more may be said) with one more argument, at every position
    def full(c):
        kind = c.pick("kind", ["struct", "enum"], free=True)
        s = ["project = A", "project_ref = B", c.pick("o", ["project_replace = C", "PinnedDrop", "project_replace"], free=True), c.pick("u", ["!Unpin", "UnsafeUnpin"], free=True)]
        extra = c.pick("extra", GOOD + BAD, free=True)
        pos = c.pick("pos", range(5), free=True)
        perm = c.pick("order", list(itertools.permutations(s)) if th or pos == 4 and extra in ("PinnedDrop", "project_replace = D", "foo", "!Unpin", "UnsafeUnpin", "project = A", "1") else [tuple(s), tuple(s[::-1])], free=True)
        args = list(perm)
        args.insert(pos, extra)
        assert parse(args) is None
        return prog(", ".join(args), None, kind, "overfull")
    ps += ctx.explore(full)
    # separators
    for kind in ("struct", "enum"):
        for args in [(x,) for x in core_] + list(itertools.permutations(core_, 2)) + ([tuple(x) for x in itertools.permutations(core_, 3)] if th else [("project = A", "project_ref = B", "!Unpin"), ("!Unpin", "PinnedDrop", "project = A")]):
            d = parse(args)
            if d is None:
                continue
            for sep in (", ", " ", ",, ", "; ", " | ", ". ", " => ", " , ", ",", "\n,\n", " + ", ": ", "=", " = , "):
                for lead in ("", ","):
                    for trail in ("", ",", ",,", ";", " .."):
                        good = (sep.strip() == "," or len(args) == 1) and not lead and trail in ("", ",")
                        ps.append(prog(lead + sep.join(args) + trail, d if good else None, kind, "separator"))
            for dl in ("[]", "{}", "()"):
                ps.append(prog(", ".join(args), d, kind, "delimiter", dl))
            ps.append(prog("(" + ", ".join(args) + ")", None, kind, "grouped"))
            ps.append(prog("[" + ", ".join(args) + "]", None, kind, "grouped"))
            ps.append(prog("__private(" + ", ".join(args) + ")", None, kind, "grouped"))
    for kind in kinds:
        ps.append(prog(None, {}, kind, "plain"))
        for dl in ("()", "[]", "{}"):
            ps.append(prog("", {}, kind, "empty", dl))
        for t in (",", ",,", ";", "=", "!", "!,"):
            ps.append(prog(t, None, kind, "only-punct"))
        for dl in ('= "project"', '= PinnedDrop', '= ""'):
            ps.append(Prog(PRE + f"#[pin_project {dl}] " + KINDS[kind], "err", "name-value"))
    # name clashes, with the type's own name spelled in several ways and legal look-alikes
    for nm, arg, ok in (("S", "project = s", True), ("S", "project = S_", True), ("S", "project = SS", True), ("Type", "project = Type", False), ("r#type", "project = r#type", False), ("r#type", "project = Type", True), ("A", "project = A", False), ("A", "project_ref = A", False), ("A", "project_replace = A", False),
                        ("A", "project = B, project_ref = A", False), ("A", "project = B, project_ref = C, project_replace = A", False), ("A", "project = B, project_ref = C, project_replace = D", True), ("A", "project_replace = D, project_ref = D", False), ("A", "project = D, project_replace = D", False),
                        ("A", "project = D, project_ref = D", False), ("A", "project_ref = D, project = D", False), ("A", "project_replace = D, project = D", False), ("A", "project = project", True), ("A", "project = PinnedDrop, PinnedDrop", True), ("A", "project = Unpin, !Unpin", True),
                        ("A", "project = project_ref, project_ref = project", True), ("A", "project_replace = project_replace", True), ("A", "project = project_replace, project_replace", True), ("A", "project = UnsafeUnpin, UnsafeUnpin", True), ("A", "project = r#type", True), ("A", "project_ref = r#fn, project = r#type", True)):
        for k in ("struct $N<T> { #[pin] f: T, g: u8 }", "struct $N<T>(#[pin] T);", "enum $N<T> { V(#[pin] T) }"):
            if k.startswith("enum") and arg.endswith(", project_replace"):
                continue
            pd = f"#[pin_project::pinned_drop] impl<T> PinnedDrop for {nm}<T> {{ fn drop(self: ::core::pin::Pin<&mut Self>) {{}} }}\n" if "PinnedDrop, P" in arg or arg.endswith(", PinnedDrop") else ""
            ps.append(Prog(f"#[pin_project::pin_project({arg})] " + k.replace("$N", nm) + "\n" + pd, "ok" if ok else "err", "names/" + arg))
    ctx.judge(ps, part="lists", chunk=150)
