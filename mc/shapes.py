"""Items (annotated structs and enums), their source text, and their explorer adapter."""
from dataclasses import dataclass, field, replace as dc_replace
from typing import List, Optional


@dataclass
class F:
    ty: str                      # type as written
    pin: bool = False
    name: Optional[str] = None   # None in tuple style
    vis: str = ""
    pre: str = ""                # attributes before #[pin]
    post: str = ""               # attributes between #[pin] and the field
    cty: Optional[str] = None    # concrete type under the chosen instantiation
    pinattr: str = "#[pin]"

    def decl(self):
        a = " ".join(x for x in (self.pre, self.pinattr if self.pin else "", self.post) if x)
        n = f"{self.name}: " if self.name is not None else ""
        return f"{a + ' ' if a else ''}{self.vis + ' ' if self.vis else ''}{n}{self.ty}"

    @property
    def ct(self):
        return self.cty or self.ty


@dataclass
class V:
    name: str
    style: str                   # unit | tuple | named
    fields: List[F] = field(default_factory=list)
    attrs: str = ""


@dataclass
class Item:
    kind: str                    # struct | enum
    variants: List[V]
    name: str = "S"
    gdecl: str = ""              # "<'a, T: Tr>"
    guse: str = ""               # instantiation "<'static, D>"
    where: str = ""
    vis: str = ""
    attrs: str = ""              # before #[pin_project]
    attrs2: str = ""             # after #[pin_project]
    pinned_drop: bool = False
    unpin: str = ""              # "", "!Unpin", "UnsafeUnpin"
    project: Optional[str] = None
    project_ref: Optional[str] = None
    replace: Optional[str] = None  # None, "" (unnamed) or a name
    argorder: Optional[list] = None
    trailing: bool = False
    prelude: str = ""            # declarations in scope of the item

    def args(self):
        a = []
        if self.project:
            a.append(f"project = {self.project}")
        if self.project_ref:
            a.append(f"project_ref = {self.project_ref}")
        if self.replace is not None:
            a.append("project_replace" + (f" = {self.replace}" if self.replace else ""))
        if self.pinned_drop:
            a.append("PinnedDrop")
        if self.unpin:
            a.append(self.unpin)
        if self.argorder:
            a = [a[i] for i in self.argorder if i < len(a)] + [x for i, x in enumerate(a) if i not in self.argorder]
        s = ", ".join(a)
        if self.trailing and s:
            s += ","
        return f"({s})" if s else ""

    def decl(self, attr=None):
        attr = attr if attr is not None else f"#[pin_project::pin_project{self.args()}]"
        head = "".join(x + "\n" for x in (self.attrs, attr, self.attrs2) if x)
        vis = self.vis + " " if self.vis else ""
        w = f" {self.where}" if self.where else ""
        if self.kind == "struct":
            v = self.variants[0]
            if v.style == "named":
                body = w + " {\n" + "".join(f"    {f.decl()},\n" for f in v.fields) + "}"
            elif v.style == "tuple":
                body = "(" + ", ".join(f.decl() for f in v.fields) + ")" + w + ";"
            else:
                body = w + ";"
            return f"{head}{vis}struct {self.name}{self.gdecl}{body}\n"
        out = f"{head}{vis}enum {self.name}{self.gdecl}{w} {{\n"
        for v in self.variants:
            a = v.attrs + " " if v.attrs else ""
            if v.style == "named":
                out += f"    {a}{v.name} {{ " + ", ".join(f.decl() for f in v.fields) + " },\n"
            elif v.style == "tuple":
                out += f"    {a}{v.name}(" + ", ".join(f.decl() for f in v.fields) + "),\n"
            else:
                out += f"    {a}{v.name},\n"
        return out + "}\n"

    # -------- explorer adapter
    def can_proj(self):
        return self.kind == "struct" or bool(self.project)

    def can_ref(self):
        return self.kind == "struct" or bool(self.project_ref)

    def can_replace(self):
        return self.replace is not None

    def pat(self, path, v, skip=None):
        bs = [f"b{i}" for i in range(len(v.fields))]
        p = path if self.kind == "struct" else f"{path}::{v.name}"
        if v.style == "named":
            return p + " { " + ", ".join(f"{f.name}: {b}" for f, b in zip(v.fields, bs)) + " }"
        if v.style == "tuple":
            return p + "(" + ", ".join(bs) + ")"
        return p

    def _arms(self, path, src, per_field, head):
        """match/let on a projection; head(variant index) -> leading expression text"""
        out = f"match {src} {{\n"
        for k, v in enumerate(self.variants):
            xs = ", ".join(per_field(f, f"b{i}") for i, f in enumerate(v.fields))
            out += f"        {self.pat(path, v)} => {head(k, xs)},\n"
        return out + "    }"

    def _access(self, path, src, per_field, head, stmt=""):
        if self.kind == "enum" or path:
            return self._arms(path, src, per_field, head)
        # unnamed projection type: go through its fields
        v = self.variants[0]
        names = [f.name if f.name is not None else str(i) for i, f in enumerate(v.fields)]
        xs = ", ".join(per_field(f, f"__x.{n}") for f, n in zip(v.fields, names))
        return f"{{ let {stmt}__x = {src}; {head(0, xs)} }}"

    def subject(self):
        meta = ", ".join("&[" + ", ".join("true" if f.pin else "false" for f in v.fields) + "]" for v in self.variants)
        ty = f"{self.name}{self.guse}"
        o = f"impl mcrt::Subject for {ty} {{\n"
        o += f"const META: &'static [&'static [bool]] = &[{meta}];\n"
        o += f"const PINNED_DROP: bool = {str(self.pinned_drop).lower()};\n"
        o += f"const CAN_PROJ: bool = {str(self.can_proj()).lower()};\n"
        o += f"const CAN_REF: bool = {str(self.can_ref()).lower()};\n"
        o += f"const CAN_REPLACE: bool = {str(self.can_replace()).lower()};\n"
        # make
        o += "fn make(v: usize) -> (Self, ::std::vec::Vec<u32>) { match v {\n"
        for k, v in enumerate(self.variants):
            p = self.name if self.kind == "struct" else f"{self.name}::{v.name}"
            n = len(v.fields)
            ids = "".join(f"let i{i} = mcrt::fresh(); " for i in range(n))
            if v.style == "named":
                e = p + " { " + ", ".join(f"{f.name}: <{f.ct} as mcrt::Fld>::mk(i{i})" for i, f in enumerate(v.fields)) + " }"
            elif v.style == "tuple":
                e = p + "(" + ", ".join(f"<{f.ct} as mcrt::Fld>::mk(i{i})" for i, f in enumerate(v.fields)) + ")"
            else:
                e = p
            o += f"  {k} => {{ {ids} ({e}, ::std::vec![" + ", ".join(f"i{i}" for i in range(n)) + "]) }\n"
        o += "  _ => ::std::unreachable!() } }\n"
        view = lambda k, xs: f"mcrt::View {{ variant: {k}, fields: ::std::vec![{xs}] }}"
        o += "fn raw(&self) -> mcrt::View {\n    " + self._arms(self.name, "self", lambda f, b: f"mcrt::see::<{f.ct}>({b})", view) + "\n}\n"
        PinM = "::core::pin::Pin<&mut Self>"
        PinR = "::core::pin::Pin<&Self>"
        if self.can_proj():
            o += f"fn proj(self: {PinM}) -> ::core::option::Option<mcrt::View> {{ ::core::option::Option::Some(\n    " + self._access(
                self.project, "self.project()",
                lambda f, b: f"mcrt::{'pm' if f.pin else 'um'}::<{f.ct}, _>(&{b})", view) + "\n) }\n"
            o += f"fn write(self: {PinM}, i: usize, id: u32) -> bool {{\n"
            if self.kind == "enum" or self.project:
                o += "    match self.project() {\n"
                for v in self.variants:
                    p = self.pat(self.project, v).replace(" b", " mut b").replace("(b", "(mut b")
                    arms = " ".join(f"{i} => mcrt::{'set_pm' if f.pin else 'set_um'}::<{f.ct}, _>(&mut b{i}, id)," for i, f in enumerate(v.fields))
                    o += f"        {p} => match i {{ {arms} _ => ::std::unreachable!() }},\n"
                o += "    }\n"
            else:
                v = self.variants[0]
                names = [f.name if f.name is not None else str(i) for i, f in enumerate(v.fields)]
                arms = " ".join(f"{i} => mcrt::{'set_pm' if f.pin else 'set_um'}::<{f.ct}, _>(&mut __x.{names[i]}, id)," for i, f in enumerate(v.fields))
                o += f"    let mut __x = self.project(); match i {{ {arms} _ => ::std::unreachable!() }}\n"
            o += "    true\n}\n"
        if self.can_ref():
            o += f"fn proj_ref(self: {PinR}) -> ::core::option::Option<mcrt::View> {{ ::core::option::Option::Some(\n    " + self._access(
                self.project_ref, "self.project_ref()",
                lambda f, b: f"mcrt::{'pr' if f.pin else 'ur'}::<{f.ct}, _>(&{b})", view) + "\n) }\n"
        if self.can_replace():
            o += f"fn replace(self: {PinM}, new: Self) -> ::core::result::Result<mcrt::Owned, Self> {{ ::core::result::Result::Ok(\n    " + self._access(
                self.replace, "self.project_replace(new)",
                lambda f, b: f"mcrt::{'own_p' if f.pin else 'own_u'}::<{f.ct}, _>({b})",
                lambda k, xs: f"({k}, ::std::vec![{xs}])") + "\n) }\n"
        o += "}\n"
        if self.pinned_drop:
            o += self.pd_impl()
        if self.unpin == "UnsafeUnpin":
            pass
        return o

    def pd_impl(self):
        # the destructor of a generic type must be generic; the log call goes through a plain function
        return (f"#[pin_project::pinned_drop]\nimpl PinnedDrop for {self.name}{self.guse} {{\n"
                f"    fn drop(self: ::core::pin::Pin<&mut Self>) {{ let a = &*self as *const _ as *const u8 as usize; "
                f"mcrt::pdrop(a, mcrt::Subject::raw(&*self)); }}\n}}\n")

    def module(self):
        go = f"pub fn go(n: &str, d: usize) {{ mcrt::explore::<{self.name}{self.guse}>(n, d, true) }}\npub fn lean(n: &str, d: usize) {{ mcrt::explore_lean::<{self.name}{self.guse}>(n, d, true) }}\n"
        if self.prelude:
            # everything outside of the item is spelled with full paths
            import re
            full = re.sub(r"(?<![:\w])(usize|u32|u8|bool|str)\b", r"::core::primitive::\1", self.subject() + go)
            return self.prelude + "\n" + self.decl() + full
        return "use mcrt::{self, A32, D, Odd, U, Wr};\n" + self.decl() + self.subject() + go


# ---- spellings: well-known type names that mean something else here.  The macro sees only the spelling.
WELL_KNOWN = ["Box", "Pin", "Vec", "Option", "Result", "Rc", "Arc", "Cell", "RefCell", "UnsafeCell", "ManuallyDrop", "MaybeUninit", "PhantomData", "PhantomPinned", "String", "Future", "NonNull", "Weak", "Mutex", "Waker",
              "u8", "u32", "usize", "i64", "bool", "char", "str", "f64", "T", "Copy", "Unpin", "UnsafeUnpin", "Drop", "PinnedDrop", "Sized", "Wrapper", "AlwaysUnpin", "Guard", "r#type", "r#dyn", "r#fn", "_T", "__T", "Projection"]
# form -> (declarations that make the spelling mean $D, spelling)
SPELL = [("use $D as $N;", "$N"), ("pub type $N<X> = X;", "$N<$D>"), ("pub mod m { pub use $D as $N; }", "m::$N"), ("pub mod m { pub type $N<X> = X; }", "self::m::$N<$D>"), ("pub mod core { pub mod pin { pub use $D as $N; } }", "core::pin::$N"),
         ("pub trait Fst { type O; } impl<'a, X> Fst for (&'a (), X) { type O = X; } pub type $N<'a, X> = <(&'a (), X) as Fst>::O;", "$N<'static, $D>"), ("pub trait Fst { type O; } impl<X, Y> Fst for (X, Y) { type O = X; } pub type $N<X, Y> = <(X, Y) as Fst>::O;", "$N<$D, ()>")]
# forms without a name
SPELL0 = [("", "($D)"), ("", "(($D))"), ("macro_rules! ty { ($($t:tt)*) => { $($t)* } }", "ty!($D)"), ("macro_rules! PhantomData { () => { $D } }", "PhantomData!()"), ("pub trait Id { type Out; } impl<X> Id for X { type Out = X; }", "<$D as Id>::Out"),
          ("pub trait Id { type Pin; } impl Id for u8 { type Pin = $D; }", "<u8 as Id>::Pin"), ("pub trait Id { type Box<'a>; } impl Id for u8 { type Box<'a> = $D; }", "<u8 as Id>::Box<'static>"), ("pub type Ar<const N: usize> = $D;", "Ar<{ 1 + 2 }>"), ("pub type Fp<F> = <F as Fo>::O; pub trait Fo { type O; } impl Fo for fn() -> $D { type O = $D; }", "Fp<fn() -> $D>")]


def spellings(target, names=None):
    """(declarations, spelling) with the meaning `target`"""
    out = []
    for n in names or WELL_KNOWN:
        for d, s in SPELL:
            if "core::pin" in s and n.startswith("r#"):
                continue
            out.append((d.replace("$N", n).replace("$D", target), s.replace("$N", n).replace("$D", target)))
    return out + [(d.replace("$D", target), s.replace("$D", target)) for d, s in SPELL0]


def spelled_items(ctx, **kw):
    """items whose field types are all spellings of a tracked type, pinned and not"""
    out = []
    for i, (d, s) in enumerate(spellings("::mcrt::D")):
        for form in ("named", "tuple", "enum"):
            for p in (1, 0):
                for only in (0, 1) if ctx.thorough or i % 7 == 0 else (0,):
                    nm = (lambda k: f"f{k}") if form == "named" else (lambda k: None)
                    fs = [F(s, bool(p), nm(0), cty="::mcrt::D")] + ([] if only else [F("::mcrt::D", not p, nm(1))])
                    a = dict(kw)
                    if form == "enum":
                        vs = [V("A", "tuple", fs), V("B", "unit"), V("C", "named", [F("::mcrt::D", bool(p), "x"), F(s, not p, "y", cty="::mcrt::D")])]
                        a.update(project="SProj", project_ref="SRef")
                        if "replace" in a:
                            a["replace"] = "SOwn"
                        out.append(Item("enum", vs, prelude=d or " ", **a))
                    else:
                        out.append(Item("struct", [V("", form, fs)], prelude=d or " ", **a))
    return out


def named(fields):
    return V("", "named", fields)


def tuple_(fields):
    return V("", "tuple", fields)


def fnames(n, base="f"):
    return [f"{base}{i}" for i in range(n)]
