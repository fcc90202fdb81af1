#!/usr/bin/env python3
"""derive.py DIR SEED COUNT: a random program that uses the derive macros.

Writes DIR/decl.rs, the declarations alone, and DIR/glue.rs, how their values
are made, shown and registered with the harness.  Every declaration is one
that Rust accepts and of which every field has the derived traits.
"""
import itertools, json, os, random, re, sys

REPRS = dict(u8=(0, 8), i8=(1, 8), u16=(0, 16), i16=(1, 16), u32=(0, 32), i32=(1, 32), u64=(0, 64), i64=(1, 64),
             u128=(0, 128), i128=(1, 128), usize=(0, 64), isize=(1, 64))
# Field types by what they derive: s sized, o not.
SIZED = """u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64 bool usize isize () (u8,u16) (i8,u16,bool) [u8;0] [u8;3] [u16;2] [usize;2] (usize,)
::core::num::NonZero<u8> ::core::num::NonZero<i32> ::core::option::Option<u8> ::core::option::Option<usize> ::core::option::Option<::core::option::Option<u16>>
::oct::SizedStr<4> ::oct::SizedStr<0> ::oct::SizedSlice<u16,3> ::oct::SizedSlice<usize,2> ::core::time::Duration ::std::time::SystemTime
::core::net::IpAddr ::core::net::SocketAddrV4 ::core::net::SocketAddr ::core::ops::Bound<u8> ::core::ops::Range<u16> ::core::ops::RangeInclusive<i8> ::core::ops::RangeFull
::core::marker::PhantomData<u64> ::std::boxed::Box<u16> ::std::sync::Arc<u8> ::core::cell::Cell<i16> ::std::sync::Mutex<u8> ::core::num::Wrapping<u32> ::oct::SizedStr<300> ::oct::SizedSlice<u64,40> [u8;256]""".split()
OPEN = """::std::string::String ::std::vec::Vec<u8> ::std::vec::Vec<usize> ::std::vec::Vec<()> ::std::ffi::CString ::std::collections::HashMap<u8,u16>
::std::collections::HashSet<u8> ::core::option::Option<::std::string::String> ::std::vec::Vec<::core::num::NonZero<u8>> ::std::boxed::Box<::std::string::String>""".split()
ENC_SIZED = """char &'static~u16 ::core::result::Result<u8,u16> ::core::ops::Range<char> &'static~[u8;2]""".split()
ENC_OPEN = ["&'static~str"]
NAMES = "a b c x y z value0 value1 value2 stream this discriminant value input output r#type r#match r#fn self_ encode decode error Error T0 N _q".split()
VNAMES = "A B C D E F Ok Err Some None Self_ Error Encode Result V0 V1 r#fn r#Type stream value0 This Item U8 _Z".split()
HOSTILE = """pub struct Result; pub struct Option; pub struct Vec; pub struct String; pub struct Into; pub struct From; pub struct Infallible; pub trait Encode {} pub trait Decode {} pub trait SizedEncode {}
pub mod oct {} pub mod core {} pub mod std {} pub struct Output; pub struct Input; pub struct GenericEncodeError; pub struct EnumDecodeError; pub fn unreachable() {}
#[allow(unused_macros)] macro_rules! unreachable { () => { compile_error!("shadowed") }; }"""


def patterns():
    out = []
    for ds in itertools.product([None, -2, -1, 0, 1, 5], repeat=3):
        vs, prev = [], -1
        for d in ds:
            prev = prev + 1 if d is None else d
            vs.append(prev)
        if len(set(vs)) == 3: out.append(list(zip(ds, vs)))
    return out


class Prog:
    def __init__(self, seed, count, half=None, large=False):
        self.r = random.Random(seed)
        self.decl, self.glue, self.cases = [], [], []
        self.made = []          # (type path, level, weight), usable as fields
        for n in range(count): self.one(n)
        # All ways to give three variants small discriminants, half of them at a time.
        if half is not None:
            for k, p in enumerate(patterns()):
                if k % 2 == half: self.one(count + k, p)
        if half is not None or large:
            # More variants than a byte can tell apart.
            m = self.r.choice([255, 256, 257, 300])
            self.one(count + 1000, [(None, k) for k in range(m)])
            b = self.r.choice([-100, 100, 1000, 0x7FFF - 200])
            self.one(count + 1001, [(b, b)] + [(None, b + k) for k in range(1, 200)])

    def pick_type(self, level):
        """level: 's' sized both ways, 'o' open both ways, 'es', 'eo' encoding only."""
        r = self.r
        pool = list(SIZED)
        if level in ("o", "eo"): pool += OPEN * 3
        if level in ("es", "eo"): pool += ENC_SIZED * 6
        if level == "eo": pool += ENC_OPEN * 6
        ok = dict(s=("s",), o=("s", "o"), es=("s", "es"), eo=("s", "o", "es", "eo"))[level]
        mine = [t for t, l, _ in self.made if l in ok]
        if mine and r.random() < 0.2: return r.choice(mine)
        return r.choice(pool).replace("~", " ")

    def names(self, pool, n):
        xs = self.r.sample(pool, min(n, len(pool)))
        return xs + [f"f{k}" for k in range(n - len(xs))]

    def fields(self, level, most, params):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4, most])
        kind = r.choice(["unit", "tuple", "named"]) if n == 0 else r.choice(["tuple", "named"])
        ts = []
        for _ in range(n):
            if ts and r.random() < 0.25: ts.append(ts[-1])
            elif params and r.random() < 0.5: ts.append(r.choice(params))
            else: ts.append(self.pick_type(level))
        return kind, self.names(NAMES, n) if kind == "named" else [str(k) for k in range(n)], ts

    def declare(self, kind, names, ts, vis, strct):
        r = self.r
        doc = lambda: r.choice(["", "", "", "/// Text.\n", "#[doc = \"x\"] ", "#[allow(unused)] ", "#[cfg(any())] pub gone: u8, " if kind == "named" and strct else "", "#[cfg(all())] "])
        p = "pub " if vis else ""
        trail = "," if ts and r.random() < 0.7 else ""
        if kind == "unit": return ""
        if kind == "tuple": return "(" + ", ".join(doc() + p + t for t in ts) + trail + ")"
        return " { " + ", ".join(doc() + p + f"{n}: {t}" for n, t in zip(names, ts)) + trail + " }"

    def literal(self, d):
        """An integer literal for the discriminant."""
        r = self.r
        a = abs(d)
        s = r.choice([str(a), str(a), hex(a), hex(a).upper().replace("0X", "0x"), oct(a), bin(a), f"{a:_}", f"0x{a:_x}", f"0b_{a:_b}", f"0{a}"])
        s = s.rstrip("_")
        e = ("-" if d < 0 else "") + s
        if r.random() < 0.15: e = f"({e})"
        return e

    def discriminants(self, repr, n, plain):
        """The declared (None: implicit) and the assigned discriminants of n variants."""
        r = self.r
        signed, bits = REPRS["isize" if repr == "none" else repr]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        for _ in range(1000):
            out, used, prev = [], set(), None
            for k in range(n):
                if plain or r.random() < 0.5:
                    d, v = None, 0 if prev is None else prev + 1
                else:
                    w = r.choice([3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128])
                    v = r.choice([0, -1, 1, r.randint(-3, 3), r.randint(-20, 20), r.randint(0, 300), lo, hi, lo + 1, hi - 1, (1 << w) - 1, (1 << w), (1 << w) + 1, -(1 << w), -(1 << w) + 1, r.randint(lo, hi), prev + 2 if prev is not None else 1, prev - 1 if prev is not None else 1])
                    d = v
                if not lo <= v <= hi or v in used: break
                used.add(v)
                prev = v
                out.append((d, v))
            if len(out) < n: continue
            if repr in ("none", "isize", "usize") and n:
                fit = [(-0x8000 <= v <= 0x7FFF) if repr != "usize" else v <= 0xFFFF for _, v in out]
                # Most of them can be encoded.
                if sum(fit) * 2 < n or (r.random() < 0.5 and not all(fit)): continue
            return out
        return [(None, k) for k in range(n)]

    def one(self, n, pattern=None):
        r = self.r
        name = r.choice([f"T{n}"] * 12 + [f"r#T{n}", f"t{n}", f"_T{n}"])
        mod = f"m{n}"
        level = r.choice(["s"] * 6 + ["o"] * 3 + ["es", "eo"])
        strct = r.random() < 0.35 and not pattern
        generic = r.random() < 0.3 and not pattern
        both = level in ("s", "o")
        sized = level in ("s", "es")
        macros = ["Encode"] + (["SizedEncode"] if sized else []) + (["Decode"] if both else [])
        paths = dict(Encode="::oct::encode::Encode", SizedEncode="::oct::encode::SizedEncode", Decode="::oct::decode::Decode")
        EE, DE = "::oct::error::GenericEncodeError", "::oct::error::GenericDecodeError"
        INTO = "::core::convert::Into"
        # Generic parameters: (declaration, where clause, uses, argument)
        ps, wh, uses, args = [], [], [], []
        if generic:
            if not both or r.random() < 0.3:
                ps.append("'a"); args.append("'static")
                if both: uses.append("::std::borrow::Cow<'a, u32>")
                else: uses += ["&'a u32", "&'a [u8; 2]"]
                if r.random() < 0.3: ps.append("'b: 'a"); args.append("'static"); uses.append("::core::marker::PhantomData<&'b u8>")
                uses.append("::core::marker::PhantomData<&'a ()>")
            dflt = False
            for p in r.choice([["T"], ["T"], ["T", "U"], ["r#T"], ["Error"], []]):
                b = [f"{paths['Encode']}<Error: {INTO}<{EE}>>"] + ([paths["SizedEncode"]] if sized else []) + ([f"{paths['Decode']}<Error: {INTO}<{DE}>>"] if both else [])
                style = r.randrange(4)
                dflt = dflt or r.random() < 0.3
                d = r.choice([" = u8", " = ()", " = [u16; 2]"]) if dflt else ""
                if style == 0: ps.append(f"{p}: " + " + ".join(b) + d)
                elif style == 1: ps.append(p + d); wh.append(f"{p}: " + " + ".join(b))
                elif style == 2:
                    ps.append(f"{p}: " + b[0] + d); wh += [f"{p}: {x}" for x in b[1:]]
                else:
                    ps.append(p + d)
                    wh += [f"{p}: " + " + ".join(x.split("<")[0] for x in b), f"<{p} as {paths['Encode']}>::Error: {INTO}<{EE}>"]
                    if both: wh.append(f"<{p} as {paths['Decode']}>::Error: {INTO}<{DE}>")
                uses += [p, p, f"[{p}; 2]", f"::core::option::Option<{p}>"]
                a = self.pick_type("s")
                args.append(a)
            for p in r.choice([["N"], ["N", "M"], ["r#N"], []] if dflt or ps else [["N"]]):
                d = r.choice([" = 3", " = { 1 + 1 }"]) if dflt else ""
                ps.append(f"const {p}: usize{d}")
                args.append(r.choice(["0", "1", "2", "5"]))
                uses += [f"[u8; {p}]", f"::oct::SizedStr<{p}>", f"::oct::SizedSlice<u16, {p}>"]
        subst = [(p.removeprefix("const ").split(":")[0].split("=")[0].strip(), a) for p, a in zip(ps, args)]
        head = "<" + ", ".join(ps) + ">" if ps else ""
        inst = "<" + ", ".join(args) + ">" if ps else ""
        where = " where " + ", ".join(wh) + r.choice(["", ","]) + " " if wh else ""
        inst = inst.replace("super::", "programs::")
        path = f"programs::{mod}::{name}{inst}"

        def concrete(t):
            for p, a in subst: t = word(p).sub(lambda _: a, t)
            return t.replace("super::", "programs::")
        def word(p):
            return re.compile(re.escape(p) + r"\b" if p.startswith("'") else r"(?<![\w:#'])" + re.escape(p) + r"\b(?!::)")
        def unused(ts):
            return [p for p, _ in subst if p.removeprefix("r#") not in ("N", "M") and not any(word(p).search(t) for t in ts)]

        attrs = []
        if strct:
            kind, names, ts = self.fields(level, r.choice([13, 13, 13, 35]), uses)
            # Every parameter has to be used.
            for p in unused(ts):
                if kind == "unit": kind = "named"
                ts.append(f"::core::marker::PhantomData<{'&' + p + ' ()' if p.startswith(chr(39)) else p}>")
                names.append(f"p{len(ts)}" if kind == "named" else str(len(ts) - 1))
            if r.random() < 0.15: attrs.append(r.choice(["#[repr(C)]", "#[repr(align(8))]", "#[repr(C, align(2))]"]))
            body = self.declare(kind, names, ts, True, True)
            text = f"pub struct {name}{head}" + (body + where + ";" if kind != "named" else where + body)
            tys = ", ".join(f"<{concrete(t)} as M>::ty()" for t in ts)
            vals = ", ".join(f"M::val(&self.{x})" for x in names)
            mk = {"unit": "", "tuple": "(" + ", ".join("G::gen(r)" for _ in ts) + ")", "named": " { " + ", ".join(f"{x}: G::gen(r)" for x in names) + " }"}[kind]
            ty, val, gen = f"strct(vec![{tys}])", f"J::A(vec![{vals}])", f"programs::{mod}::{name}{mk}"
        else:
            nv = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 8, 13]) if not generic else r.choice([1, 2, 3])
            repr = r.choice(["none", "none"] + list(REPRS)) if nv else "none"
            data = nv > 0 and (r.random() < 0.6 or generic)
            if pattern:
                nv = len(pattern)
                lowest, highest = min(v for _, v in pattern), max(v for _, v in pattern)
                bound = lambda x: (-(1 << REPRS[x][1] - 1), (1 << REPRS[x][1] - 1) - 1) if REPRS[x][0] else (0, (1 << REPRS[x][1]) - 1)
                repr = r.choice(["none"] + [x for x in REPRS if bound(x)[0] <= lowest and highest <= bound(x)[1]])
                data = nv == 3 and repr != "none" and r.random() < 0.2
            ds = pattern or self.discriminants(repr, nv, repr == "none" and data)
            vn = self.names(VNAMES, nv)
            vs = []
            for k in range(nv):
                kind, names, ts = self.fields(level, 6, uses) if data else (("unit", [], []) if r.random() < 0.9 or repr == "none" else (r.choice(["tuple", "named"]), [], []))
                if k == nv - 1:
                    for p in unused(ts + [t for v in vs for t in v[2]]):
                            if kind == "unit": kind = "tuple"
                            ts.append(f"::core::marker::PhantomData<{'&' + p + ' ()' if p.startswith(chr(39)) else p}>")
                            names.append(f"p{len(ts)}" if kind == "named" else str(len(ts) - 1))
                vs.append((kind, names, ts))
            if repr != "none": attrs.append(f"#[repr({repr})]")
            parts = []
            suffix = "isize" if repr == "none" else repr
            for (kind, names, ts), v, (d, _) in zip(vs, vn, ds):
                e = ""
                if d is not None:
                    e = self.literal(d)
                    if not e.endswith(")") and not ("0x" in e and suffix[0] not in "iu") and r.random() < 0.2: e += r.choice(["", "_"]) + suffix
                    e = " = " + e
                parts.append(r.choice(["", "", "/// Text.\n", "#[allow(unused)] "]) + v + self.declare(kind, names, ts, False, False) + e)
            text = f"pub enum {name}{head}{where} {{ " + ", ".join(parts) + ("," if parts and r.random() < 0.7 else "") + " }"
            tv = ", ".join(f"variant({'None' if d is None else 'Some(' + str(d & (1 << 128) - 1) + 'u128)'}, vec![{', '.join(f'<{concrete(t)} as M>::ty()' for t in ts)}])" for (_, _, ts), (d, _) in zip(vs, ds))
            ty = f"enm({chr(34)}{repr}{chr(34)}, vec![{tv}])"
            arms, mks, bad = [], [], []
            for k, ((kind, names, ts), v, (_, d)) in enumerate(zip(vs, vn, ds)):
                q = f"programs::{mod}::{name}::{v}"
                bind = [f"q{j}" for j in range(len(ts))]
                pat = {"unit": "", "tuple": "(" + ", ".join(bind) + ")", "named": " { " + ", ".join(f"{x}: {b}" for x, b in zip(names, bind)) + " }"}[kind]
                arms.append(f"{q}{pat} => var({k + 1}, vec![{', '.join(f'M::val({b})' for b in bind)}])")
                mk = q + {"unit": "", "tuple": "(" + ", ".join("G::gen(r)" for _ in ts) + ")", "named": " { " + ", ".join(f"{x}: G::gen(r)" for x in names) + " }"}[kind]
                fits = -0x8000 <= d <= 0x7FFF if repr in ("none", "isize") else d <= 0xFFFF if repr == "usize" else True
                (mks if fits else bad).append(mk)
            val = "match self { " + ", ".join(arms) + " }" if nv else "match *self {}"
            gen = ("if r.is_bad() { return match r.below(%d) { %s } }; " % (len(bad), ", ".join(f"{'_' if j == len(bad) - 1 else j} => {m}" for j, m in enumerate(bad))) if bad else "") + \
                  "match r.below(%d) { %s }" % (len(mks), ", ".join(f"{'_' if j == len(mks) - 1 else j} => {m}" for j, m in enumerate(mks)))
            if not nv: gen = None
        # How the macros are named, in one or several attributes, in any order.
        r.shuffle(macros)
        hostile = r.random() < 0.25
        if hostile: pre, style = HOSTILE, 0
        else: pre, style = "", r.randrange(3)
        used = [paths[m] if style == 0 else m for m in macros]
        if style: pre += "".join(f"#[allow(unused_imports)] use {paths[m]}; " for m in macros)
        der = "".join(f"#[derive({m})] " for m in used) if style == 2 else f"#[derive({', '.join(used)})] "
        attrs = [der] + attrs
        # Attributes that are none of the macros' business, in between.
        noise = ["#[doc = \"Text.\"] ", "#[allow(dead_code)] ", "#[must_use] ", "#[non_exhaustive] ", "#[cfg_attr(all(), allow(unused))] ", "#[cfg(all())] ",
                 "#[doc(hidden)] ", "#[derive()] ", "#[allow(clippy::all, non_snake_case)] ", "#[rustfmt::skip] "]
        if not hostile: attrs += r.sample(noise, r.choice([0, 0, 0, 1, 2, 3, 5]))
        r.shuffle(attrs)
        if not ps and r.random() < 0.15:
            # Declared by a macro that is given every discriminant as an expression.
            lits, k = [], 0
            def sub(m):
                lits.append(m.group(1)); return f" = $e{len(lits) - 1}"
            t2 = re.sub(r" = (\(?-?[0-9][0-9a-zA-Z_]*\)?)(?=[,}\s])", sub, text) if not strct else text
            t2 = f"macro_rules! declare {{ ({', '.join(f'$e{j}:expr' for j in range(len(lits)))}) => {{ {' '.join(attrs)} {t2} }}; }} declare! {{ {', '.join(lits)} }}"
            code = t2
        else: code = "\n".join(attrs) + "\n" + text
        self.decl.append(f"pub mod {mod} {{\n{pre}\n{code}\n}}")
        self.glue.append(f"impl M for {path} {{ fn ty() -> J {{ {ty} }} fn val(&self) -> J {{ {val} }} }}")
        if gen: self.glue.append(f"impl G for {path} {{ fn gen(r: &mut R) -> Self {{ {gen} }} }}")
        mode = dict(s="full", o="open", es="sized_enc", eo="enc")[level]
        if not gen: mode = "never" if level == "s" else None
        if mode: self.cases.append((mode, f"programs::{mod}::{name}{inst}"))
        # Declarations are fields of others unless they are big.
        used = ts if strct else [t for v in vs for t in v[2]]
        weight = 1 + sum(max([w for t, _, w in self.made if t in concrete(u).replace("programs::", "super::")], default=0) + 1 for u in used)
        if gen and level != "eo" and weight <= 14: self.made.append((f"super::{mod}::{name}{inst.replace('programs::', 'super::')}", level, weight))
        if gen and both and r.random() < 0.2: self.cases.append(("open", f"Vec<{path}>"))
        if gen and sized and both and r.random() < 0.2: self.cases.append(("full", f"[{path}; 2]"))

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "decl.rs"), "w") as f: f.write("\n".join(self.decl) + "\n")
        with open(os.path.join(d, "glue.rs"), "w") as f:
            f.write("\n".join(self.glue).replace("super::", "programs::"))
            f.write("\npub fn all() -> Vec<Case> {\n\tlet mut v = Vec::new();\n\tcases! { v;\n")
            for m, t in self.cases: f.write(f'\t\t{m} ["derived"] {t.replace("super::", "programs::")};\n')
            f.write("\t}\n\tlet names = [" + ", ".join(json.dumps(t.replace("super::", "programs::").replace("programs::", "")) for _, t in self.cases) + "];\n")
            f.write("\tfor (c, n) in v.iter_mut().zip(names) { c.name = n }\n\tv\n}\n")


if __name__ == "__main__":
    Prog(int(sys.argv[2]), int(sys.argv[3])).write(sys.argv[1])
