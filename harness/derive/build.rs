//! Enumerates type definitions over the supported field kinds and writes them as Rust source, each with its wire
//! format and a constructor that does not use the codec.  The definitions are then compiled with the real derive.
use std::fmt::Write;

#[derive(Clone)]
enum K {
    /// a field of a named type
    T(&'static str),
    /// `[elem; n]`, no length attribute (named fields only)
    Fixed(&'static str, usize),
    /// `[elem; cap]`, counted by the field with this position
    Counted(&'static str, usize, usize),
}
use K::*;

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"];

struct Out {
    src: String,
    names: Vec<String>,
    unions: Vec<String>,
    blobs: Vec<String>,
    wraps: Vec<String>,
}

impl Out {
    fn field_ty(k: &K) -> String {
        match k {
            T(t) => t.to_string(),
            Fixed(e, n) | Counted(e, n, _) => format!("[{e}; {n}]"),
        }
    }
    fn desc(fields: &[K]) -> String {
        let l: Vec<String> = fields
            .iter()
            .map(|k| match k {
                T(t) => format!("<{t} as M>::desc()"),
                Fixed(e, n) => format!("F::Fixed({n}, Box::new(<{e} as M>::desc()))"),
                Counted(e, n, by) => format!("F::Counted {{ cap: {n}, by: {by}, elem: Box::new(<{e} as M>::desc()) }}"),
            })
            .collect();
        format!("F::Seq(vec![{}])", l.join(", "))
    }
    /// Statements binding `f0..`.
    fn make(fields: &[K]) -> String {
        let mut s = String::new();
        for (i, k) in fields.iter().enumerate() {
            match k {
                T(t) => writeln!(s, "let f{i} = <{t} as M>::mk(r)?;"),
                Fixed(e, n) => writeln!(s, "let f{i}: [{e}; {n}] = arr(r, {n})?;"),
                Counted(e, n, by) => writeln!(s, "let f{i}: [{e}; {n}] = arr(r, f{by} as usize)?;"),
            }
            .unwrap();
        }
        s
    }
    fn named(&mut self, fields: &[K], default: Option<&str>) -> String {
        let names: Vec<String> = (0..fields.len()).map(|i| format!("f{i}")).collect();
        self.with_names(fields, &names, default)
    }
    /// Fields with the given names and, on each, attributes of other kinds.
    fn with_names(&mut self, fields: &[K], names: &[String], default: Option<&str>) -> String {
        let name = default.map(String::from).unwrap_or_else(|| format!("S{}", self.names.len()));
        let d = if default.is_some() { "Default, " } else { "" };
        let mut body = String::new();
        for (i, k) in fields.iter().enumerate() {
            if names[0] != "f0" && i % 3 == 1 {
                write!(body, "#[doc = \"a field\"] ").unwrap();
            }
            if let Counted(_, _, by) = k {
                write!(body, "#[marshalable(length = {})] ", names[*by]).unwrap();
            }
            if names[0] != "f0" && i % 3 != 0 {
                write!(body, "#[allow(dead_code)] ").unwrap();
            }
            let vis = if names[0] != "f0" { ["pub", "", "pub(crate)"][i % 3] } else { "pub" };
            write!(body, "{vis} {}: {}, ", names[i], Self::field_ty(k)).unwrap();
        }
        let list: Vec<String> = (0..fields.len()).map(|i| format!("{}: f{i}", names[i])).collect();
        writeln!(
            self.src,
            "#[derive(Clone, Copy, PartialEq, {d}Marshalable)] pub struct {name} {{ {body} }}\nimpl M for {name} {{ fn desc() -> F {{ {} }} fn mk(r: &mut Rd) -> Option<Self> {{ {} Some({name} {{ {} }}) }} }}",
            Self::desc(fields), Self::make(fields), list.join(", ")
        )
        .unwrap();
        self.names.push(name.clone());
        name
    }
    fn tuple(&mut self, fields: &[K]) {
        let name = format!("S{}", self.names.len());
        let tys: Vec<String> = fields.iter().map(|k| format!("pub {}", Self::field_ty(k))).collect();
        let list: Vec<String> = (0..fields.len()).map(|i| format!("f{i}")).collect();
        writeln!(
            self.src,
            "#[derive(Clone, Copy, PartialEq, Marshalable)] pub struct {name}({});\nimpl M for {name} {{ fn desc() -> F {{ {} }} fn mk(r: &mut Rd) -> Option<Self> {{ {} Some({name}({})) }} }}",
            tys.join(", "), Self::desc(fields), Self::make(fields), list.join(", ")
        )
        .unwrap();
        self.names.push(name);
    }
    /// Members with positional fields.
    fn union(&mut self, repr: &str, members: &[(String, Vec<K>)], name: Option<&str>) {
        let name = name.map(String::from).unwrap_or_else(|| format!("U{}", self.unions.len()));
        let (mut body, mut mk, mut desc) = (String::new(), String::new(), String::new());
        for (i, (sel, fields)) in members.iter().enumerate() {
            let tys: Vec<String> = fields.iter().map(Self::field_ty).collect();
            let list: Vec<String> = (0..fields.len()).map(|i| format!("f{i}")).collect();
            write!(body, "V{i}({}) = {sel}, ", tys.join(", ")).unwrap();
            writeln!(mk, "if s == ({sel}) {{ {} return Some({name}::V{i}({})); }}", Self::make(fields), list.join(", ")).unwrap();
            write!(desc, "(({sel}) as {repr} as u64 & mask::<{repr}>(), {}), ", Self::desc(fields)).unwrap();
        }
        writeln!(
            self.src,
            "#[derive(Clone, Copy, PartialEq, Discriminant, Marshalable)] #[repr(C, {repr})] pub enum {name} {{ {body} }}
impl M for {name} {{ fn desc() -> F {{ F::Union {{ w: size_of::<{repr}>(), members: vec![{desc}] }} }}
 fn mk(r: &mut Rd) -> Option<Self> {{ let s = <{repr} as M>::mk(r)?; {mk} None }} }}
impl Sel for {name} {{ fn repr(v: u64) -> {repr} {{ v as {repr} }} }}"
        )
        .unwrap();
        self.names.push(name.clone());
        self.unions.push(name);
    }
    fn blob(&mut self, name: &str, cap: &str) {
        writeln!(
            self.src,
            "#[derive(Clone, Copy, PartialEq, Marshalable)] #[marshalable(tpm2b_simple)] pub struct {name} {{ size: u16, body: [u8; {cap}] }}
impl M for {name} {{ fn desc() -> F {{ F::Sized({cap}) }}
 fn mk(r: &mut Rd) -> Option<Self> {{ let n = u16::mk(r)?; let b = r.take(n as usize)?; let mut x = {name} {{ size: n, body: [0; {cap}] }}; x.body.get_mut(..b.len())?.copy_from_slice(b); Some(x) }} }}"
        )
        .unwrap();
        self.names.push(name.into());
        self.blobs.push(name.into());
    }
    /// A sized buffer around a structure.
    fn wrap(&mut self, inner: &str) {
        let name = format!("W{}", self.wraps.len());
        writeln!(
            self.src,
            "#[derive(Clone, Copy, PartialEq, Marshalable, Tpm2bStruct)] #[marshalable(tpm2b_simple)] pub struct {name} {{ size: u16, body: [u8; size_of::<{inner}>()] }}
impl M for {name} {{ fn desc() -> F {{ F::Sized(size_of::<{inner}>()) }}
 fn mk(r: &mut Rd) -> Option<Self> {{ let n = u16::mk(r)?; let b = r.take(n as usize)?; let mut x = {name} {{ size: n, body: [0; size_of::<{inner}>()] }}; x.body.get_mut(..b.len())?.copy_from_slice(b); Some(x) }} }}"
        )
        .unwrap();
        self.names.push(name.clone());
        self.wraps.push(name);
    }
}

/// All sequences of `n` fields over the kinds; `elems` are the element types of counted arrays, which may be counted
/// by any earlier integer field.
fn sequences(n: usize, kinds: &[K], elems: &[(&'static str, usize)], only_counted: bool, f: &mut dyn FnMut(&[K])) {
    fn go(n: usize, kinds: &[K], elems: &[(&'static str, usize)], only: bool, cur: &mut Vec<K>, f: &mut dyn FnMut(&[K])) {
        if cur.len() == n {
            if !only || cur.iter().any(|k| matches!(k, Counted(..))) {
                f(cur);
            }
            return;
        }
        for k in kinds {
            cur.push(k.clone());
            go(n, kinds, elems, only, cur, f);
            cur.pop();
        }
        for by in 0..cur.len() {
            if matches!(&cur[by], T(t) if INTS.contains(t)) {
                for (e, cap) in elems {
                    cur.push(Counted(e, *cap, by));
                    go(n, kinds, elems, only, cur, f);
                    cur.pop();
                }
            }
        }
    }
    go(n, kinds, elems, only_counted, &mut vec![], f)
}

/// What `Expr` below amounts to.
const EXPR: [K; 7] = [T("u16"), Counted("u8", 3, 0), T("u8"), Counted("u16", 3, 2), T("[u8; 4]"), T("N1"), T("[u8; 5]")];

fn main() {
    println!("cargo::rerun-if-changed=build.rs");
    let mut o = Out { src: String::new(), names: vec![], unions: vec![], blobs: vec![], wraps: vec![] };
    // building blocks
    o.blob("B0", "0");
    o.blob("B1", "1");
    o.blob("B5", "5");
    o.blob("B300", "300");
    o.blob("B65535", "65535");
    o.blob("B65537", "65537");
    o.named(&[T("u8"), T("u16")], Some("N1"));
    o.named(&[T("u16"), Counted("u16", 3, 0), T("u8")], Some("N2"));
    o.named(&[T("N1"), T("B5"), Fixed("N1", 2)], Some("N3"));
    o.union("u16", &[("1".into(), vec![T("u8")]), ("0x8000".into(), vec![T("N1"), T("[u8; 2]")]), ("2".into(), vec![])], Some("X1"));
    o.union("u32", &[("0x0102_0304".into(), vec![T("N2")]), ("u32::MAX".into(), vec![T("X1")])], Some("X2"));
    writeln!(o.src, "impl Default for X1 {{ fn default() -> Self {{ X1::V0(0) }} }}").unwrap();
    writeln!(o.src, "#[derive(Clone, Copy, PartialEq, Marshalable)] pub struct Empty;\nimpl M for Empty {{ fn desc() -> F {{ F::Seq(vec![]) }} fn mk(_: &mut Rd) -> Option<Self> {{ Some(Empty) }} }}").unwrap();
    o.names.push("Empty".into());
    // structures with named fields
    let full = [T("u8"), T("u16"), T("u64"), T("[u8; 3]"), Fixed("u16", 2), T("N1"), T("N2"), T("B5"), T("X1")];
    let elems = [("u8", 3), ("u16", 2), ("N1", 2)];
    for n in 0..=2 {
        sequences(n, &full, &elems, false, &mut |f| {
            o.named(f, None);
        });
    }
    sequences(3, &[T("u8"), T("u32"), Fixed("u16", 2), T("N2"), T("B5"), T("X1")], &[("u16", 2)], false, &mut |f| {
        o.named(f, None);
    });
    sequences(4, &[T("u8"), T("u16"), T("N1")], &[("u16", 2)], true, &mut |f| {
        o.named(f, None);
    });
    sequences(5, &[T("u8")], &[("u8", 2)], true, &mut |f| {
        o.named(f, None);
    });
    // every integer type as a count, every element type, capacities 0 and 1
    for t in INTS {
        o.named(&[T(t), Counted("u8", 4, 0), T("u8")], None);
        o.named(&[T("u8"), T(t), Counted("N1", 1, 1)], None);
    }
    for e in ["u8", "u32", "i64", "N1", "N2", "N3", "B0", "B1", "B5", "X1"] {
        for cap in [0, 1, 3] {
            o.named(&[T("u8"), Counted(e, cap, 0), T("u16")], None);
            o.named(&[Fixed(e, cap), T("u16")], None);
        }
    }
    o.named(&[T("u16"), Counted("u8", 300, 0)], None);
    o.named(&[T("u8"), Counted("u8", 300, 0)], None);
    o.named(&[T("u32"), Counted("u16", 70, 0)], None);
    // names in other orders
    let odd = ["zeta", "size", "count", "r#type", "alpha", "hash", "mode", "kappa", "beta", "omega", "policy", "eta", "delta", "nonce", "gamma"];
    let wide = [T("u16"), Counted("u8", 3, 0), T("N1"), T("u8"), Counted("u16", 2, 3), T("B5"), Fixed("u16", 2), T("u32"), Counted("N1", 2, 3), T("X1"), T("[u8; 3]"), T("i64"), T("N2"), T("u8")];
    for k in 0..odd.len() {
        let names: Vec<String> = (0..wide.len()).map(|i| odd[(i + k) % odd.len()].to_string()).collect();
        if k % 5 == 0 {
            o.with_names(&wide, &names, None);
        }
        o.with_names(&wide[..5], &names[..5], None);
        let mut back = names.clone();
        back.reverse();
        if k % 5 == 2 {
            o.with_names(&wide, &back, None);
        }
        o.with_names(&[T("u8"), Counted("u16", 2, 0), T("u16")], &names[..3], None);
        o.with_names(&[T("u8"), T("u16"), Counted("u16", 2, 0), Counted("u8", 3, 1)], &back[..4], None);
    }
    sequences(3, &[T("u8"), T("u32"), T("B5")], &[("u16", 2)], false, &mut |f| {
        o.with_names(f, &["gamma".into(), "beta".into(), "alpha".into()], None);
    });
    // capacities written as expressions and constants, types written as paths and aliases
    writeln!(o.src, "pub const CAP: usize = 2; pub const CAP32: u32 = 3; pub type Word = u16; pub mod deep {{ pub use super::N1 as Inner; }}").unwrap();
    writeln!(
        o.src,
        "#[derive(Clone, Copy, PartialEq, Marshalable)] pub struct Expr {{ pub n: Word, #[marshalable(length = n)] pub a: [u8; CAP + 1], pub m: core::primitive::u8, #[marshalable(length = m)] pub b: [Word; CAP32 as usize], pub c: [u8; CAP * 2], pub d: deep::Inner, pub e: [u8; CAP + 3] }}
impl M for Expr {{ fn desc() -> F {{ {} }} fn mk(r: &mut Rd) -> Option<Self> {{ {} Some(Expr {{ n: f0, a: f1, m: f2, b: f3, c: f4, d: f5, e: f6 }}) }} }}",
        Out::desc(&EXPR), Out::make(&EXPR)
    )
    .unwrap();
    o.names.push("Expr".into());
    // many fields and members
    let many: Vec<K> = (0..13).map(|i| [T("u8"), T("u16"), T("B5"), T("N1")][i % 4].clone()).collect();
    o.tuple(&many);
    o.named(&many, None);
    o.tuple(&[T("X1"), T("u8"), T("u16"), T("u32"), T("u64"), T("i8"), T("i16"), T("i32"), T("i64"), T("[u8; 3]"), T("N2"), T("B1")]);
    for r in ["u8", "u16", "u32"] {
        let m: Vec<(String, Vec<K>)> = (0..14)
            .map(|i| (format!("{}", (i * 37 + 5) % 101), [vec![], vec![T("u8")], vec![T("u16"), T("u8")], vec![T("B5"), T("N1")], many[..12].to_vec()][i % 5].clone()))
            .collect();
        o.union(r, &m, None);
    }
    // positional fields
    let pos = [T("u8"), T("u16"), T("i32"), T("[u8; 3]"), T("N1"), T("N2"), T("B5"), T("X1"), T("()")];
    for n in 1..=3 {
        sequences(n, if n < 3 { &pos } else { &pos[1..6] }, &[], false, &mut |f| o.tuple(f));
    }
    // unions
    let shapes: [Vec<K>; 7] = [vec![], vec![T("u8")], vec![T("u16"), T("N1")], vec![T("[u8; 3]")], vec![T("B5")], vec![T("N2"), T("u8"), T("u32")], vec![T("()")]];
    for a in &shapes {
        for (r, s) in [("u8", "0"), ("u8", "255"), ("u16", "0x00ff"), ("u32", "0xff00_0000"), ("u64", "0x7fff_ff00"), ("i8", "-1"), ("i16", "-2"), ("i32", "-3"), ("i64", "5")] {
            o.union(r, &[(s.into(), a.clone())], None);
        }
        for b in &shapes {
            o.union("u16", &[("0x0100".into(), a.clone()), ("0x0001".into(), b.clone())], None);
            o.union("u8", &[("7".into(), a.clone()), ("3".into(), b.clone())], None);
            for c in &shapes[..4] {
                o.union("u32", &[("0x0000_0100".into(), a.clone()), ("0x0100_0000".into(), b.clone()), ("1".into(), c.clone())], None);
            }
        }
    }
    // sized buffers around structures
    for t in ["N1", "N2", "N3", "X1", "X2", "B5", "Empty", "u64"] {
        o.wrap(t);
    }
    let mut s = o.src;
    writeln!(s, "pub fn types() -> Vec<Ty> {{ let mut v = vec![];").unwrap();
    for n in &o.names {
        writeln!(s, "v.push(ty::<{n}>(\"{n}\"));").unwrap();
    }
    writeln!(s, "v }}\npub fn unions() -> Vec<Un> {{ let mut v = vec![];").unwrap();
    for n in &o.unions {
        writeln!(s, "v.push(un::<{n}>(\"{n}\"));").unwrap();
    }
    writeln!(s, "v }}\npub fn blobs() -> Vec<Bl> {{ let mut v = vec![];").unwrap();
    for n in &o.blobs {
        writeln!(s, "v.push(bl::<{n}>(\"{n}\"));").unwrap();
    }
    writeln!(s, "v }}\npub fn wraps() -> Vec<Wr> {{ let mut v = vec![];").unwrap();
    for n in &o.wraps {
        writeln!(s, "v.push(wr::<{n}>(\"{n}\"));").unwrap();
    }
    writeln!(s, "v }}").unwrap();
    std::fs::write(format!("{}/defs.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}
