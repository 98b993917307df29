use camcheck::{by_prec, driver::*, gen::*, model::*, obj::*, tree::*};
use ciborium::value::Value as Cb;
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Junk {
    Null,
    Bool(bool),
    Text(u8),
    Num(f64),
    Int(i64),
    EmptyMap,
    EmptyArray,
    Nums(Vec<f64>),
    MapOf(Key, f64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Key {
    Word(String),
    /// the name that stands there (or the first one of the map), spelled differently
    Like(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    RemoveKey(u16, u16),
    DupKey(u16, u16, Option<Junk>, bool),
    RenameKey(u16, u16, Key),
    AddKey(u16, Key, Junk, bool),
    Replace(u16, Junk),
    Pop(u16),
    Push(u16, Junk),
    ToSeq(u16),
    Reverse(u16),
    Wrap(u16),
    Hoist(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ByteMut {
    Truncate(u16),
    Flip(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Duplicate(u16, u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fmt {
    Json,
    Cbor,
    Bincode,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Doc {
    /// a valid document with changes to its tree and then to its bytes
    Valid(Vec<Mut>, Vec<ByteMut>),
    Bytes(Vec<u8>),
    Tokens(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    obj: ObjC,
    fmt: Fmt,
    doc: Doc,
    probe: Probe,
}
struct C19;

const NAMES: [&str; 40] = [
    "x", "", "rquat", "camcenter", "params", "fx", "fy", "cx", "cy", "skew", "sx", "sy", "RQUAT", "camCenter", "Params", "cache",
    "cache_p", "coords", "intrinsics", "extrinsics", "rquat ", "direction", "center", "centre", "rotation", "translation", "quat",
    "q", "c", "k", "cam_center", "camera_center", "position", "pose", "matrix", "focal_length", "data", "bundle_type", "version", "_",
];
fn key() -> BoxedStrategy<Key> {
    let mut w: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
    w.extend(pool().words.iter().cloned());
    prop_oneof![3 => proptest::sample::select(w).prop_map(Key::Word), 1 => any::<u8>().prop_map(Key::Like)].boxed()
}
fn name(k: &Key, old: &str) -> Cb {
    Cb::Text(match k {
        Key::Word(w) => w.clone(),
        Key::Like(j) => {
            let mut c: Vec<char> = old.chars().collect();
            match j % 10 {
                0 => old.to_uppercase(),
                1 => format!("{old}_"),
                2 => format!("_{old}"),
                3 => format!(" {old}"),
                4 => format!("{old} "),
                5 => c.iter().rev().collect(),
                6 => {
                    c.pop();
                    c.into_iter().collect()
                }
                7 => c.into_iter().skip(1).collect(),
                8 => {
                    if let Some(x) = c.first_mut() {
                        *x = x.to_ascii_uppercase();
                    }
                    c.into_iter().collect()
                }
                _ => format!("{old}\0"),
            }
        }
    })
}
fn junk(j: &Junk) -> Cb {
    match j {
        Junk::Null => Cb::Null,
        Junk::Bool(b) => Cb::Bool(*b),
        Junk::Text(k) => Cb::Text(["", "1.0", "NaN", "rquat", "null"][*k as usize % 5].into()),
        Junk::Num(x) => Cb::Float(*x),
        Junk::Int(i) => Cb::Integer((*i).into()),
        Junk::EmptyMap => Cb::Map(vec![]),
        Junk::EmptyArray => Cb::Array(vec![]),
        Junk::Nums(v) => Cb::Array(v.iter().map(|x| Cb::Float(*x)).collect()),
        Junk::MapOf(k, x) => Cb::Map(vec![(name(k, "x"), Cb::Float(*x))]),
    }
}
/// apply `f` to the k-th node for which `want` holds
fn nth(v: &mut Cb, k: u16, want: &dyn Fn(&Cb) -> bool, f: &mut dyn FnMut(&mut Cb)) {
    fn count(v: &Cb, want: &dyn Fn(&Cb) -> bool) -> usize {
        want(v) as usize
            + match v {
                Cb::Map(m) => m.iter().map(|(_, v)| count(v, want)).sum(),
                Cb::Array(a) => a.iter().map(|v| count(v, want)).sum(),
                _ => 0,
            }
    }
    fn go(v: &mut Cb, k: &mut usize, want: &dyn Fn(&Cb) -> bool, f: &mut dyn FnMut(&mut Cb)) -> bool {
        if want(v) {
            if *k == 0 {
                f(v);
                return true;
            }
            *k -= 1;
        }
        match v {
            Cb::Map(m) => m.iter_mut().any(|(_, v)| go(v, k, want, f)),
            Cb::Array(a) => a.iter_mut().any(|v| go(v, k, want, f)),
            _ => false,
        }
    }
    let n = count(v, want);
    if n > 0 {
        go(v, &mut (k as usize % n), want, f);
    }
}
fn apply(v: &mut Cb, m: &Mut) {
    let is_map = |v: &Cb| matches!(v, Cb::Map(m) if !m.is_empty());
    let any_map = |v: &Cb| v.is_map();
    let is_arr = |v: &Cb| v.is_array();
    let any = |_: &Cb| true;
    let map = |v: &mut Cb, f: &mut dyn FnMut(&mut Vec<(Cb, Cb)>)| {
        if let Cb::Map(m) = v {
            f(m)
        }
    };
    match m {
        Mut::RemoveKey(a, b) => nth(v, *a, &is_map, &mut |v| {
            map(v, &mut |m| {
                m.remove(*b as usize % m.len());
            })
        }),
        Mut::DupKey(a, b, j, end) => nth(v, *a, &is_map, &mut |v| {
            map(v, &mut |m| {
                let i = *b as usize % m.len();
                let (k, mut x) = m[i].clone();
                if let Some(j) = j {
                    x = junk(j);
                }
                m.insert(if *end { m.len() } else { i }, (k, x));
            })
        }),
        Mut::RenameKey(a, b, k) => nth(v, *a, &is_map, &mut |v| {
            map(v, &mut |m| {
                let i = *b as usize % m.len();
                m[i].0 = name(k, m[i].0.as_text().unwrap_or(""));
            })
        }),
        Mut::AddKey(a, k, j, end) => nth(v, *a, &any_map, &mut |v| {
            map(v, &mut |m| {
                let i = if *end { m.len() } else { 0 };
                let first = m.first().and_then(|x| x.0.as_text()).unwrap_or("").to_string();
                m.insert(i, (name(k, &first), junk(j)));
            })
        }),
        Mut::Replace(a, j) => nth(v, *a, &any, &mut |v| *v = junk(j)),
        Mut::Pop(a) => nth(v, *a, &is_arr, &mut |v| {
            if let Cb::Array(x) = v {
                x.pop();
            }
        }),
        Mut::Push(a, j) => nth(v, *a, &is_arr, &mut |v| {
            if let Cb::Array(x) = v {
                x.push(junk(j));
            }
        }),
        Mut::ToSeq(a) => nth(v, *a, &any_map, &mut |v| {
            let mut r = vec![];
            map(v, &mut |m| r = m.iter().map(|x| x.1.clone()).collect());
            *v = Cb::Array(r);
        }),
        Mut::Reverse(a) => nth(v, *a, &is_map, &mut |v| map(v, &mut |m| m.reverse())),
        Mut::Wrap(a) => nth(v, *a, &any, &mut |v| *v = Cb::Array(vec![v.clone()])),
        Mut::Hoist(a) => nth(v, *a, &is_map, &mut |v| {
            let mut r = Cb::Null;
            map(v, &mut |m| r = m[0].1.clone());
            *v = r;
        }),
    }
}
fn bytemut(b: &mut Vec<u8>, m: &ByteMut) {
    let at = |i: u16, n: usize| if n == 0 { 0 } else { i as usize % n };
    match m {
        ByteMut::Truncate(i) => {
            let n = at(*i, b.len() + 1);
            b.truncate(n)
        }
        ByteMut::Flip(i, x) => {
            let n = at(*i, b.len());
            if let Some(c) = b.get_mut(n) {
                *c ^= x;
            }
        }
        ByteMut::Insert(i, v) => {
            let n = at(*i, b.len() + 1);
            b.splice(n..n, v.iter().copied());
        }
        ByteMut::Delete(i, k) => {
            let n = at(*i, b.len());
            let e = (n + *k as usize % 9).min(b.len());
            b.drain(n..e);
        }
        ByteMut::Duplicate(i, k) => {
            let n = at(*i, b.len());
            let e = (n + *k as usize % 40).min(b.len());
            let d: Vec<u8> = b[n..e].to_vec();
            b.splice(n..n, d);
        }
    }
}
const TOKENS: [&str; 30] = [
    "{", "}", "[", "]", ",", ":", "\"rquat\"", "\"camcenter\"", "\"params\"", "\"fx\"", "\"fy\"", "\"skew\"", "\"cx\"",
    "\"cy\"", "0.5", "1", "-2e3", "null", "true", "\"sx\"", "\"sy\"", "[0,0,0,1]", "[1,2,3]", " ", "1e400", "-0",
    "{\"rquat\":", "{\"params\":", "\"data\"", "NaN",
];

/// What the format asks of a document.
#[derive(Debug)]
enum Schema {
    /// fields in order; whether unknown fields are an error
    Struct(Vec<(String, Schema)>, bool),
    Tuple(usize),
    Num,
    Unit,
}
fn schema(v: &Cb, deny: &dyn Fn(usize, usize) -> bool, depth: usize, index: usize) -> Schema {
    match v {
        Cb::Map(m) => Schema::Struct(
            m.iter()
                .enumerate()
                .map(|(i, (k, v))| (k.as_text().unwrap_or("?").to_string(), schema(v, deny, depth + 1, i)))
                .collect(),
            deny(depth, index),
        ),
        Cb::Array(a) => Schema::Tuple(a.len()),
        Cb::Null => Schema::Unit,
        _ => Schema::Num,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Accept,
    Reject(&'static str),
    /// the property does not say
    Either,
}
fn join(a: Verdict, b: Verdict) -> Verdict {
    match (a, b) {
        (Verdict::Reject(x), _) | (_, Verdict::Reject(x)) => Verdict::Reject(x),
        (Verdict::Either, _) | (_, Verdict::Either) => Verdict::Either,
        _ => Verdict::Accept,
    }
}
fn judge(v: &Cb, s: &Schema, fmt: Fmt, max: f64, out: &mut Vec<f64>) -> Verdict {
    use Verdict::*;
    match (s, v) {
        (Schema::Num, Cb::Float(f)) => {
            out.push(*f);
            // (serde_json refuses numbers that the type cannot hold)
            if f.abs() < max { Accept } else { Either }
        }
        (Schema::Num, Cb::Integer(i)) => {
            out.push(i128::from(*i) as f64);
            if fmt == Fmt::Json { Accept } else { Either }
        }
        (Schema::Num, _) => Reject("something else instead of a number"),
        (Schema::Unit, Cb::Null) => Accept,
        (Schema::Unit, _) => Either,
        (Schema::Tuple(n), Cb::Array(a)) => {
            let mut r = a.iter().map(|x| judge(x, &Schema::Num, fmt, max, out)).fold(Accept, join);
            if a.len() < *n {
                r = join(r, Reject("array too short"));
            }
            if a.len() > *n {
                r = join(r, if fmt == Fmt::Json { Reject("array too long") } else { Either });
            }
            r
        }
        (Schema::Tuple(_), Cb::Map(_) | Cb::Null | Cb::Bool(_) | Cb::Float(_) | Cb::Integer(_) | Cb::Text(_)) => {
            Reject("something else instead of an array")
        }
        (Schema::Struct(f, _), Cb::Array(a)) => {
            let mut r = if fmt == Fmt::Json { Accept } else { Either };
            for (i, (_, s)) in f.iter().enumerate() {
                match a.get(i) {
                    Some(x) => r = join(r, judge(x, s, fmt, max, out)),
                    None => r = join(r, if matches!(s, Schema::Unit) { Either } else { Reject("sequence too short") }),
                }
            }
            if a.len() > f.len() {
                r = join(r, if fmt == Fmt::Json { Reject("sequence too long") } else { Either });
            }
            r
        }
        (Schema::Struct(f, deny), Cb::Map(m)) => {
            let mut r = Accept;
            for (name, s) in f {
                let hits: Vec<&Cb> = m.iter().filter(|(k, _)| k.as_text() == Some(name)).map(|x| &x.1).collect();
                match hits.len() {
                    0 => r = join(r, if matches!(s, Schema::Unit) { Either } else { Reject("missing field") }),
                    1 => r = join(r, judge(hits[0], s, fmt, max, out)),
                    _ => r = join(r, Reject("repeated field")),
                }
            }
            if m.iter().any(|(k, _)| !f.iter().any(|(n, _)| k.as_text() == Some(n))) {
                r = join(r, if *deny { Reject("unknown field") } else { Either });
            }
            r
        }
        (Schema::Struct(..), _) => Reject("something else instead of a struct"),
        (_, _) => Either,
    }
}

/// collects what is needed from the pristine value
struct Pristine<'a> {
    c: &'a Case,
    o: &'a mut Obs,
}
impl<'a, R: Real> Visit<R> for Pristine<'a> {
    type Out = Res;
    fn visit<T: Subject>(&mut self, x: T) -> Res {
        let tree = Cb::serialized(&x).map_err(|e| e.to_string())?;
        let obj = &self.c.obj;
        // the hand-written formats: poses and perspective intrinsics
        let deny = |depth: usize, index: usize| match obj {
            ObjC::Persp(_) | ObjC::Ext(_) => depth == 0,
            ObjC::CamP(..) => depth == 1,
            ObjC::CamO(..) => depth == 1 && index == 1,
            _ => false,
        };
        let sch = schema(&tree, &deny, 0, 0);
        let fmt = self.c.fmt;
        let max = if std::mem::size_of::<R>() == 4 { f32::MAX as f64 } else { f64::INFINITY };
        let mut t = tree.clone();
        let mut verdict = Verdict::Either;
        let mut want = vec![];
        let bytes = match &self.c.doc {
            Doc::Bytes(b) => b.clone(),
            Doc::Tokens(k) => {
                k.iter().map(|i| TOKENS[*i as usize % TOKENS.len()]).collect::<Vec<_>>().concat().into_bytes()
            }
            Doc::Valid(muts, bm) => {
                let mut b = vec![];
                if fmt == Fmt::Bincode {
                    b = bincode::serialize(&x).map_err(|e| e.to_string())?;
                } else {
                    for m in muts {
                        apply(&mut t, m);
                    }
                    if fmt == Fmt::Json {
                        let mut s = String::new();
                        json(&t, &mut s);
                        b = s.into_bytes();
                    } else {
                        ciborium::into_writer(&t, &mut b).map_err(|e| e.to_string())?;
                    }
                    if bm.is_empty() {
                        verdict = judge(&t, &sch, fmt, max, &mut want);
                    }
                }
                for m in bm {
                    bytemut(&mut b, m);
                }
                b
            }
        };
        if fmt == Fmt::Json && verdict == Verdict::Either {
            // any JSON text can be judged
            if let Ok(t) = serde_json::from_slice::<Cb>(&bytes) {
                want.clear();
                verdict = judge(&t, &sch, fmt, max, &mut want);
            }
        }
        if fmt == Fmt::Bincode {
            let n = bincode::serialized_size(&x).map_err(|e| e.to_string())? as usize;
            if bytes.len() < n {
                verdict = Verdict::Reject("truncated");
            } else {
                verdict = Verdict::Accept;
                let w = std::mem::size_of::<R>();
                want = bytes[..n]
                    .chunks(w)
                    .map(|c| {
                        let mut b = [0u8; 8];
                        b[..w].copy_from_slice(c);
                        R::from_bits64(u64::from_le_bytes(b)).f()
                    })
                    .collect();
            }
        }
        let got: Result<T, String> = match fmt {
            Fmt::Json => serde_json::from_slice(&bytes).map_err(|e| e.to_string()),
            Fmt::Cbor => ciborium::from_reader(&bytes[..]).map_err(|e| e.to_string()),
            Fmt::Bincode => bincode::deserialize(&bytes).map_err(|e| e.to_string()),
        };
        let show = || match fmt {
            Fmt::Json => String::from_utf8_lossy(&bytes).into_owned(),
            _ => format!("{bytes:02x?} ({t:?})"),
        };
        self.o.compared += 1;
        match (&got, verdict) {
            (Ok(y), Verdict::Reject(why)) => {
                return Err(format!("{fmt:?} document accepted in spite of: {why}; {} became {y:?}", show()))
            }
            (Err(e), Verdict::Accept) => return Err(format!("well-formed {fmt:?} document rejected: {e}; {}", show())),
            _ => {}
        }
        match verdict {
            Verdict::Reject(w) => {
                self.o.label(w);
                self.o.nontrivial = true;
            }
            Verdict::Accept => {
                self.o.label("well-formed");
                self.o.nontrivial = true;
            }
            Verdict::Either => self.o.label("not judged (no panic, usable if accepted)"),
        }
        if let Ok(y) = got {
            // usable: behaves like the value built from its parameters
            let mut stored = vec![];
            leaves(&Cb::serialized(&y).map_err(|e| e.to_string())?, &mut stored);
            if verdict == Verdict::Accept {
                let same = stored.len() == want.len()
                    && stored.iter().zip(&want).all(|(a, b)| {
                        let r = R::of(*b).f();
                        // (a decimal close to the middle of two f32 may be rounded to either)
                        let tie = || fmt == Fmt::Json && (a + r) / 2.0 == *b && (a - r).abs() <= R::EPS * 2.0 * a.abs();
                        a.to_bits() == r.to_bits() || (a.is_nan() && r.is_nan()) || tie()
                    });
                ensure(same, || format!("{fmt:?} {} gave {y:?} with parameters {stored:?} instead of {want:?}", show()))?;
            }
            let rows_fit = !matches!(obj, ObjC::Rays { .. } | ObjC::BType { .. });
            if rows_fit {
                let mut b = Built { probe: &self.c.probe, y: &y, out: None };
                with_params::<R, _>(obj, &stored, &mut b);
                if let Some(d) = b.out {
                    return Err(format!("{fmt:?} {} gave {y:?}, which does not behave like its parameters: {d}", show()));
                }
            } else {
                let _ = y.sig(&self.c.probe);
            }
        }
        Ok(())
    }
}
struct Built<'a, Y> {
    probe: &'a Probe,
    y: &'a Y,
    out: Option<String>,
}
impl<'a, R: Real, Y: Subject> Visit<R> for Built<'a, Y> {
    type Out = ();
    fn visit<T: Subject>(&mut self, x: T) {
        self.out = x.sig(self.probe).diff(&self.y.sig(self.probe));
    }
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    o.label(kind_of(&c.obj));
    o.label(R::NAME);
    o.label(match c.fmt {
        Fmt::Json => "JSON",
        Fmt::Cbor => "CBOR",
        Fmt::Bincode => "bincode",
    });
    with_obj::<R, _>(&c.obj, &mut Pristine { c, o })
}
impl Prop for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "valid documents of random values, with zero to three structural mutations and zero to three byte mutations, arbitrary bytes, and token sequences, in JSON, CBOR and bincode; non-trivial: the grammar decides whether the document must be accepted or rejected";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let j = || {
            prop_oneof![
                Just(Junk::Null),
                any::<bool>().prop_map(Junk::Bool),
                any::<u8>().prop_map(Junk::Text),
                num().prop_map(Junk::Num),
                any::<i64>().prop_map(Junk::Int),
                (-3i64..4).prop_map(Junk::Int),
                Just(Junk::EmptyMap),
                Just(Junk::EmptyArray),
                proptest::collection::vec(num(), 0..6).prop_map(Junk::Nums),
                (key(), num()).prop_map(|(a, b)| Junk::MapOf(a, b)),
            ]
        };
        let s = 0u16..64;
        let m = prop_oneof![
            (s.clone(), s.clone()).prop_map(|(a, b)| Mut::RemoveKey(a, b)),
            (s.clone(), s.clone(), proptest::option::of(j()), any::<bool>()).prop_map(|(a, b, j, e)| Mut::DupKey(a, b, j, e)),
            (s.clone(), s.clone(), key()).prop_map(|(a, b, k)| Mut::RenameKey(a, b, k)),
            (s.clone(), key(), j(), any::<bool>()).prop_map(|(a, k, j, e)| Mut::AddKey(a, k, j, e)),
            (s.clone(), j()).prop_map(|(a, j)| Mut::Replace(a, j)),
            s.clone().prop_map(Mut::Pop),
            (s.clone(), j()).prop_map(|(a, j)| Mut::Push(a, j)),
            s.clone().prop_map(Mut::ToSeq),
            s.clone().prop_map(Mut::Reverse),
            s.clone().prop_map(Mut::Wrap),
            s.prop_map(Mut::Hoist),
        ];
        let bm = prop_oneof![
            any::<u16>().prop_map(ByteMut::Truncate),
            (any::<u16>(), any::<u8>()).prop_map(|(a, b)| ByteMut::Flip(a, b)),
            (any::<u16>(), proptest::collection::vec(any::<u8>(), 0..5)).prop_map(|(a, b)| ByteMut::Insert(a, b)),
            (any::<u16>(), any::<u8>()).prop_map(|(a, b)| ByteMut::Delete(a, b)),
            (any::<u16>(), any::<u8>()).prop_map(|(a, b)| ByteMut::Duplicate(a, b)),
        ];
        let bms = prop_oneof![3 => Just(vec![]), 2 => proptest::collection::vec(bm, 1..4)];
        let doc = prop_oneof![
            12 => (proptest::collection::vec(m, 0..4), bms).prop_map(|(a, b)| Doc::Valid(a, b)),
            1 => proptest::collection::vec(any::<u8>(), 0..120).prop_map(Doc::Bytes),
            1 => proptest::collection::vec(any::<u8>(), 0..24).prop_map(Doc::Tokens),
        ];
        let o = obj().prop_map(|o| match o {
            ObjC::Rays { origin, world, shared, mut rows, .. } => {
                // (the storage of dynamically sized bundles belongs to nalgebra)
                while !matches!(rows.len(), 1 | 2 | 3 | 5) {
                    rows.push(shared);
                    if rows.len() > 5 {
                        rows.truncate(5)
                    }
                }
                ObjC::Rays { origin, world, dynamic: false, shared, rows }
            }
            o => o,
        });
        let f = prop_oneof![4 => Just(Fmt::Json), 2 => Just(Fmt::Cbor), 1 => Just(Fmt::Bincode)];
        (prec(), o, f, doc, probe())
            .prop_map(|(prec, obj, fmt, doc, probe)| Case { prec, obj, fmt, doc, probe })
            .boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C19>()
}
