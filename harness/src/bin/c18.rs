use camcheck::{by_prec, driver::*, gen::*, model::*, obj::*, tree::*};
use ciborium::value::Value as Cb;
use proptest::prelude::*;
use serde::de::DeserializeOwned;

/// one serialise-deserialise step
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fmt {
    Json,
    JsonPretty,
    JsonReader,
    JsonValue,
    /// object fields permuted at every level
    JsonShuffled(u64),
    /// structs as sequences of their fields
    JsonSeq,
    Bincode,
    BincodeBig,
    Cbor,
    CborShuffled(u64),
    /// RON, with the names of structs
    Ron,
    /// TOML (which has no unit and so no ray bundles: they take JSON instead)
    Toml,
    /// inside a value of the user's own types, in JSON, JSON value, CBOR, RON
    Inside(Place, u8),
    /// a deserializer that names fields by text or bytes and hands them out backwards
    Walk(Keys, bool),
    /// JSON whose keys are written with escapes
    JsonEscaped,
}
/// where in the user's own type the value stands
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Place {
    Flat,
    Untagged,
    Tagged,
    Adjacent,
    Many(u8),
    Maybe,
    Keyed,
    Between,
}
#[derive(Serialize, Deserialize)]
#[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
struct Flat<T> {
    kind: String,
    #[serde(flatten)]
    inner: T,
    zz: i8,
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
#[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
#[allow(dead_code)]
enum Untagged<T> {
    No(bool),
    Text(String),
    Yes(T),
    Numbers(Vec<i8>),
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "kind")]
#[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
#[allow(dead_code)]
enum Tagged<T> {
    None,
    It(T),
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "kind", content = "it")]
#[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
#[allow(dead_code)]
enum Adjacent<T> {
    None,
    It(T),
}
#[derive(Serialize, Deserialize)]
#[serde(bound(serialize = "T: Serialize", deserialize = "T: DeserializeOwned"))]
struct Between<T> {
    name: String,
    a: T,
    n: u16,
    b: Box<T>,
    end: Option<f64>,
}
fn thru<T: Serialize + DeserializeOwned>(x: &T, how: u8) -> Result<T, String> {
    match how % 5 {
        0 => serde_json::from_str(&serde_json::to_string(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        1 => serde_json::from_value(serde_json::to_value(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        2 => cb(x)?.deserialized().map_err(|e| e.to_string()),
        3 => {
            let mut b = vec![];
            ciborium::into_writer(x, &mut b).map_err(|e| e.to_string())?;
            ciborium::from_reader(&b[..]).map_err(|e| e.to_string())
        }
        _ => ron::from_str(&ron::to_string(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
    }
}
fn bincoded<T: Serialize + DeserializeOwned>(x: &T, how: u8) -> Result<T, String> {
    if how % 6 == 5 {
        bincode::deserialize(&bincode::serialize(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    } else {
        thru(x, how)
    }
}
fn inside<T: Subject>(x: &T, p: Place, how: u8) -> Result<T, String> {
    let x = x.clone();
    let other = || Err("another variant was read".to_string());
    // (RON's structs are not maps, so they cannot be flattened or told by their fields)
    // (serde's buffer turns CBOR's null into an option, which is no unit: bundles go through JSON there)
    let tree = if units(&cb(&x)?) { how % 2 } else { how % 4 };
    match p {
        Place::Flat => {
            let y = thru(&Flat { kind: "a".into(), inner: x, zz: -3 }, tree)?;
            ensure(y.kind == "a" && y.zz == -3, || "fields around it changed".into())?;
            Ok(y.inner)
        }
        Place::Untagged => match thru(&Untagged::Yes(x), tree)? {
            Untagged::Yes(y) => Ok(y),
            _ => other(),
        },
        Place::Tagged => match thru(&Tagged::It(x), tree)? {
            Tagged::It(y) => Ok(y),
            _ => other(),
        },
        Place::Adjacent => match thru(&Adjacent::It(x), tree)? {
            Adjacent::It(y) => Ok(y),
            _ => other(),
        },
        Place::Many(n) => {
            let n = 1 + n as usize % 4;
            let mut v = bincoded(&vec![x; n], how)?;
            ensure(v.len() == n, || "number of elements changed".into())?;
            let y = v.swap_remove(0);
            ensure(v.iter().all(|z| bincode::serialize(z).ok() == bincode::serialize(&y).ok()), || {
                format!("equal elements differ: {v:?} {y:?}")
            })?;
            Ok(y)
        }
        Place::Maybe => bincoded(&Some(x), how)?.ok_or("None was read".into()),
        Place::Keyed => {
            let mut m = std::collections::BTreeMap::new();
            m.insert("left".to_string(), x.clone());
            m.insert("right".to_string(), x);
            let mut m = bincoded(&m, how)?;
            m.remove("left").ok_or("no such key".into())
        }
        Place::Between => {
            let y = bincoded(&Between { name: "ab".into(), a: x.clone(), n: 513, b: Box::new(x), end: Some(0.5) }, how)?;
            ensure(y.name == "ab" && y.n == 513 && y.end == Some(0.5), || "fields around it changed".into())?;
            ensure(bincode::serialize(&y.a).ok() == bincode::serialize(&y.b).ok(), || format!("{:?} {:?}", y.a, y.b))?;
            Ok(*y.b)
        }
    }
}
/// JSON with some characters of each key escaped
fn escaped(v: &Cb, s: &mut String) {
    match v {
        Cb::Map(m) => {
            s.push('{');
            for (i, (k, v)) in m.iter().enumerate() {
                if i > 0 {
                    s.push_str(" ,\n");
                }
                s.push('"');
                for (j, c) in k.as_text().unwrap_or("").chars().enumerate() {
                    if (i + j) % 2 == 0 {
                        s.push_str(&format!("\\u{:04x}", c as u32));
                    } else {
                        s.push(c);
                    }
                }
                s.push_str("\"\t: ");
                escaped(v, s);
            }
            s.push('}');
        }
        Cb::Array(a) => {
            s.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    s.push_str(" , ");
                }
                escaped(v, s);
            }
            s.push(']');
        }
        x => json(x, s),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    obj: ObjC,
    fmts: Vec<Fmt>,
    probe: Probe,
}
struct C18;

fn seqs(v: &Cb) -> Cb {
    match v {
        Cb::Map(m) => Cb::Array(m.iter().map(|(_, v)| seqs(v)).collect()),
        Cb::Array(a) => Cb::Array(a.iter().map(seqs).collect()),
        x => x.clone(),
    }
}
fn cb<T: Serialize>(x: &T) -> Result<Cb, String> {
    Cb::serialized(x).map_err(|e| format!("serialise: {e}"))
}
fn units(v: &Cb) -> bool {
    match v {
        Cb::Map(m) => m.iter().any(|(_, v)| units(v)),
        Cb::Array(a) => a.iter().any(units),
        x => x.is_null(),
    }
}
fn step<T: Subject>(x: &T, f: Fmt) -> Result<T, String> {
    let e = |e: &dyn std::fmt::Display| format!("{f:?}: {e}");
    let tree = |t: &Cb| {
        let mut s = String::new();
        json(t, &mut s);
        serde_json::from_str::<T>(&s).map_err(|x| format!("{f:?} {s}: {x}"))
    };
    use bincode::Options;
    match f {
        Fmt::Json => serde_json::from_str(&serde_json::to_string(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
        Fmt::JsonPretty => serde_json::from_slice(&serde_json::to_vec_pretty(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
        Fmt::JsonReader => {
            let b = serde_json::to_vec(x).map_err(|x| e(&x))?;
            serde_json::from_reader(&b[..]).map_err(|x| e(&x))
        }
        Fmt::JsonValue => serde_json::from_value(serde_json::to_value(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
        Fmt::JsonShuffled(mut s) => tree(&shuffle(&cb(x)?, &mut s)),
        Fmt::JsonSeq => tree(&seqs(&cb(x)?)),
        Fmt::Bincode => bincode::deserialize(&bincode::serialize(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
        Fmt::BincodeBig => {
            let o = bincode::DefaultOptions::new().with_big_endian().with_varint_encoding();
            let b = o.serialize(x).map_err(|x| e(&x))?;
            o.deserialize(&b).map_err(|x| e(&x))
        }
        Fmt::Cbor => {
            let mut b = vec![];
            ciborium::into_writer(x, &mut b).map_err(|x| e(&x))?;
            ciborium::from_reader(&b[..]).map_err(|x| e(&x))
        }
        Fmt::CborShuffled(mut s) => {
            let mut b = vec![];
            ciborium::into_writer(&shuffle(&cb(x)?, &mut s), &mut b).map_err(|x| e(&x))?;
            ciborium::from_reader(&b[..]).map_err(|x| e(&x))
        }
        Fmt::Ron => {
            let p = ron::ser::PrettyConfig::new().struct_names(true);
            let s = ron::ser::to_string_pretty(x, p).map_err(|x| e(&x))?;
            ron::from_str(&s).map_err(|x| format!("{f:?} {s}: {x}"))
        }
        Fmt::Toml => {
            if units(&cb(x)?) {
                return step(x, Fmt::Json);
            }
            let s = toml::to_string(x).map_err(|x| e(&x))?;
            toml::from_str(&s).map_err(|x| format!("{f:?} {s}: {x}"))
        }
        Fmt::Inside(p, how) => inside(x, p, how).map_err(|x| e(&x)),
        Fmt::Walk(keys, readable) => {
            let v = cb(x)?;
            T::deserialize(Walk { v: &v, keys, readable }).map_err(|x| e(&x))
        }
        Fmt::JsonEscaped => {
            let mut s = String::new();
            escaped(&cb(x)?, &mut s);
            serde_json::from_str::<T>(&s).map_err(|x| format!("{f:?} {s}: {x}"))
        }
    }
}
struct V<'a> {
    c: &'a Case,
    want: Vec<f64>,
}
impl<'a, R: Real> Visit<R> for V<'a> {
    type Out = Res;
    fn visit<T: Subject>(&mut self, x: T) -> Res {
        // what is stored: the defining parameters, nothing else
        if !is_dynamic(&self.c.obj) {
            let mut got = vec![];
            leaves(&cb(&x)?, &mut got);
            let mut got: Vec<u64> = got.iter().map(|x| x.to_bits()).collect();
            let mut want: Vec<u64> = self.want.iter().map(|x| x.to_bits()).collect();
            got.sort_unstable();
            want.sort_unstable();
            ensure(got == want, || {
                format!("serialised numbers are {:?}, the parameters are {:?}", cb(&x).unwrap(), self.want)
            })?;
        }
        let s0 = x.sig(&self.c.probe);
        let bytes = bincode::serialize(&x).map_err(|e| e.to_string())?;
        let mut y = x.clone();
        for f in &self.c.fmts {
            y = step(&y, *f)?;
            ensure(x == y && y == x, || format!("after {f:?}: {y:?} is not equal to {x:?}"))?;
            if let Some(d) = s0.diff(&y.sig(&self.c.probe)) {
                return Err(format!("after {f:?}: {x:?} behaves differently: {d}"));
            }
            ensure(bincode::serialize(&y).ok().as_ref() == Some(&bytes), || {
                format!("after {f:?}: {y:?} has different parameters than {x:?}")
            })?;
        }
        Ok(())
    }
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    o.label(kind_of(&c.obj));
    o.label(R::NAME);
    for f in &c.fmts {
        o.label(match f {
            Fmt::Json | Fmt::JsonPretty | Fmt::JsonReader => "JSON",
            Fmt::JsonValue => "JSON value tree",
            Fmt::JsonShuffled(_) => "JSON, fields permuted",
            Fmt::JsonSeq => "JSON, structs as sequences",
            Fmt::Bincode | Fmt::BincodeBig => "bincode",
            Fmt::Cbor => "CBOR",
            Fmt::CborShuffled(_) => "CBOR, fields permuted",
            Fmt::Ron => "RON with struct names",
            Fmt::Toml => "TOML",
            Fmt::Inside(Place::Flat, _) => "flattened into another struct",
            Fmt::Inside(..) => "inside another type",
            Fmt::Walk(..) => "fields by text or bytes",
            Fmt::JsonEscaped => "JSON, escaped keys",
        });
    }
    o.compared += c.fmts.len() as u64;
    o.nontrivial = true;
    let want = params_of::<R>(&c.obj);
    with_obj::<R, _>(&c.obj, &mut V { c, want })
}
impl Prop for C18 {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "random value of every serialisable type (incl. signed zeros, subnormals, large numbers), sent through a chain of one to three formats; equality, stored parameters and behaviour bits compared after each; every case is non-trivial";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let place = prop_oneof![
            Just(Place::Flat),
            Just(Place::Untagged),
            Just(Place::Tagged),
            Just(Place::Adjacent),
            any::<u8>().prop_map(Place::Many),
            Just(Place::Maybe),
            Just(Place::Keyed),
            Just(Place::Between),
        ]
        .boxed();
        let fmt = prop_oneof![
            Just(Fmt::Json),
            Just(Fmt::JsonPretty),
            Just(Fmt::JsonReader),
            Just(Fmt::JsonValue),
            any::<u64>().prop_map(Fmt::JsonShuffled),
            Just(Fmt::JsonSeq),
            Just(Fmt::Bincode),
            Just(Fmt::BincodeBig),
            Just(Fmt::Cbor),
            any::<u64>().prop_map(Fmt::CborShuffled),
            Just(Fmt::Ron),
            Just(Fmt::Toml),
            Just(Fmt::JsonEscaped),
            (
                proptest::sample::select(vec![
                    Keys::Borrowed,
                    Keys::Owned,
                    Keys::Transient,
                    Keys::Bytes,
                    Keys::ByteBuf,
                ]),
                any::<bool>()
            )
                .prop_map(|(k, r)| Fmt::Walk(k, r)),
            (place.clone(), any::<u8>()).prop_map(|(p, h)| Fmt::Inside(p, h)),
            (place, any::<u8>()).prop_map(|(p, h)| Fmt::Inside(p, h)),
        ];
        (prec(), obj(), proptest::collection::vec(fmt, 1..4), probe())
            .prop_map(|(prec, obj, fmts, probe)| Case { prec, obj, fmts, probe })
            .boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C18>()
}
