use camcheck::{by_prec, driver::*, gen::*, model::*, obj::*, tree::*};
use ciborium::value::Value as Cb;
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    obj: ObjC,
    /// seed of the order of fields in the documents that are read
    order: u64,
    probe: Probe,
}
struct C29;

fn map(f: Vec<(&str, Cb)>) -> Cb {
    Cb::Map(f.into_iter().map(|(k, v)| (Cb::Text(k.into()), v)).collect())
}
fn nums(names: &[&str], v: &[f64]) -> Cb {
    map(names.iter().zip(v).map(|(n, x)| (*n, Cb::Float(*x))).collect())
}
fn arr(v: &[f64]) -> Cb {
    Cb::Array(v.iter().map(|x| Cb::Float(*x)).collect())
}
fn persp(v: &[f64]) -> Cb {
    nums(&["fx", "fy", "skew", "cx", "cy"], v)
}
fn ortho(v: &[f64]) -> Cb {
    nums(&["sx", "sy", "cx", "cy"], v)
}
fn ext(v: &[f64]) -> Cb {
    map(vec![("rquat", arr(&v[..4])), ("camcenter", arr(&v[4..7]))])
}
/// The document that stands for a value, and its numbers in the order of positional formats.
fn document<R: Real>(obj: &ObjC) -> (Cb, Vec<f64>) {
    let p = params_of::<R>(obj);
    let one = |n: &str, v: Cb| map(vec![(n, v)]);
    let btype = |origin: bool, s: &[f64]| one(if origin { "center" } else { "direction" }, arr(s));
    match obj {
        ObjC::PParams(_) => (persp(&p), p),
        ObjC::OParams(_) => (ortho(&p), p),
        ObjC::Persp(_) => (one("params", persp(&p)), p),
        ObjC::Ortho(_) => (one("params", ortho(&p)), p),
        ObjC::Ext(_) => (ext(&p), p),
        ObjC::CamP(..) => (map(vec![("intrinsics", one("params", persp(&p))), ("extrinsics", ext(&p[5..]))]), p),
        ObjC::CamO(..) => (map(vec![("intrinsics", one("params", ortho(&p))), ("extrinsics", ext(&p[4..]))]), p),
        ObjC::BType { origin, .. } => (btype(*origin, &p), p),
        ObjC::Rays { origin, rows, .. } => {
            let n = rows.len();
            // ray after ray in params_of, column after column in a document
            let mut v: Vec<f64> = (0..3 * n).map(|k| p[(k % n) * 3 + k / n]).collect();
            let data = if is_dynamic(obj) {
                // (how nalgebra stores a dynamic matrix is nalgebra's affair)
                let m = nalgebra::OMatrix::<R, nalgebra::Dyn, nalgebra::U3>::from_fn(n, |i, j| R::of(p[3 * i + j]));
                Cb::serialized(&m).unwrap()
            } else {
                arr(&v)
            };
            v.extend(&p[3 * n..]);
            (map(vec![("coords", Cb::Null), ("data", data), ("bundle_type", btype(*origin, &p[3 * n..]))]), v)
        }
    }
}
/// same document, whatever the order of fields
fn same(a: &Cb, b: &Cb) -> bool {
    match (a, b) {
        (Cb::Map(a), Cb::Map(b)) => {
            a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && same(v, w)))
        }
        (Cb::Array(a), Cb::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| same(v, w)),
        (Cb::Float(a), Cb::Float(b)) => a.to_bits() == b.to_bits(),
        _ => a == b,
    }
}
struct V<'a> {
    c: &'a Case,
}
impl<'a, R: Real> Visit<R> for V<'a> {
    type Out = Res;
    fn visit<T: Subject>(&mut self, x: T) -> Res {
        let obj = &self.c.obj;
        let (doc, flat) = document::<R>(obj);
        let text = |t: &Cb| {
            let mut s = String::new();
            json(t, &mut s);
            s
        };
        // what is written
        let got = Cb::serialized(&x).map_err(|e| format!("serialise: {e}"))?;
        ensure(same(&got, &doc), || format!("{x:?} is stored as {}, not as {}", text(&got), text(&doc)))?;
        // numbers are written in full (JSON text parses back to the very document)
        let js = serde_json::to_string(&x).map_err(|e| e.to_string())?;
        let back: serde_json::Value = serde_json::from_str(&js).map_err(|e| e.to_string())?;
        let want: serde_json::Value = {
            // (f32 numbers have shorter decimals than the f64 of the same value)
            let mut s = String::new();
            json_r::<R>(&doc, &mut s);
            serde_json::from_str(&s).map_err(|e| e.to_string())?
        };
        ensure(back == want, || format!("{x:?} is written as {js}, not as {want}"))?;
        let bin = bincode::serialize(&x).map_err(|e| e.to_string())?;
        let le = |v: &[f64]| -> Vec<u8> {
            v.iter()
                .flat_map(|x| {
                    if std::mem::size_of::<R>() == 4 { (*x as f32).to_le_bytes().to_vec() } else { x.to_le_bytes().to_vec() }
                })
                .collect()
        };
        if !is_dynamic(obj) {
            let want = le(&flat);
            ensure(bin == want, || format!("{x:?} is stored as the bytes {bin:02x?}, not {want:02x?}"))?;
        }
        // what is read
        let s0 = x.sig(&self.c.probe);
        let alike = |y: Result<T, String>, how: &str| -> Res {
            let y = y.map_err(|e| format!("{how}: {e} in {}", text(&doc)))?;
            ensure(x == y, || format!("{how}: {} was read as {y:?} instead of {x:?}", text(&doc)))?;
            ensure(bincode::serialize(&y).ok().as_ref() == Some(&bin), || {
                format!("{how}: {} was read as {y:?} instead of {x:?}", text(&doc))
            })?;
            match s0.diff(&y.sig(&self.c.probe)) {
                None => Ok(()),
                Some(d) => Err(format!("{how}: {} was read as something that behaves differently: {d}", text(&doc))),
            }
        };
        let mut order = self.c.order;
        let sh = shuffle(&doc, &mut order);
        alike(serde_json::from_str(&text(&doc)).map_err(|e| e.to_string()), "JSON")?;
        alike(serde_json::from_str(&text(&sh)).map_err(|e| e.to_string()), "JSON, fields in another order")?;
        alike(sh.deserialized().map_err(|e| e.to_string()), "document tree")?;
        if !is_dynamic(obj) {
            alike(bincode::deserialize(&le(&flat)).map_err(|e| e.to_string()), "bytes")?;
        }
        Ok(())
    }
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    o.label(kind_of(&c.obj));
    o.label(R::NAME);
    o.compared += 7;
    o.nontrivial = true;
    with_obj::<R, _>(&c.obj, &mut V { c })
}
impl Prop for C29 {
    type Case = Case;
    const ID: &'static str = "C29";
    const RULE: &'static str = "random value of every serialisable type; the document (field names, order of numbers) is composed from its parameters without the library, compared with what is written, and read in several forms; every case is non-trivial";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        (prec(), obj(), any::<u64>(), probe()).prop_map(|(prec, obj, order, probe)| Case { prec, obj, order, probe }).boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C29>()
}
