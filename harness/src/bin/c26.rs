use cam_geom::*;
use camcheck::{by_prec, driver::*, gen::*, model::*, obj::*};
use nalgebra::{Dyn, OMatrix, U2, U3};
use proptest::prelude::*;
use std::any::Any;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Change {
    None,
    /// next representable value (repeated), up or down
    Ulp(i8),
    Times(f64),
    Plus(f64),
    Set(f64),
    Negate,
    /// exchange with the following parameter
    Swap,
    /// the same rotation by the opposite quaternion (poses; otherwise no change)
    OppositeQuat,
    /// one row more (dynamically sized bundles; otherwise no change)
    Row,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    obj: ObjC,
    index: usize,
    change: Change,
    probe: Probe,
}
struct C26;

/// defining parameters in the order `with_params` takes them
fn flat<R: Real>(o: &ObjC) -> Vec<f64> {
    match o {
        ObjC::Rays { shared, rows, .. } => {
            let mut v: Vec<f64> = (0..3).flat_map(|j| rows.iter().map(move |r| r[j])).collect();
            v.extend(shared);
            v.into_iter().map(rnd::<R>).collect()
        }
        _ => params_of::<R>(o),
    }
}
/// position of the quaternion in the parameters, if any
fn quat_at(o: &ObjC) -> Option<usize> {
    match o {
        ObjC::Ext(_) => Some(0),
        ObjC::CamP(..) => Some(5),
        ObjC::CamO(..) => Some(4),
        _ => None,
    }
}
fn step_ulp<R: Real>(x: f64, n: i8) -> f64 {
    // order-preserving integer of the bit pattern
    let b = R::of(x).bits();
    let top = if R::NAME == "f32" { 1u64 << 31 } else { 1 << 63 };
    let mut k = if b & top != 0 { -((b & (top - 1)) as i64) } else { b as i64 };
    k += n as i64;
    let b = if k < 0 { top | (-k) as u64 } else { k as u64 };
    R::from_bits64(b).f()
}
fn same_params(o: &ObjC, a: &[f64], b: &[f64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let eq = |r: std::ops::Range<usize>| r.clone().all(|i| a[i] == b[i]);
    match quat_at(o) {
        Some(q) => {
            let rot = eq(q..q + 4) || (q..q + 4).all(|i| a[i] == -b[i]);
            rot && eq(0..q) && eq(q + 4..a.len())
        }
        None => eq(0..a.len()),
    }
}
/// every number in the text: (position, parsed), integers left out
fn floats<R: Real>(s: &str) -> Vec<(usize, f64)> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if b[i].is_ascii_digit() && (i == 0 || !(word(b[i - 1]) || b[i - 1] == b'.')) {
            let st = if i > 0 && b[i - 1] == b'-' { i - 1 } else { i };
            let mut j = i;
            while j < b.len()
                && (word(b[j]) || b[j] == b'.' || (b[j] == b'-' && b[j - 1] == b'e'))
            {
                j += 1;
            }
            let t = &s[st..j];
            if t.contains('.') || t.contains('e') {
                let v = if R::NAME == "f32" { t.parse::<f32>().map(|x| x as f64) } else { t.parse::<f64>() };
                out.push((st, v.unwrap_or(f64::NAN)));
            }
            i = j;
        } else if word(b[i]) {
            // skip names; "NaN" and "inf" are numbers no parameter has
            let st = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            if matches!(&s[st..i], "NaN" | "inf") {
                out.push((st, f64::NAN));
            }
        } else {
            i += 1;
        }
    }
    out
}
fn sorted(mut v: Vec<f64>) -> Vec<f64> {
    for x in &mut v {
        *x += 0.0; // -0 and 0 alike
    }
    v.sort_by(|a, b| a.total_cmp(b));
    v
}
fn debug_check<R: Real>(o: &mut Obs, text: &str, obj: &ObjC, p: &[f64]) -> Res {
    let found = floats::<R>(text);
    o.compared += 1;
    let got = sorted(found.iter().map(|x| x.1).collect());
    let want = sorted(p.to_vec());
    ensure(got == want, || format!("debug output of {} shows {got:?}, its parameters are {want:?}: {text}", kind_of(obj)))?;
    // named values stand at their names
    let names: &[&str] = match obj {
        ObjC::Persp(_) | ObjC::PParams(_) | ObjC::CamP(..) => &["fx", "fy", "skew", "cx", "cy"],
        ObjC::Ortho(_) | ObjC::OParams(_) | ObjC::CamO(..) => &["sx", "sy", "cx", "cy"],
        _ => &[],
    };
    for (i, n) in names.iter().enumerate() {
        let key = format!("{n}: ");
        let at = text.find(&key).map(|k| k + key.len());
        let v = at.and_then(|a| found.iter().find(|f| f.0 == a)).map(|f| f.1);
        ensure(v.is_some_and(|v| v == p[i]), || format!("debug output shows {v:?} for {n}, which is {:?}: {text}", p[i]))?;
    }
    let groups: Vec<(&str, std::ops::Range<usize>)> = match quat_at(obj) {
        Some(q) => vec![("rquat: ", q..q + 4), ("camcenter: ", q + 4..q + 7)],
        None => match obj {
            ObjC::Rays { origin, rows, .. } => {
                let n = 3 * rows.len();
                vec![(if *origin { "center: " } else { "direction: " }, n..n + 3)]
            }
            _ => vec![],
        },
    };
    for (key, r) in groups {
        let Some(at) = text.find(key) else { continue };
        let v: Vec<f64> = found.iter().filter(|f| f.0 > at).take(r.len()).map(|f| f.1).collect();
        let w = &p[r];
        ensure(sorted(v.clone()) == sorted(w.to_vec()), || format!("debug output shows {v:?} at {key}, expected {w:?}: {text}"))?;
    }
    Ok(())
}

struct Cmp<'a> {
    first: Option<Box<dyn Any>>,
    case: &'a Case,
    obs: &'a mut Obs,
    /// parameters of the objects visited, in order
    params: Vec<Vec<f64>>,
    equal: bool,
    seen: usize,
}
impl<R: Real> Visit<R> for Cmp<'_> {
    type Out = Res;
    fn visit<T: Subject>(&mut self, x: T) -> Res {
        let k = kind_of(&self.case.obj);
        let o = &mut *self.obs;
        let p = &self.case.probe;
        self.seen += 1;
        let n = R::NAME;
        match self.first.take() {
            None => {
                // clones
                let y = x.clone();
                o.compared += 3;
                ensure(x == y && y == x && !(x != y), || format!("{n} {k}: the clone of {x:?} is {y:?}, not equal to it"))?;
                ensure(x == x, || format!("{n} {k}: {x:?} is not equal to itself"))?;
                ensure(format!("{x:?}") == format!("{y:?}"), || format!("{n} {k}: the clone of {x:?} prints as {y:?}"))?;
                let (sx, sy) = (x.sig(p), y.sig(p));
                if let Some(d) = sx.diff(&sy) {
                    return Err(format!("{n} {k}: the clone behaves differently: {d}"));
                }
                drop(x);
                // the clone stands on its own
                let z = y.clone();
                drop(y);
                if let Some(d) = sx.diff(&z.sig(p)) {
                    return Err(format!("{n} {k}: the clone changed when the original was dropped: {d}"));
                }
                let text = format!("{z:?}");
                debug_check::<R>(o, &text, &self.case.obj, &self.params[0])?;
                debug_check::<R>(o, &format!("{z:#?}"), &self.case.obj, &self.params[0])?;
                self.first = Some(Box::new(z));
                Ok(())
            }
            Some(f) => {
                let Ok(f) = f.downcast::<T>() else {
                    return Ok(()); // another static type: cannot be compared
                };
                let (e1, e2, n1, n2) = (*f == x, x == *f, *f != x, x != *f);
                o.compared += 1;
                let eq = self.equal;
                let sh = |b: bool| if b { "equal" } else { "unequal" };
                ensure(e1 == eq && e2 == eq && n1 != eq && n2 != eq, || {
                    format!(
                        "{n} {k}: {f:?} and {x:?} compare as {} (and {} the other way round, != {n1} {n2}), but their parameters are {}",
                        sh(e1), sh(e2), sh(eq)
                    )
                })?;
                // assigning by clone_from replaces everything
                let mut w = x.clone();
                w.clone_from(&f);
                ensure(w == *f, || format!("{n} {k}: clone_from of {f:?} into {x:?} gave {w:?}"))?;
                if let Some(d) = f.sig(p).diff(&w.sig(p)) {
                    return Err(format!("{n} {k}: clone_from gave a value which behaves differently: {d}"));
                }
                self.first = Some(f);
                Ok(())
            }
        }
    }
}

fn go<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let p = flat::<R>(&c.obj);
    let mut q = p.clone();
    let i = c.index % p.len();
    let mut rows_changed = false;
    match c.change {
        Change::None => {}
        Change::Ulp(n) => q[i] = step_ulp::<R>(p[i], n),
        Change::Times(f) => q[i] = p[i] * f,
        Change::Plus(d) => q[i] = p[i] + d,
        Change::Set(v) => q[i] = v,
        Change::Negate => q[i] = -p[i],
        Change::Swap => q.swap(i, (i + 1) % p.len()),
        Change::OppositeQuat => {
            if let Some(a) = quat_at(&c.obj) {
                for x in &mut q[a..a + 4] {
                    *x = -*x;
                }
            }
        }
        Change::Row => rows_changed = is_dynamic(&c.obj),
    }
    let q: Vec<f64> = q.into_iter().map(rnd::<R>).collect();
    if q.iter().any(|x| !x.is_finite()) {
        o.skipped += 1;
        return Ok(());
    }
    let equal = same_params(&c.obj, &p, &q);
    let build = |v: &mut Cmp, p: &[f64]| -> Res {
        match &c.obj {
            ObjC::Rays { origin, world, dynamic, rows, .. } => {
                let n = rows.len();
                let mut rows: Vec<[f64; 3]> = (0..n).map(|i| [p[i], p[n + i], p[2 * n + i]]).collect();
                let s = &p[3 * n..];
                let mut dynamic = *dynamic;
                if v.seen == 2 {
                    // third object: one row more
                    dynamic = true;
                    rows.push(rows.last().copied().unwrap_or([1.0, 2.0, 3.0]));
                }
                let ob = ObjC::Rays { origin: *origin, world: *world, dynamic, shared: [s[0], s[1], s[2]], rows };
                with_obj::<R, _>(&ob, v)
            }
            ob => with_params::<R, _>(ob, p, v),
        }
    };
    let mut v = Cmp { first: None, case: c, obs: o, params: vec![p.clone()], equal, seen: 0 };
    build(&mut v, &p)?;
    build(&mut v, &q)?;
    if rows_changed {
        v.equal = false;
        build(&mut v, &p)?;
        v.obs.label("different number of rays");
    }
    o.label(R::NAME);
    o.label(kind_of(&c.obj));
    o.label(if equal { "equal parameters" } else { "different parameters" });
    o.lab_if(!equal && matches!(c.change, Change::Ulp(_)), "differ by few ulps");
    o.lab_if(matches!(c.change, Change::OppositeQuat) && quat_at(&c.obj).is_some(), "opposite quaternion");
    o.nontrivial = !equal || matches!(c.change, Change::OppositeQuat | Change::Negate);
    // points and pixels: clone and debug output
    let m = OMatrix::<R, Dyn, U3>::from_fn(c.probe.pts.len(), |i, j| R::of(c.probe.pts[i][j]));
    let want = sorted(c.probe.pts.iter().flatten().map(|x| rnd::<R>(*x)).collect());
    let text = [
        format!("{:?}", Points::<WorldFrame, R, _, _>::new(m.clone())),
        format!("{:#?}", Points::<CameraFrame, R, _, _>::new(m)),
    ];
    for t in text {
        let got = sorted(floats::<R>(&t).into_iter().map(|x| x.1).collect());
        ensure(got == want, || format!("{} debug output of points {want:?}: {t}", R::NAME))?;
    }
    let m = OMatrix::<R, Dyn, U2>::from_fn(c.probe.pix.len(), |i, j| R::of(c.probe.pix[i][j]));
    let px = Pixels::new(m.clone());
    let cl = px.clone();
    ensure(cl.data == m && px.data == m, || format!("{} clone of pixels {m:?}: {:?}", R::NAME, cl.data))?;
    // errors
    for e in [Error::InvalidInput, Error::SvdFailed, Error::MinimumTwoRaysNeeded, Error::InvalidRotationMatrix] {
        ensure(format!("{e}") == format!("{e:?}") && e.to_string() == format!("{e:?}"), || {
            format!("error {e:?} displays as {e}")
        })?;
    }
    let bad = best_intersection_of_rays::<WorldFrame, R>(&[]);
    if let Err(e) = bad {
        ensure(format!("{e}") == format!("{e:?}"), || format!("error {e:?} displays as {e}"))?;
    }
    Ok(())
}

impl Prop for C26 {
    type Case = Case;
    const ID: &'static str = "C26";
    const RULE: &'static str = "a generated value of any public type, its clone, and a second one built from the same parameters with at most one changed (by ulps up to arbitrary amounts, sign, exchange, opposite quaternion, one row more); equality must follow the parameters, clones behave alike bit for bit, debug text contains exactly the parameters; non-trivial: a parameter differs, or a sign or quaternion is reversed";
    const ASSUME: &'static [&'static str] = &[
        "parameters are finite and of magnitude at most 1e15, so that no derived quantity overflows",
        "a unit quaternion and its negative are the same rotation (nalgebra's equality)",
    ];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let ulp = prop_oneof![Just(1i8), Just(-1i8), Just(2i8), -100i8..100];
        let change = prop_oneof![
            1 => Just(Change::None),
            4 => ulp.prop_map(Change::Ulp),
            3 => (logmag(-15.0, 0.0), any::<bool>()).prop_map(|(d, n)| Change::Times(if n { 1.0 - d } else { 1.0 + d })),
            2 => signed(logmag(-15.0, 3.0), 50).prop_map(Change::Plus),
            2 => num().prop_map(Change::Set),
            2 => Just(Change::Negate),
            1 => Just(Change::Swap),
            2 => Just(Change::OppositeQuat),
            1 => Just(Change::Row),
        ];
        (prec(), obj(), any::<u16>(), change, probe())
            .prop_map(|(prec, obj, index, change, probe)| Case {
                prec,
                obj,
                index: index as usize,
                change,
                probe,
            })
            .boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, go(c, o))
    }
}
fn main() {
    main_for::<C26>()
}
