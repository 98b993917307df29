use cam_geom::Error;
use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// same lines written differently, or moved
    Meta {
        prec: Prec,
        rays: RaysC,
        rot: usize,
        rev: bool,
        /// per ray (cycled): slide along the line, factor of the direction
        how: Vec<(f64, f64)>,
        motion: PoseC,
        scale: f64,
        dup: usize,
    },
    Few {
        prec: Prec,
        ray: Option<([f64; 3], [f64; 3])>,
    },
    /// arbitrary bit patterns and degenerate sets: must return, and never with
    /// the "two rays needed" error
    Wild {
        prec: Prec,
        rays: Vec<([u64; 3], [u64; 3])>,
        /// repeat the whole list
        times: usize,
    },
}
struct C16;

fn meta<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let Case::Meta { rays, rot, rev, how, motion, scale, dup, .. } = c else { unreachable!() };
    let eps = R::EPS;
    let list: Vec<RayC> =
        rays.list().into_iter().map(|(c, d)| RayC { c: rnd3::<R>(c), d: rnd3::<R>(d) }).collect();
    if list.iter().any(|r| !(n3(r.d) > 1e-12)) {
        o.skipped += 1;
        return Ok(());
    }
    let l = lsq(&list);
    o.label(R::NAME);
    // first clause of the scope: see C15
    if l.sigma < 1e-6 || !(K * eps * l.n < l.sigma / 64.0) {
        o.label("too parallel");
        o.skipped += 1;
        return Ok(());
    }
    let get = |r: &[RayC]| intersect::<R>(r).map_err(|e| format!("{} failed with {e} on {} rays", R::NAME, r.len()));
    let base = get(&list)?;
    let cmp = |o: &mut Obs, nm: &'static str, got: [f64; 3], want: dd::V3, tol: f64| -> Res {
        o.group(nm);
        close3(o, &|| format!("{} {nm}: best intersection of {} rays (smallest eigenvalue {:e})", R::NAME, list.len(), l.sigma), got, want, tol)
    };
    let e0 = K * l.err(eps);
    let b = dd::v3(base);
    // order
    let mut perm = list.clone();
    perm.rotate_left(rot % list.len());
    if *rev {
        perm.reverse();
    }
    cmp(o, "reordered rays", get(&perm)?, b, 2.0 * e0)?;
    // start points, lengths and signs
    let slid: Vec<RayC> = list
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let (t, f) = how[i % how.len()];
            let n = n3(r.d);
            RayC { c: rnd3::<R>([0, 1, 2].map(|j| r.c[j] + t * r.d[j] / n)), d: rnd3::<R>(r.d.map(|x| x * f)) }
        })
        .collect();
    let smag: f64 = slid.iter().zip(&list).map(|(a, b)| 2.0 * n3(a.c) + n3(b.c) + vn(l.x)).sum();
    let es = K * l.eps(eps) * smag / l.sigma;
    cmp(o, "slid, rescaled and flipped rays", get(&slid)?, b, e0 + 2.0 * es)?;
    // rigid motion
    let (m, t) = (dd::rotmat(motion.q), dd::v3(rnd3::<R>(motion.c)));
    let moved: Vec<RayC> = list
        .iter()
        .map(|r| RayC {
            c: rnd3::<R>(dd::fl3(dd::add(dd::mv(&m, dd::v3(r.c)), t))),
            d: rnd3::<R>(dd::fl3(dd::mv(&m, dd::v3(r.d)))),
        })
        .collect();
    let em = K * l.eps(eps) * (2.0 * l.csum + 2.0 * l.n * (vn(l.x) + vn(t))) / l.sigma;
    cmp(o, "rigidly moved rays", get(&moved)?, dd::add(dd::mv(&m, b), t), e0 + 2.0 * em)?;
    // uniform scaling
    let s = rnd::<R>(*scale);
    let scaled: Vec<RayC> = list.iter().map(|r| RayC { c: rnd3::<R>(r.c.map(|x| x * s)), d: r.d }).collect();
    cmp(o, "scaled rays", get(&scaled)?, dd::scale(b, dd::Dd::new(s)), 4.0 * e0 * s.abs())?;
    // duplicates
    let mut dupl = vec![];
    for _ in 0..*dup {
        dupl.extend_from_slice(&list);
    }
    cmp(o, "duplicated set", get(&dupl)?, b, 3.0 * e0 * (dupl.len() as f64 / 1500.0).max(1.0))?;
    o.nontrivial = e0 + em + es < 1e-2 * (l.csum / l.n + vn(l.x) + vn(t));
    o.label("metamorphic");
    Ok(())
}
fn few<R: Real>(ray: &Option<([f64; 3], [f64; 3])>, o: &mut Obs) -> Res {
    let list: Vec<RayC> = ray.iter().map(|(c, d)| RayC { c: *c, d: *d }).collect();
    o.compared += 1;
    o.nontrivial = true;
    o.label("fewer than two rays");
    match intersect::<R>(&list) {
        Err(Error::MinimumTwoRaysNeeded) => Ok(()),
        Err(e) => Err(format!("{} rays: error {e} instead of MinimumTwoRaysNeeded", list.len())),
        Ok(p) => Err(format!("{} rays: a point {p:?} instead of MinimumTwoRaysNeeded", list.len())),
    }
}
fn wild<R: Real>(rays: &[([u64; 3], [u64; 3])], times: usize, o: &mut Obs) -> Res {
    let f = |b: [u64; 3]| b.map(|x| R::from_bits64(x).f());
    let mut list = vec![];
    for _ in 0..times {
        list.extend(rays.iter().map(|(c, d)| RayC { c: f(*c), d: f(*d) }));
    }
    o.compared += 1;
    o.nontrivial = true;
    o.label("wild input");
    match intersect::<R>(&list) {
        Err(Error::MinimumTwoRaysNeeded) => Err(format!("{} rays reported as too few: {list:?}", list.len())),
        Err(_) => {
            o.label("wild input: error");
            Ok(())
        }
        Ok(_) => Ok(()),
    }
}

fn bits(p: Prec) -> BoxedStrategy<u64> {
    let v = move |x: f64| match p {
        Prec::F64 => x.to_bits(),
        Prec::F32 => (x as f32).to_bits() as u64,
    };
    let any = match p {
        Prec::F64 => any::<u64>().boxed(),
        Prec::F32 => any::<u32>().prop_map(u64::from).boxed(),
    };
    prop_oneof![
        3 => any,
        2 => proptest::sample::select(vec![
            0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324,
            1e-30, 1e30, 1e155, 1e-155, 1e308, 1e38, 1e-38, 3e-39, 0.1,
        ])
        .prop_map(v),
        5 => coord().prop_map(v),
    ]
    .boxed()
}

impl Prop for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "ray sets rewritten (reordered, slid, rescaled, flipped, moved, scaled, duplicated) and compared with the original result; zero and one rays; arbitrary bit patterns, zero/NaN/infinite and repeated rays for totality; non-trivial: metamorphic bound below 1% of the coordinates, or one of the other two kinds";
    const ASSUME: &'static [&'static str] = &["a run that does not return is reported by the check's watchdog"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let how = proptest::collection::vec((distance(), raylen()), 1..5);
        let meta = (prec(), rays(), 0usize..50, any::<bool>(), how, pose(), signed(logmag(-3.0, 3.0), 30), 2usize..4)
            .prop_map(|(prec, rays, rot, rev, how, motion, scale, dup)| Case::Meta {
                prec,
                rays,
                rot,
                rev,
                how,
                motion,
                scale,
                dup,
            });
        let meta = in_units(meta, |c| if let Case::Meta { prec, .. } = c { *prec } else { Prec::F64 }, |c, s| {
            if let Case::Meta { rays, how, motion, .. } = c {
                rays.rescale(s);
                how.iter_mut().for_each(|h| h.0.rescale(s));
                motion.rescale(s);
            }
        });
        let few = (prec(), proptest::option::of((center(), dirvec()))).prop_map(|(prec, ray)| Case::Few { prec, ray });
        let wild = prec().prop_flat_map(|p| {
            let v = || [bits(p), bits(p), bits(p)];
            (proptest::collection::vec((v(), v()), 1..6), 2usize..5)
                .prop_map(move |(rays, times)| Case::Wild { prec: p, rays, times })
        });
        prop_oneof![20 => meta, 1 => few, 10 => wild].boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        match c {
            Case::Meta { prec, .. } => by_prec!(*prec, meta(c, o)),
            Case::Few { prec, ray } => by_prec!(*prec, few(ray, o)),
            Case::Wild { prec, rays, times } => by_prec!(*prec, wild(rays, *times, o)),
        }
    }
}
fn main() {
    main_for::<C16>()
}
