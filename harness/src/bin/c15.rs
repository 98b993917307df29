use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Set {
    General(RaysC),
    /// exactly parallel rays: common direction times (sign, power of two), any starts
    Parallel { dir: [f64; 3], rays: Vec<([f64; 3], i32, bool)> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    set: Set,
}
struct C15;

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let (rays, parallel): (Vec<RayC>, bool) = match &c.set {
        Set::General(r) => (
            r.list().into_iter().map(|(c, d)| RayC { c: rnd3::<R>(c), d: rnd3::<R>(d) }).collect(),
            false,
        ),
        Set::Parallel { dir, rays } => {
            let d = rnd3::<R>(*dir);
            (
                rays.iter()
                    .map(|(c, e, neg)| {
                        let s = 2f64.powi(*e) * if *neg { -1.0 } else { 1.0 };
                        RayC { c: rnd3::<R>(*c), d: d.map(|x| x * s) }
                    })
                    .collect(),
                true,
            )
        }
    };
    if rays.iter().any(|r| !(n3(r.d) > 1e-15)) {
        o.skipped += 1;
        return Ok(());
    }
    let got = intersect::<R>(&rays)
        .map_err(|e| format!("{} best_intersection_of_rays failed with {e} on {} rays", R::NAME, rays.len()))?;
    o.label(R::NAME);
    o.lab_if(rays.len() == 2, "two rays");
    o.lab_if(rays.len() > 8, "more than 8 rays");
    o.lab_if(rays.len() > 1500, "more than 1500 rays");
    if parallel {
        o.label("parallel");
        // one of the minimisers: off the optimal line by rounding only
        ensure(got.iter().all(|x| x.is_finite()), || format!("{} parallel rays: result {got:?}", R::NAME))?;
        let d = dd::unit(dd::v3(rays[0].d));
        let mut mean = [dd::Dd::ZERO; 3];
        let mut cmax = 0.0f64;
        for r in &rays {
            mean = dd::add(mean, dd::v3(r.c));
            cmax = cmax.max(n3(r.c));
        }
        let mean = dd::scale(mean, dd::Dd::ONE / dd::Dd::new(rays.len() as f64));
        let rel = dd::sub(dd::v3(got), mean);
        let off = vn(dd::cross(rel, d));
        o.group("parallel");
        o.small(
            &|| format!("{} distance of {got:?} from the line of minimisers of {} parallel rays", R::NAME, rays.len()),
            off,
            4.0 * K * eps * (cmax + n3(got)),
        )?;
        o.nontrivial = rays.iter().any(|r| r.c != rays[0].c);
        return Ok(());
    }
    let l = lsq(&rays);
    let e = K * l.err(eps);
    // below this the library documents nothing: directions within about a milliradian
    // (f64), or within the resolution of the scalar type
    if l.sigma < 4e-7 || !(K * eps * l.n < l.sigma / 8.0) {
        o.label("too parallel");
        o.skipped += 3;
        return Ok(());
    }
    o.group(if R::EPS < 1e-10 { "f64" } else { "f32" });
    close3(
        o,
        &|| format!("{} best intersection of {} rays (smallest eigenvalue {:e})", R::NAME, rays.len(), l.sigma),
        got,
        l.x,
        e,
    )?;
    let scale = l.csum / l.n + vn(l.x);
    o.nontrivial = e < 1e-2 * scale;
    o.lab_if(l.sigma < 1e-3, "nearly parallel");
    o.lab_if(objective(&rays, l.x).f().sqrt() < 1e-6 * scale, "rays meet");
    Ok(())
}

impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "2..70000 rays (mostly 2..130): through a common point (exact or noisy), nearly parallel, arbitrary, or exactly parallel; result compared with the exact least-squares point (smallest eigenvalue at least 4e-7), or with the line of minimisers; non-trivial: bound below 1% of the coordinates (parallel: different lines)";
    const ASSUME: &'static [&'static str] =
        &["ray sets whose directions differ by less than about a milliradian (f64) are out of scope unless exactly parallel"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let par = (dirvec(), nray()).prop_flat_map(|(dir, n)| {
            proptest::collection::vec((center(), -3i32..=3, any::<bool>()), n)
                .prop_map(move |rays| Set::Parallel { dir, rays })
        });
        in_units((prec(), prop_oneof![6 => rays().prop_map(Set::General), 1 => par])
            .prop_map(|(prec, set)| Case { prec, set }), |c| c.prec, |c, s| match &mut c.set {
            Set::General(r) => r.rescale(s),
            Set::Parallel { rays, .. } => rays.iter_mut().for_each(|r| r.0.rescale(s)),
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C15>()
}
