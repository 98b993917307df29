use cam_geom::*;
use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use nalgebra::SMatrix;
use proptest::prelude::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Edit {
    /// add `x` to an entry
    Add(usize, f64),
    /// add +-x*eps of the scalar type to an entry
    Eps(usize, f64),
    /// special value: 0 nan, 1 inf, 2 -inf, 3 zero, 4 -zero, 5 one, 6 minus one, 7 smallest positive, 8 max, 9 min
    Special(usize, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: PerspC,
    scale: Option<f64>,
    edits: Vec<Edit>,
    pt: PtC,
}
struct C13;

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let k = rnd_p::<R>(&c.k);
    let mut m = [[k.fx, k.skew, k.cx, 0.0], [0.0, k.fy, k.cy, 0.0], [0.0, 0.0, 1.0, 0.0]];
    if let Some(s) = c.scale {
        for x in m.iter_mut().flatten() {
            *x *= s;
        }
    }
    for e in &c.edits {
        let (i, f): (usize, Box<dyn Fn(f64) -> f64>) = match *e {
            Edit::Add(i, x) => (i, Box::new(move |v| v + x)),
            Edit::Eps(i, x) => (i, Box::new(move |v| v + x * eps)),
            Edit::Special(i, s) => (
                i,
                Box::new(move |_| match s {
                    0 => f64::NAN,
                    1 => f64::INFINITY,
                    2 => f64::NEG_INFINITY,
                    3 => 0.0,
                    4 => -0.0,
                    5 => 1.0,
                    6 => -1.0,
                    7 => if eps > 1e-10 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE },
                    8 => R::MAXV,
                    _ => -R::MAXV,
                }),
            ),
        };
        let x = &mut m[i / 4 % 3][i % 4];
        *x = f(*x);
    }
    for x in m.iter_mut().flatten() {
        *x = rnd::<R>(*x);
    }
    // verdict
    let (mut bad, mut gray) = (false, false);
    for (i, j, want) in [(0, 3, 0.0), (1, 0, 0.0), (1, 3, 0.0), (2, 0, 0.0), (2, 1, 0.0), (2, 3, 0.0), (2, 2, 1.0)] {
        let d: f64 = (m[i][j] - want as f64).abs();
        if !(d <= 4.0 * eps) {
            bad = true;
        } else if d > eps / 2.0 {
            gray = true;
        }
    }
    let params = [m[0][0], m[1][1], m[0][1], m[0][2], m[1][2]];
    let bad_params = params.iter().any(|x| !x.is_finite()) || params[0] == 0.0 || params[1] == 0.0;
    let got = IntrinsicParametersPerspective::from_normalized_3x4_matrix(SMatrix::<R, 3, 4>::from_fn(|i, j| R::of(m[i][j])));
    o.label(R::NAME);
    o.compared += 1;
    match got {
        Err(e) => {
            if gray && !bad && !bad_params {
                o.label("undecided (within 4 eps)");
                return Ok(());
            }
            ensure(bad || bad_params, || format!("{} valid matrix {m:?} rejected: {e}", R::NAME))?;
            ensure(matches!(e, Error::InvalidInput), || format!("{} rejected with {e} instead of InvalidInput", R::NAME))?;
            o.label("rejected");
            o.lab_if(!bad, "rejected for its parameters");
            o.nontrivial = true;
        }
        Ok(i) => {
            ensure(!bad, || format!("{} matrix that is no normalised pinhole matrix accepted: {m:?}", R::NAME))?;
            ensure(!bad_params, || format!("{} matrix with unusable parameters accepted: {m:?}", R::NAME))?;
            let g = [i.fx().f(), i.fy().f(), i.skew().f(), i.cx().f(), i.cy().f()];
            ensure(g == params, || format!("{} parameters {g:?} instead of {params:?} (fx, fy, skew, cx, cy)", R::NAME))?;
            let p = i.params();
            let g = [p.fx.f(), p.fy.f(), p.skew.f(), p.cx.f(), p.cy.f()];
            ensure(g == params, || format!("{} params() {g:?} instead of {params:?}", R::NAME))?;
            // and it projects with them
            let km = KM { ortho: false, fx: g[0], fy: g[1], skew: g[2], cx: g[3], cy: g[4] };
            let pt = rnd3::<R>(cam_pt(&c.pt));
            if g.iter().all(|x| x.abs() < 1e12 && (*x == 0.0 || x.abs() > 1e-12)) {
                if let Some(pm) = km.project(dd::v3(pt), 0.0, eps) {
                    let px = with3(&[pt], Layout::Static, &mut CamToPix(&i))[0];
                    close2(o, &|| format!("{} projection of {pt:?}", R::NAME), px, &pm)?;
                }
            }
            o.label("accepted");
            o.nontrivial = true;
        }
    }
    Ok(())
}

impl Prop for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "pinhole matrix with 0..3 entries edited (offsets of every magnitude, multiples of eps, NaN/inf/zero/extreme values) and optional scaling; non-trivial: the specification decides (deviation below eps/2 or above 4 eps)";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 8_000_000,
            Tier::Thorough => 160_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let off = prop_oneof![
            2 => signed(logmag(-18.0, 6.0), 50),
            1 => signed((1i32..=3).prop_map(f64::from).boxed(), 50),
            1 => signed(harvested(1e-12, 1e6), 50),
            1 => signed(logmag(-320.0, -18.0), 50),
        ];
        let e = prop_oneof![
            4 => (0usize..12, off).prop_map(|(i, x)| Edit::Add(i, x)),
            2 => (0usize..12, signed(logmag(-1.0, 3.0), 50)).prop_map(|(i, x)| Edit::Eps(i, x)),
            3 => (0usize..12, 0u8..10).prop_map(|(i, s)| Edit::Special(i, s)),
        ];
        let sc = prop_oneof![signed(logmag(-3.0, 3.0), 50), Just(-1.0), Just(2.0)];
        (
            prec(),
            persp(),
            proptest::option::weighted(0.05, sc),
            prop_oneof![2 => Just(0usize), 5 => Just(1), 2 => Just(2), 1 => Just(3)]
                .prop_flat_map(move |n| proptest::collection::vec(e.clone(), n)),
            pt(),
        )
            .prop_map(|(prec, k, scale, edits, pt)| Case { prec, k, scale, edits, pt })
            .boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C13>()
}
