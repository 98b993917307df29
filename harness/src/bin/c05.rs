use cam_geom::{Camera, ExtrinsicParameters};
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{Unit, Vector3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    center: [f64; 3],
    /// look-at point relative to the centre: direction and length
    dir: [f64; 3],
    len: f64,
    /// give the look-at point itself instead
    lookat: Option<[f64; 3]>,
    up: [f64; 3],
    k: PerspC,
    o: OrthoC,
}
struct C05;

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let cc = rnd3::<R>(c.center);
    let n = n3(c.dir);
    let la = rnd3::<R>(c.lookat.unwrap_or([
        cc[0] + c.dir[0] / n * c.len,
        cc[1] + c.dir[1] / n * c.len,
        cc[2] + c.dir[2] / n * c.len,
    ]));
    let v = |a: [f64; 3]| Vector3::new(R::of(a[0]), R::of(a[1]), R::of(a[2]));
    let up = Unit::new_normalize(v(c.up));
    let upv = dd::unit(dd::v3([up.x.f(), up.y.f(), up.z.f()]));
    let d = dd::sub(dd::v3(la), dd::v3(cc));
    let dn = vn(d);
    if dn == 0.0 {
        o.skipped += 1;
        return Ok(());
    }
    let du = dd::unit(d);
    let sin = vn(dd::cross(du, upv));
    let tol = K * eps / sin;
    if !(tol < 1.0 / 16.0) {
        o.skipped += 1;
        return Ok(());
    }
    let e = ExtrinsicParameters::from_view(&v(cc), &v(la), &up);
    ensure(p3_of(e.camcenter()) == cc, || format!("centre {:?} instead of {cc:?}", e.camcenter()))?;
    let f = |v: Unit<Vector3<R>>| [v.x.f(), v.y.f(), v.z.f()];
    let (fw, eu, er) = (f(e.forward()), f(e.up()), f(e.right()));
    o.group("forward");
    close3(o, &|| "forward".into(), fw, du, tol)?;
    let wu = dd::unit(dd::sub(upv, dd::scale(du, dd::dot(upv, du))));
    o.group("up");
    close3(o, &|| "up".into(), eu, wu, tol)?;
    o.group("right");
    close3(o, &|| "right (forward x up)".into(), er, dd::cross(du, wu), tol)?;
    // the rotation used for conversions is the same one
    let r = m3_of(e.rotation().matrix());
    let want = [dd::cross(du, wu), dd::scale(wu, Dd::new(-1.0)), du];
    o.group("rotation");
    o.small(&|| format!("rotation {r:?} expected {want:?}"), mat_diff(&r, &want), tol)?;

    // the look-at point projects to the principal point
    let k = rnd_p::<R>(&c.k);
    let m = PoseM::new(want, dd::v3(cc));
    let efr = e_frame(la, &m, eps) + tol / K * dn;
    o.group("principal point");
    if let Some(mut pm) = k.project(m.to_cam(dd::v3(la)), efr, eps) {
        pm.u = [k.cx, k.cy];
        let cam = Camera::new(mk_persp::<R>(&k), e.clone());
        let px = world_to_pix(&cam, &[la], Layout::Static);
        close2(o, &|| format!("{} look-at point in perspective camera", R::NAME), px[0], &pm)?;
        o.nontrivial = true;
    } else {
        o.skipped += 2;
    }
    let k = rnd_o::<R>(&c.o);
    let mut pm = k.project([Dd::ZERO; 3], efr, eps).unwrap();
    pm.u = [k.cx, k.cy];
    let cam = Camera::new(mk_ortho::<R>(&k), e);
    let px = world_to_pix(&cam, &[la], Layout::Static);
    close2(o, &|| format!("{} look-at point in orthographic camera", R::NAME), px[0], &pm)?;
    o.label(R::NAME);
    o.lab_if(n3(cc) > 1e4, "far camera");
    o.lab_if(dn < 1e-2, "short look vector");
    o.lab_if(dn > 1e3, "long look vector");
    o.lab_if(sin < 0.1, "up nearly parallel");
    Ok(())
}

impl Prop for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "random centre, look-at point (relative with length 1e-3..1e4, or absolute) and up vector, incl. axis-aligned and nearly parallel ones; non-trivial: look direction nonzero, not parallel to up, and the look-at point's projection bound is meaningful";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 4_000_000,
            Tier::Thorough => 80_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let len = prop_oneof![4 => 0.1..50.0f64, 1 => Just(1.0), 2 => logmag(-3.0, 4.0), 1 => harvested(1e-3, 1e4)];
        in_units((prec(), center(), dirvec(), len, proptest::option::weighted(0.3, center()), dirvec(), persp(), ortho())
            .prop_map(|(prec, center, dir, len, lookat, up, k, o)| Case { prec, center, dir, len, lookat, up, k, o }), |c| c.prec, |c, s| {
            c.center.rescale(s);
            c.len.rescale(s);
            c.lookat.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C05>()
}
