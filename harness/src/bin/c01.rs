use cam_geom::*;
use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: PerspC,
    pose: PoseC,
    pts: Batch<PtC>,
    layout: Layout,
}
struct C01;

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let k = rnd_p::<R>(&c.k);
    let intr = mk_persp::<R>(&k);
    // reported parameters
    let got = [intr.fx().f(), intr.fy().f(), intr.skew().f(), intr.cx().f(), intr.cy().f()];
    ensure(got == [k.fx, k.fy, k.skew, k.cx, k.cy], || format!("reported parameters {got:?} differ from {k:?}"))?;
    let p = intr.params();
    let got = [p.fx.f(), p.fy.f(), p.skew.f(), p.cx.f(), p.cy.f()];
    ensure(got == [k.fx, k.fy, k.skew, k.cx, k.cy], || format!("params() {got:?} differ from {k:?}"))?;

    let (ext, pose) = mk_pose::<R>(&c.pose);
    let rows = c.pts.rows();
    // camera frame
    o.group("camera-frame");
    let cam_rows: Vec<[f64; 3]> = rows.iter().map(|p| rnd3::<R>(cam_pt(p))).collect();
    let out = with3(&cam_rows, c.layout, &mut CamToPix(&intr));
    ensure(out.len() == rows.len(), || format!("{} pixels for {} points", out.len(), rows.len()))?;
    for (i, (p, q)) in cam_rows.iter().zip(&out).enumerate() {
        match k.project(dd::v3(*p), 0.0, R::EPS) {
            Some(m) => close2(o, &|| format!("{} camera_to_pixel row {i} of {p:?}", R::NAME), *q, &m)?,
            None => o.skipped += 2,
        }
    }
    // world frame
    o.group("world-frame");
    let cam = Camera::new(intr, ext);
    let wrows: Vec<[f64; 3]> = rows.iter().map(|p| world_pt::<R>(p, &pose)).collect();
    let out = world_to_pix(&cam, &wrows, c.layout);
    ensure(out.len() == rows.len(), || format!("{} pixels for {} points", out.len(), rows.len()))?;
    for (i, (p, q)) in wrows.iter().zip(&out).enumerate() {
        let pc = pose.to_cam(dd::v3(*p));
        match k.project(pc, e_frame(*p, &pose, R::EPS), R::EPS) {
            Some(m) => {
                close2(o, &|| format!("{} world_to_pixel row {i} of {p:?}", R::NAME), *q, &m)?;
                o.nontrivial |= m.tol[0] < 1.0 && m.tol[1] < 1.0;
                o.lab_if(pc[2].f() < 0.0, "behind camera");
                o.lab_if(k.skew != 0.0 && pc[1].f() != 0.0, "skew active");
            }
            None => o.skipped += 2,
        }
    }
    o.label(R::NAME);
    o.lab_if(k.fx < 0.0, "fx < 0");
    o.lab_if(k.fy < 0.0, "fy < 0");
    Ok(())
}

impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "random perspective intrinsics, pose, batch of points (camera-frame slopes/depth or raw world coordinates) in a random matrix storage, f32 or f64; non-trivial: at least one point off the principal plane whose error bound is below one pixel";
    const ASSUME: &'static [&'static str] = &["the double-double pinhole model is the specification"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 60_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        in_units((prec(), persp(), pose(), batch(pt, nrows()), layout())
            .prop_map(|(prec, k, pose, pts, layout)| Case { prec, k, pose, pts, layout }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C01>()
}
