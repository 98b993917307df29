use cam_geom::*;
use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: OrthoC,
    pose: PoseC,
    pts: Batch<PtC>,
    /// depth given to the points for the camera-frame check
    z: f64,
    layout: Layout,
}
struct C02;

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let k = rnd_o::<R>(&c.k);
    let intr = mk_ortho::<R>(&k);
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let rows = c.pts.rows();
    o.group("camera-frame");
    let mut cam_rows: Vec<[f64; 3]> = rows.iter().map(|p| rnd3::<R>(cam_pt(p))).collect();
    for pass in 0..2 {
        if pass == 1 {
            // the same points at another, possibly extreme, depth
            for r in cam_rows.iter_mut() {
                r[2] = rnd::<R>(c.z.clamp(-1e38, 1e38));
            }
        }
        let out = with3(&cam_rows, c.layout, &mut CamToPix(&intr));
        ensure(out.len() == rows.len(), || format!("{} pixels for {} points", out.len(), rows.len()))?;
        for (i, (p, q)) in cam_rows.iter().zip(&out).enumerate() {
            let m = k.project(dd::v3(*p), 0.0, R::EPS).unwrap();
            close2(o, &|| format!("{} camera_to_pixel row {i} of {p:?}", R::NAME), *q, &m)?;
        }
    }
    o.group("world-frame");
    let cam = Camera::new(intr, ext);
    let wrows: Vec<[f64; 3]> = rows.iter().map(|p| world_pt::<R>(p, &pose)).collect();
    let out = world_to_pix(&cam, &wrows, c.layout);
    ensure(out.len() == rows.len(), || format!("{} pixels for {} points", out.len(), rows.len()))?;
    for (i, (p, q)) in wrows.iter().zip(&out).enumerate() {
        let pc = pose.to_cam(dd::v3(*p));
        let m = k.project(pc, e_frame(*p, &pose, R::EPS), R::EPS).unwrap();
        close2(o, &|| format!("{} world_to_pixel row {i} of {p:?}", R::NAME), *q, &m)?;
        o.nontrivial |= m.tol[0] < 1.0 && m.tol[1] < 1.0;
        o.lab_if(pc[2].f() < 0.0, "behind camera");
        o.lab_if(pc[2].f() == 0.0, "on the camera plane");
    }
    o.label(R::NAME);
    o.lab_if(k.fx < 0.0 || k.fy < 0.0, "negative scale");
    o.lab_if(c.z.abs() > 1e10, "extreme depth");
    Ok(())
}

impl Prop for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "random orthographic intrinsics, pose, batch of points in a random matrix storage, each also at a second, possibly extreme, depth; non-trivial: at least one world point whose error bound is below one pixel";
    const ASSUME: &'static [&'static str] = &["the double-double parallel projection is the specification"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 60_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let z = prop_oneof![
            3 => depth(50),
            1 => Just(0.0),
            1 => signed(logmag(5.0, 38.0), 50),
            1 => signed(logmag(-40.0, -5.0), 50),
        ];
        in_units((prec(), ortho(), pose(), batch(pt, nrows()), z, layout())
            .prop_map(|(prec, k, pose, pts, z, layout)| Case { prec, k, pose, pts, z, layout }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C02>()
}
