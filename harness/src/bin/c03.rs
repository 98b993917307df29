use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    pose: PoseC,
    /// build the pose from an isometry instead of rotation and centre
    from_iso: bool,
    pts: Batch<PtC>,
    layout: Layout,
}
struct C03;

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let (ext, pose) = if c.from_iso {
        let (iso, r, t) = mk_iso::<R>(c.pose.q, c.pose.c);
        let cc = dd::scale(dd::mtv(&r, t), dd::Dd::new(-1.0));
        (cam_geom::ExtrinsicParameters::from_pose(&iso), PoseM::new(r, cc))
    } else {
        mk_pose::<R>(&c.pose)
    };
    let eps = R::EPS;
    let rows = c.pts.rows();
    let w: Vec<[f64; 3]> = rows.iter().map(|p| world_pt::<R>(p, &pose)).collect();
    let k: Vec<[f64; 3]> = rows.iter().map(|p| rnd3::<R>(cam_pt(p))).collect();
    let w2c = |x: &[[f64; 3]]| with3(x, c.layout, &mut WorldToCam(&ext));
    let c2w = |x: &[[f64; 3]]| with3(x, c.layout, &mut CamToWorld(&ext));
    let tol = |p: &[f64; 3]| K * eps * (n3(*p) + pose.cn);

    o.group("world_to_camera");
    let wc = w2c(&w);
    ensure(wc.len() == w.len(), || format!("{} rows for {}", wc.len(), w.len()))?;
    for i in 0..w.len() {
        let want = pose.to_cam(dd::v3(w[i]));
        close3(o, &|| format!("{} world_to_camera row {i} of {:?}", R::NAME, w[i]), wc[i], want, tol(&w[i]))?;
        o.nontrivial |= n3(w[i]) + pose.cn > 0.0;
    }
    o.group("camera_to_world");
    let cw = c2w(&k);
    ensure(cw.len() == k.len(), || format!("{} rows for {}", cw.len(), k.len()))?;
    for i in 0..k.len() {
        let want = pose.to_world(dd::v3(k[i]));
        close3(o, &|| format!("{} camera_to_world row {i} of {:?}", R::NAME, k[i]), cw[i], want, tol(&k[i]))?;
    }
    // consequences, on the library's own results
    o.group("round trip");
    let back = c2w(&wc);
    let back2 = w2c(&cw);
    for i in 0..w.len() {
        close3(o, &|| format!("{} world->camera->world row {i}", R::NAME), back[i], dd::v3(w[i]), 2.0 * tol(&w[i]))?;
        close3(o, &|| format!("{} camera->world->camera row {i}", R::NAME), back2[i], dd::v3(k[i]), 2.0 * tol(&k[i]))?;
    }
    o.group("distances and handedness");
    if w.len() >= 2 {
        for i in 1..w.len() {
            let d0 = vn(dd::sub(dd::v3(w[i]), dd::v3(w[0])));
            let d1 = vn(dd::sub(dd::v3(wc[i]), dd::v3(wc[0])));
            o.close(&|| format!("distance rows 0,{i}"), d1, d0, 2.0 * (tol(&w[i]) + tol(&w[0])))?;
        }
    }
    if w.len() >= 4 {
        let vol = |a: &[[f64; 3]]| {
            let e: Vec<_> = (1..4).map(|j| dd::sub(dd::v3(a[j]), dd::v3(a[0]))).collect();
            let s = vn(e[0]).max(vn(e[1])).max(vn(e[2]));
            (dd::det(&[e[0], e[1], e[2]]).f(), s)
        };
        let ((v0, s0), (v1, s1)) = (vol(&w), vol(&wc));
        let s = s0.max(s1);
        let t = (0..4).map(|j| tol(&w[j])).fold(0.0, f64::max);
        o.close(&|| "signed volume of four points".into(), v1, v0, 12.0 * s * s * t)?;
        o.lab_if(v0.abs() > 24.0 * s * s * t, "volume resolved");
    }
    o.group("centre and origin");
    let cc = p3_of(ext.camcenter());
    let z = w2c(&[cc]);
    close3(o, &|| "camera centre in camera frame".into(), z[0], dd::v3([0.0; 3]), 2.0 * tol(&cc))?;
    let z = c2w(&[[0.0; 3]]);
    close3(o, &|| "camera origin in world frame".into(), z[0], dd::v3(cc), 2.0 * tol(&cc))?;
    o.label(R::NAME);
    o.lab_if(c.from_iso, "from isometry");
    o.lab_if(pose.cn > 1e4, "far camera");
    Ok(())
}

impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "random pose (rotation and centre, or isometry), batch of points in random storage, both directions, both round trips; non-trivial: a point or centre away from the origin";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        in_units((prec(), pose(), any::<bool>(), batch(pt, nrows()), layout())
            .prop_map(|(prec, pose, from_iso, pts, layout)| Case { prec, pose, from_iso, pts, layout }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C03>()
}
