use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{Dyn, OMatrix, SMatrix, U3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: IntrC,
    pose: PoseC,
    pts: Batch<PtC>,
    /// all points in one call
    together: bool,
}
struct C07;

fn model<R: Real, I: IntrinsicParameters<R>>(c: &Case, k: &KM, intr: I, o: &mut Obs) -> Res
where
    I::BundleType: Bundle<R>,
{
    let eps = R::EPS;
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let cam = Camera::new(intr, ext);
    let w: Vec<[f64; 3]> = c.pts.rows().iter().map(|p| world_pt::<R>(p, &pose)).collect();
    let all = c.together.then(|| {
        let m = OMatrix::<R, Dyn, U3>::from_fn(w.len(), |i, j| R::of(w[i][j]));
        let rays = cam.pixel_to_world(&cam.world_to_pixel(&Points::<WorldFrame, R, _, _>::new(m)));
        // two points of each ray
        let far = w.iter().map(|p| n3(dd::fl3(pose.to_cam(dd::v3(*p))))).fold(pose.cn, f64::max);
        let far = rnd::<R>(if far > 0.0 { far } else { 1.0 });
        let at = |d: f64| rows3(&rays.point_on_ray_at_distance(R::of(d)).data);
        (at(0.0), at(far), far)
    });
    if let Some((a, b, _)) = &all {
        ensure(a.len() == w.len() && b.len() == w.len(), || "row count".into())?;
    }
    for (i, p) in w.iter().enumerate() {
        let one;
        let (org, dir, more) = match &all {
            Some((a, b, far)) => {
                // the two points are rounded
                let long = n3(dd::fl3(pose.to_cam(dd::v3(*p))));
                let t = K * eps * (2.0 * pose.cn + n3(a[i]) + far) * (1.0 + long / far);
                if !(K * eps * (2.0 * pose.cn + n3(a[i]) + far) < far / 8.0) {
                    o.skipped += 1;
                    continue;
                }
                (dd::v3(a[i]), dd::sub(dd::v3(b[i]), dd::v3(a[i])), t)
            }
            None => {
                let world = Points::<WorldFrame, R, _, _>::new(SMatrix::<R, 1, 3>::new(R::of(p[0]), R::of(p[1]), R::of(p[2])));
                one = cam.pixel_to_world(&cam.world_to_pixel(&world)).to_single_ray();
                (dd::v3(rows3(&one.center)[0]), dd::v3(rows3(&one.direction)[0]), 0.0)
            }
        };
        let pc = pose.to_cam(dd::v3(*p));
        let ef = e_frame(*p, &pose, eps);
        let Some(m) = k.project(pc, ef, eps) else {
            o.skipped += 1;
            continue;
        };
        let (_, e) = k.unproject(m.u, eps);
        // pixel uncertainty mapped back to camera-frame slopes (or offsets)
        let sy = m.tol[1] / k.fy.abs() + e[1];
        let sx = (m.tol[0] + k.skew.abs() * sy) / k.fx.abs() + e[0];
        let lat = (sx * sx + sy * sy).sqrt() * if k.ortho { 1.0 } else { pc[2].f().abs() };
        let tol = lat + K * (ef + eps * 2.0 * pose.cn) + more;
        let rel = dd::sub(dd::v3(*p), org);
        let dist = (dd::norm(dd::cross(rel, dir)) / dd::norm(dir)).f();
        o.group("distance to line");
        o.small(&|| format!("{} distance of point {p:?} from its pixel's ray (row {i})", R::NAME), dist, tol)?;
        let depth = pc[2].f();
        if !k.ortho {
            let along = dd::dot(rel, dir).f() / vn(dir);
            let size = vn(pc);
            // decided only when the foot point is clearly away from the origin
            if size > 4.0 * tol {
                ensure((along > 0.0) == (depth > 0.0), || {
                    format!("{} point {p:?} at depth {depth:e} lies at signed ray distance {along:e}", R::NAME)
                })?;
                o.lab_if(depth < 0.0, "behind camera");
            }
            o.nontrivial |= tol < 1e-2 * size;
        } else {
            let along = (dd::dot(rel, dir) / dd::norm(dir)).f();
            o.close(&|| format!("{} depth along ray of {p:?}", R::NAME), along, depth, tol)?;
            o.nontrivial |= tol < 1e-2 * (1.0 + n3(*p));
        }
    }
    let _ = Dd::ZERO;
    o.label(R::NAME);
    o.lab_if(c.together && w.len() > 1, "as one batch");
    o.label(if k.ortho { "orthographic" } else { "perspective" });
    Ok(())
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let k = rnd_i::<R>(&c.k);
    if k.ortho {
        model(c, &k, mk_ortho::<R>(&k), o)
    } else {
        model(c, &k, mk_persp::<R>(&k), o)
    }
}

impl Prop for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "random camera of either model and world points, in one call each or as one batch; project, back-project, measure distance to the line; non-trivial: bound below 1% of the point's distance";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        in_units((prec(), intr(), pose(), batch(pt, nrows()), any::<bool>())
            .prop_map(|(prec, k, pose, pts, together)| Case { prec, k, pose, pts, together }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C07>()
}
