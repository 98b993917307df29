use cam_geom::*;
use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use nalgebra::SMatrix;
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CamC {
    k: IntrC,
    /// viewing direction towards the point, distance to it, roll, and slopes
    /// (perspective) or offset (orthographic) at which it is seen
    dir: [f64; 3],
    dist: f64,
    roll: f64,
    seen: [f64; 2],
    /// use this pose instead
    pose: Option<PoseC>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    p: [f64; 3],
    cams: Vec<CamC>,
}
struct C17;

enum Cam<R: Real> {
    P(Camera<R, IntrinsicParametersPerspective<R>>),
    O(Camera<R, IntrinsicParametersOrthographic<R>>),
}
impl<R: Real> Cam<R> {
    fn project(&self, p: [f64; 3]) -> Pixels<R, nalgebra::U1, nalgebra::Owned<R, nalgebra::U1, nalgebra::U2>> {
        let w = Points::new(SMatrix::<R, 1, 3>::new(R::of(p[0]), R::of(p[1]), R::of(p[2])));
        match self {
            Cam::P(c) => c.world_to_pixel(&w),
            Cam::O(c) => c.world_to_pixel(&w),
        }
    }
}

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let p = rnd3::<R>(c.p);
    let mut rays = vec![];
    let mut rc = vec![];
    let mut cams = vec![];
    let mut miss = 0.0;
    let (mut np, mut no) = (0, 0);
    for cc in &c.cams {
        let k = rnd_i::<R>(&cc.k);
        let pc = cc.pose.unwrap_or_else(|| {
            // rotation taking `dir` to +z, rolled
            let n = n3(cc.dir);
            let d = cc.dir.map(|x| x / n);
            // quaternion turning d into z: (1 + d.z, d x z)
            let mut q = [1.0 + d[2], d[1], -d[0], 0.0];
            if q[0] < 1e-6 {
                q = [0.0, 1.0, 0.0, 0.0];
            }
            let (s, cr) = (cc.roll / 2.0).sin_cos();
            // roll about z, applied after
            let q = [
                cr * q[0] - s * q[3],
                cr * q[1] - s * q[2],
                cr * q[2] + s * q[1],
                cr * q[3] + s * q[0],
            ];
            let x = [cc.seen[0] * cc.dist, cc.seen[1] * cc.dist, cc.dist];
            let r = dd::rotmat(q);
            let c = dd::sub(dd::v3(p), dd::mtv(&r, dd::v3(x)));
            PoseC { q, c: dd::fl3(c) }
        });
        let (ext, pose) = mk_pose::<R>(&pc);
        let cam: Cam<R> = if k.ortho {
            no += 1;
            Cam::O(Camera::new(mk_ortho::<R>(&k), ext))
        } else {
            np += 1;
            Cam::P(Camera::new(mk_persp::<R>(&k), ext))
        };
        let x = pose.to_cam(dd::v3(p));
        let ef = e_frame(p, &pose, eps);
        let Some(m) = k.project(x, ef, eps) else {
            o.skipped += 1;
            return Ok(());
        };
        let px = cam.project(p);
        let ray = match &cam {
            Cam::P(c) => c.pixel_to_world(&px).to_single_ray(),
            Cam::O(c) => c.pixel_to_world(&px).to_single_ray(),
        };
        // how far the back-projected ray may pass from the point (as in C07)
        let (_, e) = k.unproject(m.u, eps);
        let sy = m.tol[1] / k.fy.abs() + e[1];
        let sx = (m.tol[0] + k.skew.abs() * sy) / k.fx.abs() + e[0];
        let lat = (sx * sx + sy * sy).sqrt() * if k.ortho { 1.0 } else { x[2].f().abs() };
        miss += lat + K * (ef + eps * 2.0 * pose.cn);
        // reference line: from the exact model
        let d = if k.ortho { dd::mtv(&pose.r, dd::v3([0.0, 0.0, 1.0])) } else { dd::sub(dd::v3(p), pose.c) };
        let org = if k.ortho {
            dd::sub(dd::v3(p), dd::scale(d, x[2]))
        } else {
            pose.c
        };
        rc.push(RayC { c: dd::fl3(org), d: dd::fl3(d) });
        rays.push(ray);
        cams.push((cam, k, pose, px));
    }
    let mut l = lsq(&rc);
    o.label(R::NAME);
    if l.sigma < 1e-6 || !(K * eps * l.n < l.sigma / 16.0) || !(miss < l.sigma * 1e6) {
        o.label("too parallel");
        o.skipped += 1;
        return Ok(());
    }
    l.x = dd::v3(p);
    let tol = 2.0 * miss / l.sigma + 2.0 * K * l.err(eps);
    let q = best_intersection_of_rays(&rays).map_err(|e| format!("{} intersection of {} rays failed: {e}", R::NAME, rays.len()))?;
    let q = rows3(&q.data)[0];
    o.group("point");
    close3(o, &|| format!("{} point triangulated from {} cameras (smallest eigenvalue {:e})", R::NAME, rays.len(), l.sigma), q, dd::v3(p), tol)?;
    o.group("reprojection");
    for (i, (cam, k, pose, px)) in cams.iter().enumerate() {
        let x = pose.to_cam(dd::v3(p));
        let Some(mut m) = k.project(x, e_frame(p, pose, eps) * 2.0 + 2.0 * tol / K, eps) else {
            o.skipped += 2;
            continue;
        };
        let want = rows2(&px.data)[0];
        m.u = want;
        let got = rows2(&cam.project(q).data)[0];
        close2(o, &|| format!("{} reprojection into camera {i} of {}", R::NAME, cams.len()), got, &m)?;
    }
    o.nontrivial = tol < 1e-2 * (n3(p) + l.csum / l.n);
    o.lab_if(np > 0 && no > 0, "mixed models");
    o.lab_if(np > 1 && no == 0, "perspective only");
    o.lab_if(no > 1 && np == 0, "orthographic only");
    o.lab_if(rays.len() > 2, "more than two cameras");
    Ok(())
}

impl Prop for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "a world point, 2..6 (sometimes up to 1500) cameras of mixed models placed so that they see it (or anywhere), projected, back-projected, intersected, reprojected; non-trivial: bound below 1% of the coordinates";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let dist = prop_oneof![4 => 0.5..30.0f64, 1 => logmag(-2.0, 4.0), 1 => -20.0..-0.5f64];
        let cam = (intr(), dirvec(), dist, angle(), [-0.8..0.8f64, -0.8..0.8f64], proptest::option::weighted(0.15, pose()))
            .prop_map(|(k, dir, dist, roll, seen, pose)| CamC { k, dir, dist, roll, seen, pose })
            .boxed();
        let ncam = prop_oneof![60 => 2usize..=6, 2 => 7usize..=16, 1 => nray()];
        let cams = ncam.prop_flat_map(move |n| proptest::collection::vec(cam.clone(), n));
        in_units((prec(), vec3(coord), cams)
            .prop_map(|(prec, p, cams)| Case { prec, p, cams }), |c| c.prec, |c, s| {
            c.p.rescale(s);
            c.cams.iter_mut().for_each(|k| {
                k.dist.rescale(s);
                k.pose.rescale(s);
            });
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C17>()
}
