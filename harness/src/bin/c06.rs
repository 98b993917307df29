use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, Matrix, SMatrix, Storage, U2, U3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: IntrC,
    pose: PoseC,
    pix: Batch<PixC>,
    dist: [f64; 2],
    layout: Layout,
}
struct C06;

/// rays at distances, and the library's reprojection of those points
struct Op<'a, R: Real, I: IntrinsicParameters<R>> {
    cam: &'a Camera<R, I>,
    dist: [f64; 2],
}
struct Out {
    /// per distance: camera-frame point, its reprojection, world point, its reprojection
    at: Vec<(Vec<[f64; 3]>, Vec<[f64; 2]>, Vec<[f64; 3]>, Vec<[f64; 2]>)>,
    cam_data: Vec<[f64; 3]>,
}
impl<'a, R: Real, I: IntrinsicParameters<R>> Fn2<R> for Op<'a, R, I>
where
    I::BundleType: Bundle<R>,
{
    type Out = Out;
    fn call<N: Dim, S: Storage<R, N, U2>>(&mut self, m: Matrix<R, N, U2, S>) -> Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        let px = Pixels::new(m);
        let rc = self.cam.intrinsics().pixel_to_camera(&px);
        let rw = self.cam.pixel_to_world(&px);
        let mut at = vec![];
        for d in self.dist.iter().map(|d| Some(*d)).chain([None]) {
            let (pc, pw) = match d {
                Some(d) => (rc.point_on_ray_at_distance(R::of(d)), rw.point_on_ray_at_distance(R::of(d))),
                None => (rc.point_on_ray(), rw.point_on_ray()),
            };
            let uc = self.cam.intrinsics().camera_to_pixel(&pc);
            let uw = self.cam.world_to_pixel(&pw);
            at.push((rows3(&pc.data), rows2(&uc.data), rows3(&pw.data), rows2(&uw.data)));
        }
        Out { at, cam_data: rows3(&rc.data) }
    }
}

fn model<R: Real, I: IntrinsicParameters<R>>(c: &Case, k: &KM, intr: I, o: &mut Obs) -> Res
where
    I::BundleType: Bundle<R>,
{
    let eps = R::EPS;
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let cam = Camera::new(intr, ext);
    let pix: Vec<[f64; 2]> = c
        .pix
        .rows()
        .iter()
        .map(|p| {
            let q = k.pix_of(p);
            [rnd::<R>(q[0]), rnd::<R>(q[1])]
        })
        .collect();
    let n = pix.len();
    let dist = [rnd::<R>(c.dist[0]), rnd::<R>(c.dist[1])];
    let out = with2(&pix, c.layout, &mut Op { cam: &cam, dist });
    ensure(out.cam_data.len() == n && out.at.iter().all(|a| a.0.len() == n && a.1.len() == n && a.2.len() == n && a.3.len() == n), || {
        "row count differs from the number of pixels".into()
    })?;
    for i in 0..n {
        let (ray, e) = k.unproject(pix[i], eps);
        let ctx = |s: &str| format!("{} {s}, pixel {:?} row {i}", R::NAME, pix[i]);
        // ray origin and direction, camera frame
        o.group("camera ray");
        for j in 0..3 {
            o.close(&|| ctx("camera ray data"), out.cam_data[i][j], ray[j].f(), e[j])?;
        }
        let (origin, dir) =
            if k.ortho { (ray, dd::v3([0.0, 0.0, 1.0])) } else { ([Dd::ZERO; 3], ray) };
        let dl = vn(dir);
        let en = (e[0] * e[0] + e[1] * e[1]).sqrt();
        if !k.ortho && !(en < dl / 64.0) {
            o.skipped += 1;
            continue;
        }
        // one-row view of the same ray, world and camera frame
        let one = Pixels::new(SMatrix::<R, 1, 2>::new(R::of(pix[i][0]), R::of(pix[i][1])));
        if i < 6 {
            let rc = cam.intrinsics().pixel_to_camera(&one);
            let rw = cam.pixel_to_world(&one);
            let wo = pose.to_world(origin);
            let wd = dd::mtv(&pose.r, dir);
            let to = K * eps * (vn(origin) + 2.0 * pose.cn) + if k.ortho { en } else { 0.0 };
            let td = K * eps * dl + if k.ortho { 0.0 } else { en };
            o.group("origins and directions");
            let (cs, dsx) = (rows3(&rc.centers()), rows3(&rc.directions()));
            for j in 0..3 {
                o.close(&|| ctx("camera-frame origin"), cs[0][j], origin[j].f(), if k.ortho { e[j] } else { 0.0 })?;
                o.close(&|| ctx("camera-frame direction"), dsx[0][j], dir[j].f(), if k.ortho { 0.0 } else { e[j] })?;
            }
            close3(o, &|| ctx("world-frame origin"), rows3(&rw.centers())[0], wo, to)?;
            close3(o, &|| ctx("world-frame direction"), rows3(&rw.directions())[0], wd, td)?;
            let s = rw.to_single_ray();
            close3(o, &|| ctx("single world ray origin"), rows3(&s.center)[0], wo, to)?;
            close3(o, &|| ctx("single world ray direction"), rows3(&s.direction)[0], wd, td)?;
        }
        // points along the ray
        for (w, a) in out.at.iter().enumerate() {
            // ideal distance; for point_on_ray take the distance it chose
            let d = match w {
                0 | 1 => Dd::new(dist[w]),
                _ => {
                    let p = dd::sub(dd::v3(a.0[i]), origin);
                    let d = dd::dot(p, dir) / dd::norm(dir);
                    ensure(d.f() > 0.0, || ctx(&format!("point_on_ray {:?} not on the positive half", a.0[i])))?;
                    d
                }
            };
            let s = d / dd::norm(dir);
            let pc = dd::add(origin, dd::scale(dir, s));
            let da = d.f().abs();
            // error from the direction or origin, and of evaluating
            let edir = if k.ortho { en } else { en * s.f().abs() };
            let tc = K * eps * (da + vn(origin)) + 2.0 * edir;
            o.group("camera point");
            close3(o, &|| ctx(&format!("camera point {w}")), a.0[i], pc, tc)?;
            let pw = pose.to_world(pc);
            let mag = da + vn(origin) + 2.0 * pose.cn;
            if w < 2 {
                o.group("world point");
                close3(o, &|| ctx(&format!("world point {w}")), a.2[i], pw, K * eps * mag + 2.0 * edir)?;
            }
            // round trip to the pixel; pixel-space effect of the direction error
            let extra = [2.0 * (k.fx.abs() * e[0] + k.skew.abs() * e[1]), 2.0 * k.fy.abs() * e[1]];
            o.group("camera round trip");
            match k.project(pc, eps * (da + vn(origin)), eps) {
                Some(mut m) => {
                    m.u = pix[i];
                    m.tol[0] += extra[0];
                    m.tol[1] += extra[1];
                    close2(o, &|| ctx(&format!("camera round trip at point {w}")), a.1[i], &m)?;
                }
                None => o.skipped += 2,
            }
            o.group("world round trip");
            // world point chosen by point_on_ray may be at another distance
            let pcw = if w < 2 { pc } else { pose.to_cam(dd::v3(a.2[i])) };
            match k.project(pcw, eps * (n3(a.2[i]) + 2.0 * mag), eps) {
                Some(mut m) => {
                    m.u = pix[i];
                    m.tol[0] += extra[0];
                    m.tol[1] += extra[1];
                    close2(o, &|| ctx(&format!("world round trip at point {w} {:?}", a.2[i])), a.3[i], &m)?;
                    o.nontrivial |= m.tol[0] < 1.0 && m.tol[1] < 1.0;
                    o.lab_if(d.f() < 0.0, "negative distance");
                }
                None => o.skipped += 2,
            }
        }
    }
    o.label(R::NAME);
    o.label(if k.ortho { "orthographic" } else { "perspective" });
    Ok(())
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let k = rnd_i::<R>(&c.k);
    if k.ortho {
        model(c, &k, mk_ortho::<R>(&k), o)
    } else {
        model(c, &k, mk_persp::<R>(&k), o)
    }
}

impl Prop for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "random camera of either model, batch of pixels in random storage, two signed distances plus point_on_ray; non-trivial: a world round trip whose bound is below one pixel";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        in_units((prec(), intr(), pose(), batch(pix, nrows()), [distance(), distance()], layout())
            .prop_map(|(prec, k, pose, pix, dist, layout)| Case { prec, k, pose, pix, dist, layout }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.dist.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C06>()
}
