use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use camcheck::{by_prec, driver::*, gen::*, model::*};
use nalgebra::{DefaultAllocator, Dyn, Isometry3, OMatrix, Owned, Point3, Quaternion, SMatrix, Translation3, Unit, UnitQuaternion, Vector3, U1, U2, U3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wild {
    prec: Prec,
    /// fx, fy, skew, cx, cy (sx, sy, cx, cy)
    k: [u64; 5],
    q: [u64; 4],
    /// normalise the quaternion and the up vector
    unit: bool,
    c: [u64; 3],
    lookat: [u64; 3],
    up: [u64; 3],
    rows: Vec<[u64; 3]>,
    d: u64,
    m: Vec<u64>,
}
/// the one thing that is undefined
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    /// coordinate j of the point is NaN
    CameraPoint(u8),
    WorldPoint(u8),
    /// coordinate j of the camera centre
    Centre(u8),
    /// component of the quaternion
    Quat(u8),
    /// exactly in the principal plane, camera and world frame
    ZeroDepth,
    ZeroDepthWorld,
    /// the camera centre itself
    AtCentre,
    /// pixel component
    Pixel(u8),
    /// intrinsic parameter (fx, fy, skew, cx, cy)
    Param(u8),
    /// focal length or scale zero, back-projecting
    ZeroFocal(u8),
    Distance,
    /// ray without a direction
    ZeroDirection,
    RayStart(u8),
    RayDirection(u8),
    /// look-at point equal to the camera centre
    ViewNowhere,
    ViewNan(u8),
    MatrixNan(u8),
    MatrixZero,
    /// ray of an intersection: start, direction, no direction
    IntersectStart(u8),
    IntersectDirection(u8),
    IntersectZero,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Undef {
    prec: Prec,
    k: IntrC,
    pose: PoseC,
    pts: Vec<PtC>,
    px: PixC,
    what: What,
    /// which row, and how many
    row: usize,
    n: usize,
    /// the bits of the NaN beyond the quiet one
    nan: u64,
    d: f64,
    dirs: Vec<[f64; 3]>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Wild(Wild),
    Undef(Undef),
}
struct C28;
type Pts<R, F> = Points<F, R, Dyn, Owned<R, Dyn, U3>>;

fn m3<R: Real>(rows: &[[R; 3]]) -> OMatrix<R, Dyn, U3> {
    OMatrix::<R, Dyn, U3>::from_fn(rows.len(), |i, j| rows[i][j])
}
fn m2<R: Real>(rows: &[[R; 2]]) -> OMatrix<R, Dyn, U2> {
    OMatrix::<R, Dyn, U2>::from_fn(rows.len(), |i, j| rows[i][j])
}
fn count(what: &str, got: usize, want: usize) -> Res {
    ensure(got == want, || format!("{what}: {got} rows out of {want}"))
}

// ------------------------------------------------ any bits: no panic, all rows

fn every_op<R: Real, I: IntrinsicParameters<R> + PartialEq>(k: I, e: &ExtrinsicParameters<R>, rows: &[[R; 3]], d: R) -> Result<u64, String>
where
    I::BundleType: Bundle<R> + std::fmt::Debug,
    DefaultAllocator: nalgebra::allocator::Allocator<Dyn, U2>,
{
    let n = rows.len();
    let cam = Camera::new(k.clone(), e.clone());
    let w: Pts<R, WorldFrame> = Points::new(m3(rows));
    let c: Pts<R, CameraFrame> = Points::new(m3(rows));
    let px = Pixels::new(m2(&rows.iter().map(|r| [r[0], r[1]]).collect::<Vec<_>>()));
    count("world_to_camera", e.world_to_camera(&w).data.nrows(), n)?;
    count("camera_to_world", e.camera_to_world(&c).data.nrows(), n)?;
    count("world_to_pixel", cam.world_to_pixel(&w).data.nrows(), n)?;
    count("camera_to_pixel", k.camera_to_pixel(&c).data.nrows(), n)?;
    let rc = k.pixel_to_camera(&px);
    let rw = cam.pixel_to_world(&px);
    count("pixel_to_camera", rc.data.nrows(), n)?;
    count("pixel_to_world", rw.data.nrows(), n)?;
    count("point_on_ray", rw.point_on_ray().data.nrows(), n)?;
    count("point_on_ray_at_distance", rw.point_on_ray_at_distance(d).data.nrows(), n)?;
    let mut rays = vec![];
    for r in rows {
        let w: SinglePoint<R> = Points::new(SMatrix::<R, 1, 3>::from_fn(|_, j| r[j]));
        cam.world_to_pixel(&w);
        let one = cam.pixel_to_world(&Pixels::new(SMatrix::<R, 1, 2>::new(r[0], r[1])));
        one.centers();
        one.directions();
        rays.push(one.to_single_ray());
    }
    let _ = best_intersection_of_rays(&rays);
    let same = cam.clone() == cam;
    let text = format!("{cam:?} {rw:?} {same}");
    Ok(14 + rays.len() as u64 + u64::from(text.is_empty()))
}
type SinglePoint<R> = Points<WorldFrame, R, U1, Owned<R, U1, U3>>;

fn wild<R: Real>(w: &Wild, o: &mut Obs) -> Res {
    let f = |b: u64| R::from_bits64(b);
    let v3 = |b: [u64; 3]| Vector3::new(f(b[0]), f(b[1]), f(b[2]));
    let q = Quaternion::new(f(w.q[0]), f(w.q[1]), f(w.q[2]), f(w.q[3]));
    let q = if w.unit { UnitQuaternion::from_quaternion(q) } else { Unit::new_unchecked(q) };
    let up = if w.unit { Unit::new_normalize(v3(w.up)) } else { Unit::new_unchecked(v3(w.up)) };
    let rows: Vec<[R; 3]> = w.rows.iter().map(|r| r.map(f)).collect();
    let d = f(w.d);
    let kp: IntrinsicParametersPerspective<R> =
        PerspectiveParams { fx: f(w.k[0]), fy: f(w.k[1]), skew: f(w.k[2]), cx: f(w.k[3]), cy: f(w.k[4]) }.into();
    let ko: IntrinsicParametersOrthographic<R> =
        OrthographicParams { sx: f(w.k[0]), sy: f(w.k[1]), cx: f(w.k[3]), cy: f(w.k[4]) }.into();
    let c = Point3::from(v3(w.c));
    let poses = [
        ExtrinsicParameters::from_rotation_and_camcenter(q, c),
        ExtrinsicParameters::from_pose(&Isometry3::from_parts(Translation3::from(v3(w.c)), q)),
        ExtrinsicParameters::from_view(&v3(w.c), &v3(w.lookat), &up),
    ];
    for e in &poses {
        o.compared += every_op(kp.clone(), e, &rows, d)?;
        o.compared += every_op(ko.clone(), e, &rows, d)?;
        let (_, _, _) = (e.forward(), e.up(), e.right());
        let cam = Camera::new(kp.clone(), e.clone());
        let m = cam.as_camera_matrix();
        if let Ok(cam) = Camera::from_perspective_matrix(&m) {
            o.compared += every_op(cam.intrinsics().clone(), cam.extrinsics(), &rows, d)?;
        }
        let lin = JacobianPerspectiveCache::new(&cam);
        for r in &rows {
            let p: SinglePoint<R> = Points::new(SMatrix::<R, 1, 3>::from_fn(|_, j| r[j]));
            lin.linearize_at(&p);
        }
        for shared in [true, false] {
            let r = rows[0];
            let m = m3(&rows);
            if shared {
                let Some(b) = with_shared(&mk_origin_bundle::<R>([0.0; 3]), r) else { continue };
                let _ = b.to_pose::<_, _, WorldFrame>(*e.pose(), &m);
                b.point_on_ray_at_distance::<_, _, WorldFrame>(&m, d);
            } else {
                let Some(b) = with_shared(&mk_direction_bundle::<R>([0.0; 3]), r) else { continue };
                let _ = b.to_pose::<_, _, WorldFrame>(*e.pose(), &m);
                b.point_on_ray_at_distance::<_, _, WorldFrame>(&m, d);
            }
        }
    }
    let m = SMatrix::<R, 3, 4>::from_fn(|i, j| f(w.m[(4 * i + j) % w.m.len()]));
    if let Ok(cam) = Camera::from_perspective_matrix(&m) {
        o.compared += every_op(cam.intrinsics().clone(), cam.extrinsics(), &rows, d)?;
    }
    if let Ok(k) = IntrinsicParametersPerspective::from_normalized_3x4_matrix(m) {
        o.compared += every_op(k, &poses[0], &rows, d)?;
    }
    o.nontrivial = true;
    o.label("arbitrary bits");
    o.label(R::NAME);
    Ok(())
}

// ---------------------------------------- undefined input: undefined output

fn finite<R: Real>(v: &[R]) -> bool {
    v.iter().all(|x| x.f().is_finite())
}
/// some component has to show it
fn shows<R: Real>(o: &mut Obs, what: &dyn Fn() -> String, v: &[R]) -> Res {
    o.compared += 1;
    ensure(!finite(v), || format!("{} {}: the result is undefined, but {v:?} came out", R::NAME, what()))
}
/// these components have to show it
fn each<R: Real>(o: &mut Obs, what: &dyn Fn() -> String, v: &[R], which: &[usize]) -> Res {
    for j in which {
        shows(o, &|| format!("{} (component {j})", what()), &[v[*j]])?;
    }
    Ok(())
}
fn row<R: Real, N: nalgebra::Dim, C: nalgebra::Dim, S: nalgebra::Storage<R, N, C>>(m: &nalgebra::Matrix<R, N, C, S>, i: usize) -> Vec<R> {
    (0..m.ncols()).map(|j| m[(i, j)]).collect()
}

fn undef<R: Real>(c: &Undef, o: &mut Obs) -> Res {
    let k = rnd_i::<R>(&c.k);
    if k.ortho {
        undef_in(c, &k, mk_ortho::<R>(&k), |k| mk_ortho::<R>(k), o)
    } else {
        undef_in(c, &k, mk_persp::<R>(&k), |k| mk_persp::<R>(k), o)
    }
}
fn undef_in<R: Real, I: IntrinsicParameters<R>>(c: &Undef, k: &KM, intr: I, mk: fn(&KM) -> I, o: &mut Obs) -> Res
where
    I::BundleType: Bundle<R>,
{
    let nan = R::from_bits64(match c.prec {
        Prec::F64 => f64::NAN.to_bits() | c.nan & 0x8007_ffff_ffff_ffff,
        Prec::F32 => u64::from(f32::NAN.to_bits()) | c.nan & 0x803f_ffff,
    });
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let n = c.n.max(1);
    let i = c.row % n;
    let ortho = k.ortho;
    let world_rows = |e: &dyn Fn(usize) -> [f64; 3]| -> Vec<[R; 3]> { (0..n).map(|i| e(i).map(R::of)).collect() };
    let mut w = world_rows(&|i| world_pt::<R>(&c.pts[i % c.pts.len()], &pose));
    let mut cf = world_rows(&|i| rnd3::<R>(cam_pt(&c.pts[i % c.pts.len()])));
    let px0 = k.pix_of(&c.px);
    let mut px: Vec<[R; 2]> = (0..n).map(|i| [R::of(px0[0] + i as f64), R::of(px0[1])]).collect();
    let what = || format!("{:?}, row {i} of {n}", c.what);
    let cam = Camera::new(intr.clone(), ext.clone());
    // does world coordinate j influence the pixel?
    let influences = |j: usize| !ortho || pose.r[0][j].f().abs() + pose.r[1][j].f().abs() > 1e-3;
    let jac = |cam: &ExtrinsicParameters<R>, p: [R; 3]| -> Option<Vec<R>> {
        if ortho {
            return None;
        }
        let cam = Camera::new(mk_persp::<R>(k), cam.clone());
        let p: SinglePoint<R> = Points::new(SMatrix::<R, 1, 3>::from_fn(|_, j| p[j]));
        Some(JacobianPerspectiveCache::new(&cam).linearize_at(&p).iter().copied().collect())
    };
    match c.what {
        What::CameraPoint(j) => {
            let j = j as usize % 3;
            cf[i][j] = nan;
            let p: Pts<R, CameraFrame> = Points::new(m3(&cf));
            shows(o, &|| format!("camera_to_world, {}", what()), &row(&ext.camera_to_world(&p).data, i))?;
            let u = row(&intr.camera_to_pixel(&p).data, i);
            let which: &[usize] = match (j, ortho) {
                (0, _) => &[0],
                (1, _) => &[1],
                (_, true) => &[],
                (_, false) => &[0, 1],
            };
            each(o, &|| format!("camera_to_pixel, {}", what()), &u, which)?;
        }
        What::WorldPoint(j) => {
            let j = j as usize % 3;
            w[i][j] = nan;
            let p: Pts<R, WorldFrame> = Points::new(m3(&w));
            shows(o, &|| format!("world_to_camera, {}", what()), &row(&ext.world_to_camera(&p).data, i))?;
            if influences(j) {
                shows(o, &|| format!("world_to_pixel, {}", what()), &row(&cam.world_to_pixel(&p).data, i))?;
            }
            if let Some(a) = jac(&ext, w[i]) {
                shows(o, &|| format!("linearize_at, {}", what()), &a)?;
            }
        }
        What::Centre(j) => {
            let j = j as usize % 3;
            let mut cc = c.pose.c.map(R::of);
            cc[j] = nan;
            let e = ExtrinsicParameters::from_rotation_and_camcenter(mk_quat::<R>(c.pose.q), cc.into());
            pose_shows(c, o, &e, "from_rotation_and_camcenter", &w, &cf, influences(j), &intr)?;
            if influences(j) {
                if let Some(a) = jac(&e, w[i]) {
                    shows(o, &|| format!("linearize_at, {}", what()), &a)?;
                }
            }
        }
        What::Quat(j) => {
            let mut q = c.pose.q.map(R::of);
            q[j as usize % 4] = nan;
            let q = Unit::new_unchecked(Quaternion::new(q[0], q[1], q[2], q[3]));
            let e = ExtrinsicParameters::from_rotation_and_camcenter(q, c.pose.c.map(R::of).into());
            shows(o, &|| format!("rotation, {}", what()), e.rotation().matrix().as_slice())?;
            shows(o, &|| format!("matrix, {}", what()), e.matrix().as_slice())?;
        }
        What::ZeroDepth => {
            cf[i][2] = R::of(if c.nan & 1 == 1 { -0.0 } else { 0.0 });
            let p: Pts<R, CameraFrame> = Points::new(m3(&cf));
            if !ortho {
                each(o, &|| format!("camera_to_pixel, {}", what()), &row(&intr.camera_to_pixel(&p).data, i), &[0, 1])?;
            }
        }
        What::ZeroDepthWorld | What::AtCentre => {
            // unrotated, so that the depth is exactly zero
            let cc = rnd3::<R>(c.pose.c).map(R::of);
            let e = ExtrinsicParameters::from_rotation_and_camcenter(UnitQuaternion::identity(), cc.into());
            w[i][2] = cc[2];
            if c.what == What::AtCentre {
                w[i] = cc;
            }
            if !ortho {
                let cam = Camera::new(intr.clone(), e.clone());
                let p: Pts<R, WorldFrame> = Points::new(m3(&w));
                each(o, &|| format!("world_to_pixel, {}", what()), &row(&cam.world_to_pixel(&p).data, i), &[0, 1])?;
            }
        }
        What::Pixel(j) => {
            let j = j as usize % 2;
            px[i][j] = nan;
            let p = Pixels::new(m2(&px));
            let r = row(&intr.pixel_to_camera(&p).data, i);
            each(o, &|| format!("pixel_to_camera, {}", what()), &r, &[j])?;
            let rw = cam.pixel_to_world(&p);
            shows(o, &|| format!("pixel_to_world, {}", what()), &row(&rw.data, i))?;
            shows(o, &|| format!("point on ray, {}", what()), &row(&rw.point_on_ray().data, i))?;
            shows(o, &|| format!("point on ray at distance, {}", what()), &row(&rw.point_on_ray_at_distance(R::of(c.d)).data, i))?;
            let one = cam.pixel_to_world(&Pixels::new(SMatrix::<R, 1, 2>::new(px[i][0], px[i][1]))).to_single_ray();
            let v: Vec<R> = one.center.iter().chain(one.direction.iter()).copied().collect();
            shows(o, &|| format!("to_single_ray, {}", what()), &v)?;
        }
        What::Param(j) => {
            let j = j as usize % if ortho { 4 } else { 5 };
            let mut k2 = k.clone();
            // order: fx fy cx cy skew
            *[&mut k2.fx, &mut k2.fy, &mut k2.cx, &mut k2.cy, &mut k2.skew][j] = nan.f();
            let bad = mk(&k2);
            let which: &[usize] = match j {
                0 | 2 | 4 => &[0],
                _ => &[1],
            };
            let p: Pts<R, CameraFrame> = Points::new(m3(&cf));
            each(o, &|| format!("camera_to_pixel, {}", what()), &row(&bad.camera_to_pixel(&p).data, i), which)?;
            let r = bad.pixel_to_camera(&Pixels::new(m2(&px)));
            each(o, &|| format!("pixel_to_camera, {}", what()), &row(&r.data, i), which)?;
            if !ortho {
                let kb = mk_persp::<R>(&k2);
                let cam = Camera::new(kb, ext.clone());
                shows(o, &|| format!("as_camera_matrix, {}", what()), cam.as_camera_matrix().as_slice())?;
            }
        }
        What::ZeroFocal(j) => {
            let j = j as usize % 2;
            let mut k2 = k.clone();
            *[&mut k2.fx, &mut k2.fy][j] = 0.0;
            let r = mk(&k2).pixel_to_camera(&Pixels::new(m2(&px)));
            each(o, &|| format!("pixel_to_camera, {}", what()), &row(&r.data, i), &[j])?;
        }
        What::Distance | What::ZeroDirection | What::RayStart(_) | What::RayDirection(_) => rays(c, o, nan, n, i, &ext)?,
        What::ViewNowhere | What::ViewNan(_) => {
            let cc = rnd3::<R>(c.pose.c).map(R::of);
            let mut at = rnd3::<R>([0, 1, 2].map(|j| c.pose.c[j] + c.dirs[0][j])).map(R::of);
            let mut up = c.dirs[1 % c.dirs.len()].map(R::of);
            let mut ctr = cc;
            match c.what {
                What::ViewNan(j) => match j % 9 {
                    j @ 0..=2 => ctr[j as usize] = nan,
                    j @ 3..=5 => at[j as usize - 3] = nan,
                    j => up[j as usize - 6] = nan,
                },
                _ => at = cc,
            }
            let e = ExtrinsicParameters::from_view(
                &Vector3::from(ctr),
                &Vector3::from(at),
                &Unit::new_unchecked(Vector3::from(up)),
            );
            shows(o, &|| format!("matrix, {}", what()), e.matrix().as_slice())?;
            let d: Vec<R> = [e.forward(), e.up(), e.right()].iter().flat_map(|v| v.iter().copied().collect::<Vec<_>>()).collect();
            shows(o, &|| format!("forward, up, right, {}", what()), &d)?;
        }
        What::MatrixNan(_) | What::MatrixZero => {
            let mut m = SMatrix::<R, 3, 4>::zeros();
            if let What::MatrixNan(j) = c.what {
                let cam = Camera::new(mk_persp::<R>(&rnd_p::<R>(&persp_of(&c.k))), ext.clone());
                m = cam.as_camera_matrix();
                m[(j as usize / 4 % 3, j as usize % 4)] = nan;
            }
            if let Ok(cam) = Camera::from_perspective_matrix(&m) {
                let i = cam.intrinsics();
                let mut v = vec![i.fx(), i.fy(), i.skew(), i.cx(), i.cy()];
                v.extend(cam.extrinsics().camcenter().iter().copied());
                v.extend(cam.extrinsics().rotation().matrix().iter().copied());
                shows(o, &|| format!("from_perspective_matrix, {}", what()), &v)?;
            } else {
                o.compared += 1;
            }
        }
        What::IntersectStart(_) | What::IntersectDirection(_) | What::IntersectZero => {
            let n = n.max(2);
            let i = c.row % n;
            let mut list: Vec<Ray<WorldFrame, R>> = vec![];
            for k in 0..n {
                let a = w[k % w.len()];
                let d = c.dirs[k % c.dirs.len()];
                let s = 1.0 + k as f64 / 16.0;
                let mut d = [d[0], d[1] * s, d[2] + (k / c.dirs.len()) as f64 / 8.0].map(R::of);
                let mut a = a;
                if k == i {
                    match c.what {
                        What::IntersectStart(j) => {
                            let j = j as usize % 3;
                            // along the ray its start does not matter
                            let off: f64 = (0..3).filter(|l| *l != j).map(|l| d[l].f().powi(2)).sum();
                            let all: f64 = d.iter().map(|x| x.f().powi(2)).sum();
                            if off < 1e-4 * all {
                                o.skipped += 1;
                                return Ok(());
                            }
                            a[j] = nan;
                        }
                        What::IntersectDirection(j) => d[j as usize % 3] = nan,
                        _ => d = [R::of(0.0); 3],
                    }
                }
                list.push(Ray::new(SMatrix::<R, 1, 3>::from_fn(|_, j| a[j]), SMatrix::<R, 1, 3>::from_fn(|_, j| d[j])));
            }
            match best_intersection_of_rays(&list) {
                Ok(p) => shows(o, &|| format!("best_intersection_of_rays, ray {i} of {n}, {:?}", c.what), p.data.as_slice())?,
                Err(_) => o.compared += 1,
            }
        }
    }
    o.nontrivial = true;
    o.label(match c.what {
        What::CameraPoint(_) | What::WorldPoint(_) => "NaN point",
        What::Centre(_) | What::Quat(_) => "NaN pose",
        What::ZeroDepth | What::ZeroDepthWorld | What::AtCentre => "principal plane",
        What::Pixel(_) => "NaN pixel",
        What::Param(_) => "NaN parameter",
        What::ZeroFocal(_) => "zero focal length",
        What::Distance | What::ZeroDirection | What::RayStart(_) | What::RayDirection(_) => "undefined ray",
        What::ViewNowhere | What::ViewNan(_) => "undefined view",
        What::MatrixNan(_) | What::MatrixZero => "undefined matrix",
        _ => "undefined ray in an intersection",
    });
    o.label(R::NAME);
    Ok(())
}
fn persp_of(k: &IntrC) -> PerspC {
    match k {
        IntrC::P(p) => p.clone(),
        IntrC::O(k) => PerspC { fx: k.sx, fy: k.sy, skew: 0.0, cx: k.cx, cy: k.cy },
    }
}
#[allow(clippy::too_many_arguments)]
fn pose_shows<R: Real, I: IntrinsicParameters<R>>(
    c: &Undef,
    o: &mut Obs,
    e: &ExtrinsicParameters<R>,
    how: &str,
    w: &[[R; 3]],
    cf: &[[R; 3]],
    in_pixel: bool,
    intr: &I,
) -> Res
where
    I::BundleType: Bundle<R>,
{
    let i = c.row % w.len();
    let what = |f: &str| format!("{f} of a pose {how}, {:?}, row {i} of {}", c.what, w.len());
    let p: Pts<R, WorldFrame> = Points::new(m3(w));
    let q: Pts<R, CameraFrame> = Points::new(m3(cf));
    shows(o, &|| what("camcenter"), e.camcenter().coords.as_slice())?;
    shows(o, &|| what("matrix"), e.matrix().as_slice())?;
    shows(o, &|| what("world_to_camera"), &row(&e.world_to_camera(&p).data, i))?;
    shows(o, &|| what("camera_to_world"), &row(&e.camera_to_world(&q).data, i))?;
    if in_pixel {
        let cam = Camera::new(intr.clone(), e.clone());
        shows(o, &|| what("world_to_pixel"), &row(&cam.world_to_pixel(&p).data, i))?;
    }
    Ok(())
}
fn rays<R: Real>(c: &Undef, o: &mut Obs, nan: R, n: usize, i: usize, ext: &ExtrinsicParameters<R>) -> Res {
    // rays of both kinds; the undefined row or shared part is set below
    let mut starts: Vec<[R; 3]> = (0..n).map(|i| cam_pt(&c.pts[i % c.pts.len()]).map(R::of)).collect();
    let mut dirs: Vec<[R; 3]> = (0..n).map(|i| c.dirs[i % c.dirs.len()].map(R::of)).collect();
    let mut d = R::of(if c.d == 0.0 { 1.0 } else { c.d });
    match c.what {
        What::Distance => d = nan,
        What::ZeroDirection => dirs[i] = [R::of(0.0); 3],
        What::RayStart(j) => starts[i][j as usize % 3] = nan,
        What::RayDirection(j) => dirs[i][j as usize % 3] = nan,
        _ => unreachable!(),
    }
    let what = |f: &str, kind: &str| format!("{f} of rays sharing their {kind}, {:?}, row {i} of {n}", c.what);
    let at = !matches!(c.what, What::Distance | What::ZeroDirection);
    let (Some(bo), Some(bd)) = (
        with_shared(&mk_origin_bundle::<R>([0.0; 3]), starts[i]),
        with_shared(&mk_direction_bundle::<R>([0.0; 3]), dirs[i]),
    ) else {
        o.skipped += 1;
        return Ok(());
    };
    let b = bo;
    let m = m3(&dirs);
    shows(o, &|| what("point_on_ray_at_distance", "origin"), &row(&b.point_on_ray_at_distance::<_, _, WorldFrame>(&m, d).data, i))?;
    if at {
        shows(o, &|| what("point_on_ray", "origin"), &row(&b.point_on_ray::<_, _, WorldFrame>(&m).data, i))?;
        let t = b.to_pose::<_, _, WorldFrame>(*ext.pose(), &m);
        shows(o, &|| what("a point of the moved ray", "origin"), &row(&t.point_on_ray().data, i))?;
    }
    let b = bd;
    let m = m3(&starts);
    shows(o, &|| what("point_on_ray_at_distance", "direction"), &row(&b.point_on_ray_at_distance::<_, _, WorldFrame>(&m, d).data, i))?;
    if at {
        shows(o, &|| what("point_on_ray", "direction"), &row(&b.point_on_ray::<_, _, WorldFrame>(&m).data, i))?;
        let t = b.to_pose::<_, _, WorldFrame>(*ext.pose(), &m);
        shows(o, &|| what("a point of the moved ray", "direction"), &row(&t.point_on_ray().data, i))?;
    }
    Ok(())
}

/// a bundle type with these shared coordinates, whatever their values
fn with_shared<R: Real, B: Serialize + serde::de::DeserializeOwned>(like: &B, v: [R; 3]) -> Option<B> {
    let len = bincode::serialize(like).ok()?.len();
    let b = bincode::serialize(&v).ok()?;
    (b.len() == len).then(|| bincode::deserialize(&b).ok())?
}

fn bits(p: Prec) -> BoxedStrategy<u64> {
    let v = move |x: f64| match p {
        Prec::F64 => x.to_bits(),
        Prec::F32 => (x as f32).to_bits() as u64,
    };
    let any = match p {
        Prec::F64 => any::<u64>().boxed(),
        Prec::F32 => any::<u32>().prop_map(u64::from).boxed(),
    };
    prop_oneof![
        2 => any,
        2 => proptest::sample::select(vec![
            0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324,
            1e-30, 1e30, 1e155, 1e-155, 1e308, 1e38, 1e-38, 3e-39, 0.1,
        ])
        .prop_map(v),
        6 => coord().prop_map(v),
        1 => harvested(1e-300, 1e300).prop_map(v),
    ]
    .boxed()
}

impl Prop for C28 {
    type Case = Case;
    const ID: &'static str = "C28";
    const RULE: &'static str = "every operation on cameras, poses, matrices, rows and rays made of arbitrary bit patterns (no panic, no hang, all rows present); and regular input in which one thing is undefined (a NaN coordinate, pixel, parameter, pose component, distance or matrix entry, a point of the principal plane, a ray without direction, a view of nothing), where the components that depend on it have to be non-finite or the call an error; every case is non-trivial";
    const ASSUME: &'static [&'static str] = &[
        "a run that does not return is reported by the check's watchdog",
        "infinite input is only used for the absence of panics: some formulas give finite limits for it",
    ];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_500_000,
            Tier::Thorough => 30_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let wild = prec().prop_flat_map(|p| {
            let b = move || bits(p);
            let v = move || [bits(p), bits(p), bits(p)];
            (
                [b(), b(), b(), b(), b()],
                [b(), b(), b(), b()],
                any::<bool>(),
                [v(), v(), v()],
                proptest::collection::vec(v(), 1..4),
                b(),
                proptest::collection::vec(b(), 1..=12),
            )
                .prop_map(move |(k, q, unit, [c, lookat, up], rows, d, m)| {
                    Case::Wild(Wild { prec: p, k, q, unit, c, lookat, up, rows, d, m })
                })
        });
        let j = || any::<u8>();
        let what = prop_oneof![
            3 => j().prop_map(What::CameraPoint),
            3 => j().prop_map(What::WorldPoint),
            2 => j().prop_map(What::Centre),
            1 => j().prop_map(What::Quat),
            3 => Just(What::ZeroDepth),
            2 => Just(What::ZeroDepthWorld),
            1 => Just(What::AtCentre),
            3 => j().prop_map(What::Pixel),
            3 => j().prop_map(What::Param),
            1 => j().prop_map(What::ZeroFocal),
            1 => Just(What::Distance),
            2 => Just(What::ZeroDirection),
            1 => j().prop_map(What::RayStart),
            1 => j().prop_map(What::RayDirection),
            2 => Just(What::ViewNowhere),
            2 => j().prop_map(What::ViewNan),
            2 => j().prop_map(What::MatrixNan),
            1 => Just(What::MatrixZero),
            2 => j().prop_map(What::IntersectStart),
            2 => j().prop_map(What::IntersectDirection),
            2 => Just(What::IntersectZero),
        ];
        let n = prop_oneof![6 => 1usize..=3, 3 => 4usize..12, 1 => 12usize..80];
        let undef = (prec(), intr(), pose(), proptest::collection::vec(pt(), 1..4), pix(), what, (0usize..80, n), any::<u64>(), distance(), proptest::collection::vec(dirvec(), 2..5))
            .prop_map(|(prec, k, pose, pts, px, what, (row, n), nan, d, dirs)| {
                Case::Undef(Undef { prec, k, pose, pts, px, what, row, n, nan, d, dirs })
            });
        prop_oneof![1 => wild, 3 => undef].boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        match c {
            Case::Wild(w) => by_prec!(w.prec, wild(w, o)),
            Case::Undef(u) => by_prec!(u.prec, undef(u, o)),
        }
    }
}
fn main() {
    main_for::<C28>()
}
