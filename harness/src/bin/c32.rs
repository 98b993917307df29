//! No side and no direction is special: a mirrored scene gives the mirrored
//! results, to the last digit, and a scene expressed in another world frame or
//! with another image origin gives the same results.
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{Dyn, Isometry3, OMatrix, Point3, SMatrix, Translation3, Unit, Vector3, U2, U3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: IntrC,
    pose: PoseC,
    pts: Vec<PtC>,
    pix: Vec<PixC>,
    dist: f64,
    look: [f64; 3],
    up: [f64; 3],
    how: How,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum How {
    /// which axes are reversed, of the world and of the camera alike
    Mirror([bool; 3]),
    /// the world is turned, then moved
    World(PoseC),
    /// the image origin is moved
    Image([f64; 2]),
}
struct C32;

fn vec<R: Real>(v: [f64; 3]) -> Vector3<R> {
    Vector3::new(R::of(v[0]), R::of(v[1]), R::of(v[2]))
}
fn had(a: [f64; 3], s: [f64; 3]) -> [f64; 3] {
    [a[0] * s[0], a[1] * s[1], a[2] * s[2]]
}

/// A result and the signs its components take in the mirror.
struct Out {
    what: &'static str,
    v: f64,
    sign: f64,
}
struct Scene {
    k: KM,
    q: [f64; 4],
    c: [f64; 3],
    pts: Vec<[f64; 3]>,
    cpts: Vec<[f64; 3]>,
    pix: Vec<[f64; 2]>,
    dist: f64,
}

/// everything computed from the scene as seen in the mirror `s` (all +1: the scene itself)
fn mirrored<R: Real>(x: &Scene, s: [f64; 3]) -> Vec<Out> {
    let mut out: Vec<Out> = vec![];
    let mut put3 = |what: &'static str, v: [f64; 3], sign: [f64; 3]| {
        for j in 0..3 {
            out.push(Out { what, v: v[j], sign: sign[j] })
        }
    };
    let det = s[0] * s[1] * s[2];
    // the axis of a rotation is an axial vector
    let q = [x.q[0], det * s[0] * x.q[1], det * s[1] * x.q[2], det * s[2] * x.q[3]];
    let uq = nalgebra::UnitQuaternion::new_unchecked(nalgebra::Quaternion::new(
        R::of(q[0]),
        R::of(q[1]),
        R::of(q[2]),
        R::of(q[3]),
    ));
    let c = had(x.c, s);
    let ext = ExtrinsicParameters::<R>::from_rotation_and_camcenter(uq, Point3::from(vec::<R>(c)));
    let mat = |p: &[[f64; 3]]| OMatrix::<R, Dyn, U3>::from_fn(p.len(), |r, j| R::of(p[r][j] * s[j]));
    let world = Points::<WorldFrame, R, _, _>::new(mat(&x.pts));
    let camera = Points::<CameraFrame, R, _, _>::new(mat(&x.cpts));
    let pixels = Pixels::<R, _, _>::new(OMatrix::<R, Dyn, U2>::from_fn(x.pix.len(), |r, j| R::of(x.pix[r][j] * s[j])));
    let dist = R::of(x.dist);
    for r in rows3(&ext.world_to_camera(&world).data) {
        put3("world_to_camera", r, s);
    }
    for r in rows3(&ext.camera_to_world(&camera).data) {
        put3("camera_to_world", r, s);
    }
    put3("camcenter", p3_of(ext.camcenter()), s);
    put3("translation", p3_of(ext.translation()), s);
    let t = ext.pose().translation.vector;
    put3("pose: translation", [t.x.f(), t.y.f(), t.z.f()], s);
    for r in 0..3 {
        let m = |j: usize| ext.matrix()[(r, j)].f();
        put3("matrix", [m(0), m(1), m(2)], s.map(|x| x * s[r]));
        put3("matrix: last column", [m(3), 0.0, 0.0], [s[r], 1.0, 1.0]);
        let m = |j: usize| ext.rotation().matrix()[(r, j)].f();
        put3("rotation", [m(0), m(1), m(2)], s.map(|x| x * s[r]));
    }
    let f = |v: Unit<Vector3<R>>| [v.x.f(), v.y.f(), v.z.f()];
    put3("forward", f(ext.forward()), s.map(|x| x * s[2]));
    put3("up", f(ext.up()), s.map(|x| x * s[1]));
    put3("right", f(ext.right()), s.map(|x| x * s[0]));
    let iso = Isometry3::from_parts(Translation3::from(vec::<R>(c)), uq);
    let e = ExtrinsicParameters::from_pose(&iso);
    put3("from_pose: camcenter", p3_of(e.camcenter()), s);
    if s[2] < 0.0 {
        // the camera models look along +z
        return out;
    }
    #[allow(clippy::too_many_arguments)]
    fn rays<R: Real, I: IntrinsicParameters<R>>(
        intr: I,
        ext: ExtrinsicParameters<R>,
        world: &Points<WorldFrame, R, Dyn, nalgebra::storage::Owned<R, Dyn, U3>>,
        camera: &Points<CameraFrame, R, Dyn, nalgebra::storage::Owned<R, Dyn, U3>>,
        pixels: &Pixels<R, Dyn, nalgebra::storage::Owned<R, Dyn, U2>>,
        dist: R,
        s: [f64; 3],
        put3: &mut dyn FnMut(&'static str, [f64; 3], [f64; 3]),
    ) where
        I::BundleType: Bundle<R>,
    {
        let cam = Camera::new(intr, ext);
        for p in rows2(&cam.world_to_pixel(world).data) {
            put3("world_to_pixel", [p[0], p[1], 0.0], s);
        }
        for p in rows2(&cam.intrinsics().camera_to_pixel(camera).data) {
            put3("camera_to_pixel", [p[0], p[1], 0.0], s);
        }
        let rb = cam.intrinsics().pixel_to_camera(pixels);
        for r in rows3(&rb.data) {
            put3("pixel_to_camera", r, s);
        }
        let rb = cam.pixel_to_world(pixels);
        for r in rows3(&rb.data) {
            put3("pixel_to_world", r, s);
        }
        for r in rows3(&rb.point_on_ray().data) {
            put3("point_on_ray", r, s);
        }
        for r in rows3(&rb.point_on_ray_at_distance(dist).data) {
            put3("point_on_ray_at_distance", r, s);
        }
        for r in 0..pixels.data.nrows() {
            let one = Pixels::new(SMatrix::<R, 1, 2>::new(pixels.data[(r, 0)], pixels.data[(r, 1)]));
            let ray = cam.pixel_to_world(&one).to_single_ray();
            put3("to_single_ray: center", rows3(&ray.center)[0], s);
            put3("to_single_ray: direction", rows3(&ray.direction)[0], s);
        }
    }
    let k = KM { skew: x.k.skew * s[0] * s[1], cx: x.k.cx * s[0], cy: x.k.cy * s[1], ..x.k };
    if k.ortho {
        rays(mk_ortho::<R>(&k), ext, &world, &camera, &pixels, dist, s, &mut put3);
        return out;
    }
    rays(mk_persp::<R>(&k), ext.clone(), &world, &camera, &pixels, dist, s, &mut put3);
    let cam = Camera::new(mk_persp::<R>(&k), ext);
    let jac = JacobianPerspectiveCache::new(&cam);
    for p in &x.pts {
        let p = had(*p, s);
        let m = jac.linearize_at(&Points::new(SMatrix::<R, 1, 3>::from_fn(|_, j| R::of(p[j]))));
        for r in 0..2 {
            put3("linearize_at", [m[(r, 0)].f(), m[(r, 1)].f(), m[(r, 2)].f()], s.map(|x| x * s[r]));
        }
    }
    let p = cam.as_camera_matrix();
    // the sign of a matrix is arbitrary
    let big = (0..3).max_by(|x, y| p[(2, *x)].abs().f().total_cmp(&p[(2, *y)].abs().f())).unwrap();
    let sign = if p[(2, big)].f() * s[big] < 0.0 { -1.0 } else { 1.0 };
    for r in 0..3 {
        let m = |j: usize| p[(r, j)].f() * sign;
        put3("as_camera_matrix", [m(0), m(1), m(2)], s.map(|x| x * s[r]));
        put3("as_camera_matrix: last column", [m(3), 0.0, 0.0], [s[r], 1.0, 1.0]);
    }
    out
}

fn mirror<R: Real>(c: &Case, axes: [bool; 3], o: &mut Obs) -> Res {
    let (ext, pose) = mk_pose::<R>(&c.pose);
    drop(ext);
    let k = rnd_i::<R>(&c.k);
    let x = Scene {
        k,
        q: quat_of(&mk_quat::<R>(c.pose.q)),
        c: rnd3::<R>(c.pose.c),
        pts: c.pts.iter().map(|p| world_pt::<R>(p, &pose)).collect(),
        cpts: c.pts.iter().map(|p| rnd3::<R>(cam_pt(p))).collect(),
        pix: c.pix.iter().map(|p| k.pix_of(p).map(rnd::<R>)).collect(),
        dist: rnd::<R>(c.dist),
    };
    let s = axes.map(|b| if b { -1.0 } else { 1.0 });
    let base = mirrored::<R>(&x, [1.0; 3]);
    let got = mirrored::<R>(&x, s);
    // (fewer results where the camera models do not apply)
    for (a, b) in base.iter().zip(&got) {
        ensure(a.what == b.what, || format!("{}: {} against {} in the mirror", R::NAME, a.what, b.what))?;
        o.compared += 1;
        let want = a.v * b.sign;
        ensure(b.v == want || !(b.v.is_finite() || want.is_finite()), || {
            format!("{} {}: {:e} in the mirror {s:?}, expected {want:e}", R::NAME, a.what, b.v)
        })?;
    }
    o.nontrivial = axes.iter().any(|b| *b);
    o.label("mirrored");
    o.lab_if(axes[2], "mirrored along the viewing direction");
    Ok(())
}

/// The scene expressed in another world frame, or with another image origin.
fn reframed<R: Real, I: IntrinsicParameters<R>>(c: &Case, k: &KM, k2: &KM, intr: I, intr2: I, o: &mut Obs) -> Res
where
    I::BundleType: Bundle<R>,
{
    let eps = R::EPS;
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let (g, t, d) = match c.how {
        How::World(g) => (g.q, rnd3::<R>(g.c), [0.0; 2]),
        How::Image(d) => ([1.0, 0.0, 0.0, 0.0], [0.0; 3], d.map(rnd::<R>)),
        How::Mirror(_) => unreachable!(),
    };
    // x' = m x + t
    let (m, tv) = (dd::rotmat(g), dd::v3(t));
    let tn = n3(t);
    let go = |p: [f64; 3]| rnd3::<R>(dd::fl3(dd::add(dd::mv(&m, dd::v3(p)), tv)));
    let turn = |p: [f64; 3]| dd::mv(&m, dd::v3(p));
    let c0 = p3_of(ext.camcenter());
    let still = matches!(c.how, How::Image(_));
    // rotation of the camera in the new frame: q g^-1
    let q2 = {
        let ([w, x, y, z], [a, b, c_, d_]) = (c.pose.q, [g[0], -g[1], -g[2], -g[3]]);
        [
            w * a - x * b - y * c_ - z * d_,
            w * b + x * a + y * d_ - z * c_,
            w * c_ - x * d_ + y * a + z * b,
            w * d_ + x * c_ - y * b + z * a,
        ]
    };
    let pose2 = PoseC { q: if still { c.pose.q } else { q2 }, c: if still { c0 } else { go(c0) } };
    let (ext2, pm2) = mk_pose::<R>(&pose2);
    let far = |p: [f64; 3]| e_frame(p, &pose, eps) + 2.0 * e_frame(go(p), &pm2, eps) + eps * tn;

    let (cam, cam2) = (Camera::new(intr, ext.clone()), Camera::new(intr2, ext2.clone()));
    // axes
    let f = |v: Unit<Vector3<R>>| [v.x.f(), v.y.f(), v.z.f()];
    o.group("axes");
    for (a, b) in [(ext.forward(), ext2.forward()), (ext.up(), ext2.up()), (ext.right(), ext2.right())] {
        close3(o, &|| format!("{} axis of the camera", R::NAME), f(b), turn(f(a)), 4.0 * K * eps)?;
    }
    // points
    for p in &c.pts {
        let p = world_pt::<R>(p, &pose);
        let p2 = if still { p } else { go(p) };
        let one = |p: [f64; 3]| Points::<WorldFrame, R, _, _>::new(SMatrix::<R, 1, 3>::from_fn(|_, j| R::of(p[j])));
        let e = far(p);
        let (a, b) = (rows3(&ext.world_to_camera(&one(p)).data)[0], rows3(&ext2.world_to_camera(&one(p2)).data)[0]);
        o.group("camera coordinates");
        close3(o, &|| format!("{} camera coordinates of {p:?}, {p2:?} in the other frame", R::NAME), b, dd::v3(a), 2.0 * K * e)?;
        let (a, b) = (rows2(&cam.world_to_pixel(&one(p)).data)[0], rows2(&cam2.world_to_pixel(&one(p2)).data)[0]);
        let pc = pose.to_cam(dd::v3(p));
        let (Some(x), Some(y)) = (k.project(pc, 2.0 * e, eps), k2.project(pc, 2.0 * e, eps)) else {
            o.skipped += 2;
            continue;
        };
        o.group("pixels");
        for j in 0..2 {
            let want = Dd::new(a[j]) + Dd::new(d[j]);
            o.close(
                &|| format!("{} pixel coordinate {j} of {p:?}, expressed as {p2:?} with image origin moved by {d:?}", R::NAME),
                b[j],
                want.f(),
                x.tol[j] + y.tol[j] + eps * (d[j].abs() + k2.cx.abs() + k2.cy.abs()),
            )?;
            let size = if k.ortho { k.fx.abs().max(k.fy.abs()) * n3(dd::fl3(pc)) } else { k.fx.abs().max(k.fy.abs()) };
            o.nontrivial |= x.tol[j] + y.tol[j] < 1e-2 * size;
        }
    }
    // rays of pixels
    for p in &c.pix {
        let p = k.pix_of(p).map(rnd::<R>);
        let p2 = [0, 1].map(|j| rnd::<R>(p[j] + d[j]));
        let one = |p: [f64; 2]| Pixels::<R, _, _>::new(SMatrix::<R, 1, 2>::new(R::of(p[0]), R::of(p[1])));
        let (v, e1) = k.unproject(p, eps);
        let (_, e2) = k2.unproject(p2, eps);
        let ec = 2.0 * (0..2).map(|j| e1[j] + e2[j]).fold(0.0, f64::max)
            + K * eps * (d[0].abs() + k2.cx.abs()) / k.fx.abs()
            + K * eps * (d[1].abs() + k2.cy.abs()) * (1.0 + (k.skew / k.fx).abs()) / k.fy.abs();
        let (a, b) = (cam.pixel_to_world(&one(p)).to_single_ray(), cam2.pixel_to_world(&one(p2)).to_single_ray());
        let ev = ec + 4.0 * K * eps * vn(v);
        let ep = 4.0 * K * eps * (2.0 * pose.cn + 2.0 * pm2.cn + tn);
        let (tc, td) = if k.ortho { (ep + ev, 8.0 * K * eps) } else { (ep, ev) };
        o.group("rays");
        let want = dd::add(turn(rows3(&a.center)[0]), tv);
        close3(o, &|| format!("{} centre of the ray of {p:?}, {p2:?}", R::NAME), rows3(&b.center)[0], want, tc)?;
        let want = turn(rows3(&a.direction)[0]);
        close3(o, &|| format!("{} direction of the ray of {p:?}, {p2:?}", R::NAME), rows3(&b.direction)[0], want, td)?;
    }
    Ok(())
}

fn reframe<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let k = rnd_i::<R>(&c.k);
    let mut k2 = k;
    if let How::Image(d) = c.how {
        k2.cx = rnd::<R>(k.cx + rnd::<R>(d[0]));
        k2.cy = rnd::<R>(k.cy + rnd::<R>(d[1]));
        o.label("other image origin");
    } else {
        o.label("other world frame");
    }
    if k.ortho {
        reframed::<R, _>(c, &k, &k2, mk_ortho::<R>(&k), mk_ortho::<R>(&k2), o)?;
    } else {
        reframed::<R, _>(c, &k, &k2, mk_persp::<R>(&k), mk_persp::<R>(&k2), o)?;
    }
    // a view, described in the other world frame
    let How::World(g) = c.how else { return Ok(()) };
    let (m, tv) = (dd::rotmat(g.q), dd::v3(rnd3::<R>(g.c)));
    let go = |p: [f64; 3]| rnd3::<R>(dd::fl3(dd::add(dd::mv(&m, dd::v3(p)), tv)));
    let (cc, la) = (rnd3::<R>(c.pose.c), rnd3::<R>(c.look));
    let (cc2, la2) = (go(cc), go(la));
    let up = dd::unit(dd::v3(rnd3::<R>(c.up)));
    let up2 = rnd3::<R>(dd::fl3(dd::mv(&m, up)));
    let dir = dd::sub(dd::v3(la), dd::v3(cc));
    let dn = vn(dir);
    if dn == 0.0 {
        o.skipped += 1;
        return Ok(());
    }
    let sin = vn(dd::cross(dd::unit(dir), up));
    // rounding of the moved positions turns the viewing direction
    let tol = 2.0 * K * (eps + eps * (n3(cc) + n3(la) + n3(cc2) + n3(la2)) / dn) / sin;
    if !(tol < 1.0 / 16.0) {
        o.skipped += 1;
        return Ok(());
    }
    let v = vec::<R>;
    let e = ExtrinsicParameters::from_view(&v(cc), &v(la), &Unit::new_normalize(v(dd::fl3(up))));
    let e2 = ExtrinsicParameters::from_view(&v(cc2), &v(la2), &Unit::new_normalize(v(up2)));
    let f = |v: Unit<Vector3<R>>| [v.x.f(), v.y.f(), v.z.f()];
    o.group("view");
    for (nm, a, b) in [
        ("forward", e.forward(), e2.forward()),
        ("up", e.up(), e2.up()),
        ("right", e.right(), e2.right()),
    ] {
        let want = dd::mv(&m, dd::v3(f(a)));
        close3(o, &|| format!("{} {nm} of the view from {cc2:?} to {la2:?} with up {up2:?}", R::NAME), f(b), want, tol)?;
    }
    o.label("view");
    Ok(())
}

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    if c.up == [0.0; 3] {
        o.skipped += 1;
        return Ok(());
    }
    o.label(R::NAME);
    match c.how {
        How::Mirror(axes) => mirror::<R>(c, axes, o),
        _ => reframe::<R>(c, o),
    }
}

impl Prop for C32 {
    type Case = Case;
    const ID: &'static str = "C32";
    const RULE: &'static str = "a camera, points, pixels and a viewing target, and the same scene mirrored along any axes (compared to the last digit), or expressed in another world frame or with another image origin (compared within rounding); non-trivial: at least one axis mirrored, or a meaningful bound on a pixel";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let how = prop_oneof![
            4 => any::<[bool; 3]>().prop_map(How::Mirror),
            4 => [any::<bool>(), any::<bool>()].prop_map(|[a, b]| How::Mirror([a, b, false])),
            5 => pose().prop_map(How::World),
            2 => prop_oneof![
                2 => [-2000i32..2000, -2000i32..2000].prop_map(|d| d.map(|x| x as f64)),
                1 => [coord(), coord()],
            ].prop_map(How::Image),
        ];
        in_units(
            (
                prec(),
                prop_oneof![3 => persp_signed(25).prop_map(IntrC::P), 2 => ortho().prop_map(IntrC::O)],
                pose(),
                proptest::collection::vec(pt(), 0..4),
                proptest::collection::vec(pix(), 0..4),
                distance(),
                center(),
                dirvec(),
                how,
            )
                .prop_map(|(prec, k, pose, pts, pix, dist, look, up, how)| Case { prec, k, pose, pts, pix, dist, look, up, how }),
            |c| c.prec,
            |c, s| {
                c.pose.rescale(s);
                c.pts.rescale(s);
                c.dist.rescale(s);
                c.look.rescale(s);
                if let How::World(g) = &mut c.how {
                    g.rescale(s);
                }
            },
        )
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C32>()
}
