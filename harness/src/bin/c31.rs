//! Units are free choices: powers of two of the units of length and of pixels,
//! of a projection matrix and of ray directions change no digit of any result.
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use camcheck::{by_prec, dd, driver::*, gen::*, model::*};
use nalgebra::{Dyn, Isometry3, OMatrix, Point3, SMatrix, Translation3, Unit, Vector3, U2, U3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: IntrC,
    pose: PoseC,
    pts: Vec<PtC>,
    pix: Vec<PixC>,
    dist: f64,
    look: [f64; 3],
    up: [f64; 3],
    rays: RaysC,
    /// unit of length: power of two
    len: i32,
    /// units of the two pixel axes: power of two, and reversed or not
    u: (i32, bool),
    v: (i32, bool),
    /// factor of a projection matrix
    mat: i32,
    /// factors of ray directions (cycled)
    dirs: Vec<(i32, bool)>,
}
struct C31;

fn pow(p: (i32, bool)) -> f64 {
    let x = (p.0 as f64).exp2();
    if p.1 {
        -x
    } else {
        x
    }
}
/// factors: length, u, v, matrix
#[derive(Clone, Copy)]
struct F {
    l: f64,
    a: f64,
    b: f64,
    m: f64,
}
struct Out {
    what: &'static str,
    v: f64,
    /// powers of the units of length, u and v in the result
    dim: [i32; 3],
}
const N: [i32; 3] = [0, 0, 0];
const L: [i32; 3] = [1, 0, 0];
const U: [i32; 3] = [0, 1, 0];
const V: [i32; 3] = [0, 0, 1];

struct Input {
    k: KM,
    pts: Vec<[f64; 3]>,
    pix: Vec<[f64; 2]>,
    dist: f64,
    c: [f64; 3],
    look: [f64; 3],
    up: [f64; 3],
    rays: Vec<RayC>,
    pmat: [[f64; 4]; 3],
}

fn mul3(v: [f64; 3], s: f64) -> [f64; 3] {
    v.map(|x| x * s)
}
fn vec<R: Real>(v: [f64; 3]) -> Vector3<R> {
    Vector3::new(R::of(v[0]), R::of(v[1]), R::of(v[2]))
}

/// everything the library computes from the input expressed in the given units
fn outputs<R: Real>(c: &Case, i: &Input, f: F, turned: bool, normalised: &mut Option<bool>) -> Vec<Out> {
    let mut out: Vec<Out> = vec![];
    let mut put = |what: &'static str, v: f64, dim: [i32; 3]| out.push(Out { what, v, dim });
    let F { l, a, b, m } = f;
    let ext = ExtrinsicParameters::<R>::from_rotation_and_camcenter(
        mk_quat::<R>(c.pose.q),
        Point3::from(vec::<R>(mul3(i.c, l))),
    );
    let pts = OMatrix::<R, Dyn, U3>::from_fn(i.pts.len(), |r, j| R::of(i.pts[r][j] * l));
    let pix = OMatrix::<R, Dyn, U2>::from_fn(i.pix.len(), |r, j| R::of(i.pix[r][j] * [a, b][j]));
    let world = Points::<WorldFrame, R, _, _>::new(pts.clone());
    let pixels = Pixels::<R, _, _>::new(pix);
    let dist = R::of(i.dist * l);
    // frames
    for r in rows3(&ext.world_to_camera(&world).data).iter().flatten() {
        put("world_to_camera", *r, L);
    }
    for r in rows3(&ext.camera_to_world(&Points::new(pts)).data).iter().flatten() {
        put("camera_to_world", *r, L);
    }
    for x in p3_of(ext.camcenter()) {
        put("camcenter", x, L);
    }
    for x in p3_of(ext.translation()) {
        put("translation", x, L);
    }
    for r in 0..3 {
        for j in 0..4 {
            put("pose matrix", ext.matrix()[(r, j)].f(), if j == 3 { L } else { N });
        }
        put("pose", ext.pose().translation.vector[r].f(), L);
    }
    for d in [ext.forward(), ext.up(), ext.right()] {
        for x in d.iter() {
            put("forward/up/right", x.f(), N);
        }
    }
    // an isometry
    let iso = Isometry3::from_parts(Translation3::from(vec::<R>(mul3(i.c, l))), mk_quat::<R>(c.pose.q));
    let e = ExtrinsicParameters::from_pose(&iso);
    for x in p3_of(e.camcenter()) {
        put("from_pose: camcenter", x, L);
    }
    // a view
    let e = ExtrinsicParameters::from_view(
        &vec::<R>(mul3(i.c, l)),
        &vec::<R>(mul3(i.look, l)),
        &Unit::new_normalize(vec::<R>(i.up)),
    );
    for x in p3_of(e.camcenter()) {
        put("from_view: camcenter", x, L);
    }
    for x in quat_of(&e.pose().rotation) {
        put("from_view: rotation", x, N);
    }
    // cameras
    fn camera<R: Real, I: IntrinsicParameters<R>>(
        cam: &Camera<R, I>,
        world: &Points<WorldFrame, R, Dyn, nalgebra::storage::Owned<R, Dyn, U3>>,
        pixels: &Pixels<R, Dyn, nalgebra::storage::Owned<R, Dyn, U2>>,
        dist: R,
        data: [i32; 3],
        put: &mut dyn FnMut(&'static str, f64, [i32; 3]),
    ) where
        I::BundleType: Bundle<R>,
    {
        for p in rows2(&cam.world_to_pixel(world).data) {
            put("world_to_pixel", p[0], U);
            put("world_to_pixel", p[1], V);
        }
        let rb = cam.intrinsics().pixel_to_camera(pixels);
        for x in rows3(&rb.data).iter().flatten() {
            put("pixel_to_camera", *x, data);
        }
        let rb = cam.pixel_to_world(pixels);
        for x in rows3(&rb.data).iter().flatten() {
            put("pixel_to_world", *x, data);
        }
        for x in rows3(&rb.point_on_ray_at_distance(dist).data).iter().flatten() {
            put("point_on_ray_at_distance", *x, L);
        }
        for r in 0..pixels.data.nrows() {
            let one = Pixels::new(SMatrix::<R, 1, 2>::new(pixels.data[(r, 0)], pixels.data[(r, 1)]));
            let ray = cam.pixel_to_world(&one).to_single_ray();
            for j in 0..3 {
                put("to_single_ray: center", ray.center[j].f(), L);
                put("to_single_ray: direction", ray.direction[j].f(), N);
            }
        }
    }
    if i.k.ortho {
        let k = KM { fx: i.k.fx * a / l, fy: i.k.fy * b / l, cx: i.k.cx * a, cy: i.k.cy * b, ..i.k };
        camera(&Camera::new(mk_ortho::<R>(&k), ext), &world, &pixels, dist, L, &mut put);
    } else {
        let k = KM {
            fx: i.k.fx * a,
            fy: i.k.fy * b,
            // (in units of u per y)
            skew: i.k.skew * a,
            cx: i.k.cx * a,
            cy: i.k.cy * b,
            ..i.k
        };
        let cam = Camera::new(mk_persp::<R>(&k), ext);
        camera(&cam, &world, &pixels, dist, N, &mut put);
        let p = cam.as_camera_matrix();
        let norm = *normalised.get_or_insert(p[(2, 3)] == R::one());
        // the sign of a matrix is arbitrary
        let big = (0..3).max_by(|x, y| p[(2, *x)].abs().f().total_cmp(&p[(2, *y)].abs().f())).unwrap();
        let sign = if p[(2, big)] < R::zero() { -1.0 } else { 1.0 };
        for r in 0..3 {
            for j in 0..4 {
                let mut dim = [U, V, N][r];
                dim[0] = match (norm, j) {
                    (true, 3) | (false, 0..=2) => 0,
                    (true, _) => -1,
                    (false, _) => 1,
                };
                put("as_camera_matrix", sign * p[(r, j)].f(), dim);
            }
        }
        let jac = JacobianPerspectiveCache::new(&cam);
        for p in &i.pts {
            let m = jac.linearize_at(&Points::new(SMatrix::<R, 1, 3>::from_fn(|_, j| R::of(p[j] * l))));
            for r in 0..2 {
                for j in 0..3 {
                    put("linearize_at", m[(r, j)].f(), [-1, (r == 0) as i32, (r == 1) as i32]);
                }
            }
        }
    }
    // a projection matrix, whose scale means nothing
    let p = SMatrix::<R, 3, 4>::from_fn(|r, j| R::of(i.pmat[r][j] * m));
    if let Ok(cam) = Camera::from_perspective_matrix(&p) {
        let k = cam.intrinsics();
        for x in [k.fx(), k.fy(), k.skew(), k.cx(), k.cy()] {
            put("from_perspective_matrix: intrinsics", x.f(), N);
        }
        for x in p3_of(cam.extrinsics().camcenter()) {
            put("from_perspective_matrix: camcenter", x, N);
        }
        let q = quat_of(&cam.extrinsics().pose().rotation);
        let big = (0..4).max_by(|x, y| q[*x].abs().total_cmp(&q[*y].abs())).unwrap();
        for x in q {
            put("from_perspective_matrix: rotation", x * q[big].signum(), N);
        }
    }
    // intersection
    let list: Vec<RayC> = i
        .rays
        .iter()
        .enumerate()
        .map(|(n, r)| {
            let s = if turned { pow(c.dirs[n % c.dirs.len()]) } else { 1.0 };
            RayC { c: mul3(r.c, l), d: mul3(r.d, s) }
        })
        .collect();
    match intersect::<R>(&list) {
        Ok(p) => p.iter().for_each(|x| put("best_intersection_of_rays", *x, L)),
        Err(_) => put("best_intersection_of_rays: error", 1.0, N),
    }
    out
}

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let f32_ = R::EPS > 1e-10;
    let (ext, pose) = mk_pose::<R>(&c.pose);
    drop(ext);
    let k = rnd_i::<R>(&c.k);
    let list = c.rays.list();
    let i = Input {
        k,
        pts: c.pts.iter().map(|p| world_pt::<R>(p, &pose)).collect(),
        pix: c.pix.iter().map(|p| k.pix_of(p).map(rnd::<R>)).collect(),
        dist: rnd::<R>(c.dist),
        c: rnd3::<R>(c.pose.c),
        look: rnd3::<R>(c.look),
        up: rnd3::<R>(c.up),
        rays: list.iter().map(|(a, b)| RayC { c: rnd3::<R>(*a), d: rnd3::<R>(*b) }).collect(),
        pmat: {
            let r = pose.r.map(|r| r.map(|x| x.f()));
            let t = dd::fl3(pose.t());
            let kr = [[k.fx, k.skew, k.cx], [0.0, k.fy, k.cy], [0.0, 0.0, 1.0]];
            [0, 1, 2].map(|a| {
                [0, 1, 2, 3].map(|b| {
                    let x: f64 = (0..3).map(|n| kr[a][n] * if b < 3 { r[n][b] } else { t[n] }).sum();
                    rnd::<R>(x)
                })
            })
        },
    };
    // numbers whose products could underflow are left out
    let (lo, hi) = if f32_ { (1e-7, 1e8) } else { (1e-40, 1e40) };
    let fine = |x: &f64| *x == 0.0 || (x.abs() > lo && x.abs() < hi);
    let mut all: Vec<f64> = vec![k.fx, k.fy, k.skew, k.cx, k.cy, i.dist];
    all.extend(i.pts.iter().chain([&i.c, &i.look, &i.up]).flatten());
    all.extend(i.pix.iter().flatten());
    all.extend(i.rays.iter().flat_map(|r| r.c.iter().chain(&r.d)));
    all.extend(quat_of(&mk_quat::<R>(c.pose.q)));
    all.extend(i.pmat.iter().flatten());
    if !all.iter().all(fine) || i.rays.iter().any(|r| r.d == [0.0; 3]) || i.up == [0.0; 3] {
        o.skipped += 1;
        o.label("out of range");
        return Ok(());
    }
    let one = F { l: 1.0, a: 1.0, b: 1.0, m: 1.0 };
    let f = F { l: pow((c.len, false)), a: pow(c.u), b: pow(c.v), m: pow((c.mat, false)) };
    let mut normalised = None;
    let base = outputs::<R>(c, &i, one, false, &mut normalised);
    let got = outputs::<R>(c, &i, f, true, &mut normalised);
    let (small, large) = if f32_ { (1e-28, 1e30) } else { (1e-250, 1e250) };
    ensure(base.len() == got.len(), || {
        format!("{}: {} results in one unit, {} in another", R::NAME, base.len(), got.len())
    })?;
    for (x, y) in base.iter().zip(&got) {
        ensure(x.what == y.what, || format!("{}: {} in one unit, {} in another", R::NAME, x.what, y.what))?;
        let fac = f.l.powi(x.dim[0]) * f.a.powi(x.dim[1]) * f.b.powi(x.dim[2]);
        let want = x.v * fac;
        if [x.v, want, y.v].iter().any(|x| *x != 0.0 && x.is_finite() && !(x.abs() > small && x.abs() < large)) {
            o.skipped += 1;
            continue;
        }
        o.compared += 1;
        ensure(y.v == want || !(y.v.is_finite() || want.is_finite()), || {
            format!(
                "{} {}: {:e} with lengths multiplied by {:e}, u by {:e}, v by {:e}, matrix by {:e} and directions by {:?}, expected {:e} = {:e} * {:e}",
                R::NAME, x.what, y.v, f.l, f.a, f.b, f.m, c.dirs, want, x.v, fac
            )
        })?;
    }
    o.label(R::NAME);
    o.label(if k.ortho { "orthographic" } else { "perspective" });
    o.lab_if(normalised == Some(false), "matrix not normalised");
    o.lab_if(f.a < 0.0 || f.b < 0.0, "reversed pixel axis");
    o.lab_if(c.len == 0, "same unit of length");
    o.nontrivial = c.len != 0 && (c.u.0 != 0 || c.v.0 != 0);
    Ok(())
}

impl Prop for C31 {
    type Case = Case;
    const ID: &'static str = "C31";
    const RULE: &'static str = "a camera, points, pixels, a viewing target, a projection matrix and rays, expressed in two systems of units that differ by powers of two (and the sense of the pixel axes); all results must agree to the last digit after conversion; non-trivial: the units of length and of pixels both differ";
    const ASSUME: &'static [&'static str] = &["magnitudes are such that no intermediate product overflows or underflows"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 800_000,
            Tier::Thorough => 16_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let shift = |n: i32| prop_oneof![1 => Just(0i32), 2 => -3i32..=3, 3 => -n..=n];
        let how = (
            shift(40),
            (shift(20), proptest::bool::weighted(0.3)),
            (shift(20), proptest::bool::weighted(0.3)),
            shift(20),
            proptest::collection::vec((shift(20), any::<bool>()), 1..5),
        );
        let scene = (
            prop_oneof![3 => persp_signed(25).prop_map(IntrC::P), 2 => ortho().prop_map(IntrC::O)],
            pose(),
            proptest::collection::vec(pt(), 0..4),
            proptest::collection::vec(pix(), 0..4),
            distance(),
            vec3(coord),
            dirvec(),
            few_rays(),
        );
        (prec(), scene, how)
            .prop_map(|(prec, (k, pose, pts, pix, dist, look, up, rays), (len, u, v, mat, dirs))| {
                // f32 has less room
                let q = |x: i32| if prec == Prec::F32 { x / 4 } else { x };
                let p = |x: (i32, bool)| (q(x.0), x.1);
                Case {
                    prec,
                    k,
                    pose,
                    pts,
                    pix,
                    dist,
                    look,
                    up,
                    rays,
                    len: q(len),
                    u: p(u),
                    v: p(v),
                    mat: q(mat),
                    dirs: dirs.into_iter().map(p).collect(),
                }
            })
            .boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C31>()
}
