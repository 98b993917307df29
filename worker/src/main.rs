//! Evaluates the whole public interface for inputs read from stdin. Built once
//! per feature configuration of cam-geom; the results are compared.
#[allow(dead_code)]
mod proto;
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use nalgebra::{
    allocator::Allocator, Const, DefaultAllocator, Dim, Isometry3, Matrix, Point3, Quaternion, RawStorage, RealField,
    SMatrix, Storage, ToTypenum, Translation3, Unit, UnitQuaternion, Vector3, U2, U3,
};
use proto::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

struct Counting;
static COUNT: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        COUNT.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        COUNT.fetch_add(1, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

trait Num: RealField + Copy {
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
struct Out {
    s: Sections,
}
impl Out {
    /// run an operation on statically sized values; note it if it allocates
    fn op<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> T {
        let a = COUNT.load(Relaxed);
        let r = std::hint::black_box(f());
        let n = COUNT.load(Relaxed) - a;
        if n > 0 {
            self.s.push((format!("alloc {name}"), vec![n as f64]));
        }
        r
    }
    fn rows<R: Num, N: Dim, C: Dim, S: RawStorage<R, N, C>>(&mut self, name: &str, m: &Matrix<R, N, C, S>) {
        let mut v = Vec::with_capacity(m.nrows() * m.ncols());
        for i in 0..m.nrows() {
            for j in 0..m.ncols() {
                v.push(m[(i, j)].f());
            }
        }
        self.s.push((name.into(), v));
    }
    fn put(&mut self, name: &str, v: Vec<f64>) {
        self.s.push((name.into(), v));
    }
}
fn code(e: &Error) -> f64 {
    match e {
        Error::InvalidInput => -1.0,
        Error::SvdFailed => -2.0,
        Error::MinimumTwoRaysNeeded => -3.0,
        Error::InvalidRotationMatrix => -4.0,
        _ => -5.0,
    }
}
fn pose<R: Num>(o: &mut Out, name: &str, e: &ExtrinsicParameters<R>) {
    let mut v: Vec<f64> = vec![];
    let m = e.matrix();
    for i in 0..3 {
        for j in 0..3 {
            v.push(m[(i, j)].f());
        }
    }
    let r = e.rotation().matrix();
    for i in 0..3 {
        for j in 0..3 {
            v.push(r[(i, j)].f());
        }
    }
    for d in [e.forward(), e.up(), e.right()] {
        v.extend(d.iter().map(|x| x.f()));
    }
    for i in 0..3 {
        v.push(m[(i, 3)].f());
    }
    v.extend(e.translation().coords.iter().map(|x| x.f()));
    v.extend(e.camcenter().coords.iter().map(|x| x.f()));
    o.put(name, v);
}
fn bundle<R: Num, F: CoordinateSystem, B: Bundle<R>, N: Dim>(
    o: &mut Out,
    name: &str,
    b: &RayBundle<F, B, R, N, nalgebra::Owned<R, N, U3>>,
    d: R,
) where
    DefaultAllocator: Allocator<N, U3>,
{
    o.rows(&format!("{name} data"), &b.data);
    o.rows(&format!("{name} at 0"), &b.point_on_ray_at_distance(R::of(0.0)).data);
    o.rows(&format!("{name} at d"), &b.point_on_ray_at_distance(d).data);
}
fn batch<R: Num, N: Dim, P, Q>(
    o: &mut Out,
    tag: &str,
    e: &ExtrinsicParameters<R>,
    kp: &IntrinsicParametersPerspective<R>,
    ko: &IntrinsicParametersOrthographic<R>,
    pts: &Matrix<R, N, U3, P>,
    pix: &Matrix<R, N, U2, Q>,
    d: R,
    metered: bool,
) where
    P: Storage<R, N, U3> + Clone,
    Q: Storage<R, N, U2> + Clone,
    DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
{
    // (the meter only concerns statically sized values)
    macro_rules! op {
        ($n:literal, $e:expr) => {
            if metered { o.op($n, || $e) } else { $e }
        };
    }
    let (w, c, p) =
        (Points::<WorldFrame, _, _, _>::new(pts.clone()), Points::<CameraFrame, _, _, _>::new(pts.clone()), Pixels::new(pix.clone()));
    let r = op!("world_to_camera", e.world_to_camera(&w));
    o.rows(&format!("{tag} world_to_camera"), &r.data);
    let r = op!("camera_to_world", e.camera_to_world(&c));
    o.rows(&format!("{tag} camera_to_world"), &r.data);
    let cam = op!("Camera::new", Camera::new(kp.clone(), e.clone()));
    let r = op!("camera_to_pixel", kp.camera_to_pixel(&c));
    o.rows(&format!("{tag} perspective camera_to_pixel"), &r.data);
    let r = op!("world_to_pixel", cam.world_to_pixel(&w));
    o.rows(&format!("{tag} perspective world_to_pixel"), &r.data);
    let r = op!("pixel_to_camera", kp.pixel_to_camera(&p));
    bundle(o, &format!("{tag} perspective pixel_to_camera"), &r, d);
    let r = op!("pixel_to_world", cam.pixel_to_world(&p));
    if metered {
        o.op("point_on_ray_at_distance", || r.point_on_ray_at_distance(d));
        o.op("point_on_ray", || r.point_on_ray());
    }
    bundle(o, &format!("{tag} perspective pixel_to_world"), &r, d);
    let cam = op!("Camera::new", Camera::new(ko.clone(), e.clone()));
    let r = op!("camera_to_pixel", ko.camera_to_pixel(&c));
    o.rows(&format!("{tag} orthographic camera_to_pixel"), &r.data);
    let r = op!("world_to_pixel", cam.world_to_pixel(&w));
    o.rows(&format!("{tag} orthographic world_to_pixel"), &r.data);
    let r = op!("pixel_to_camera", ko.pixel_to_camera(&p));
    bundle(o, &format!("{tag} orthographic pixel_to_camera"), &r, d);
    let r = op!("pixel_to_world", cam.pixel_to_world(&p));
    if metered {
        o.op("point_on_ray_at_distance", || r.point_on_ray_at_distance(d));
        o.op("point_on_ray", || r.point_on_ray());
    }
    bundle(o, &format!("{tag} orthographic pixel_to_world"), &r, d);
}
fn fixed<R: Num, const N: usize>(
    o: &mut Out,
    i: &Input,
    e: &ExtrinsicParameters<R>,
    kp: &IntrinsicParametersPerspective<R>,
    ko: &IntrinsicParametersOrthographic<R>,
) where
    Const<N>: ToTypenum,
{
    let pts = SMatrix::<R, N, 3>::from_fn(|a, b| R::of(i.pts[a % i.pts.len()][b]));
    let pix = SMatrix::<R, N, 2>::from_fn(|a, b| R::of(i.pix[a % i.pix.len()][b]));
    batch(o, "fixed", e, kp, ko, &pts, &pix, R::of(i.dist), true);
    let p = Pixels::new(pix);
    let r = kp.pixel_to_camera(&p);
    let (c, d) = (o.op("centers", || r.centers()), o.op("directions", || r.directions()));
    o.rows("fixed perspective centers", &c);
    o.rows("fixed perspective directions", &d);
    let r = ko.pixel_to_camera(&p);
    let (c, d) = (o.op("centers", || r.centers()), o.op("directions", || r.directions()));
    o.rows("fixed orthographic centers", &c);
    o.rows("fixed orthographic directions", &d);
}
fn persp_of<R: Num>(i: &Input) -> PerspectiveParams<R> {
    let k = i.k.map(R::of);
    PerspectiveParams { fx: k[0], fy: k[1], skew: k[2], cx: k[3], cy: k[4] }
}
fn run<R: Num>(i: &Input, o: &mut Out, stored: &dyn Fn(&mut Out, &Input, &ExtrinsicParameters<R>)) {
    let [w, x, y, z] = i.q.map(R::of);
    let q = UnitQuaternion::new_unchecked(Quaternion::new(w, x, y, z));
    let v3 = |a: [f64; 3]| Vector3::new(R::of(a[0]), R::of(a[1]), R::of(a[2]));
    let c = Point3::from(v3(i.c));
    let e = o.op("from_rotation_and_camcenter", || ExtrinsicParameters::from_rotation_and_camcenter(q, c));
    pose(o, "from_rotation_and_camcenter", &e);
    let iso = Isometry3::from_parts(Translation3::from(v3(i.c)), q);
    let e2 = o.op("from_pose", || ExtrinsicParameters::from_pose(&iso));
    pose(o, "from_pose", &e2);
    let up = Unit::new_normalize(v3(i.up));
    let (ctr, la) = (v3(i.c), v3(i.lookat));
    let e3 = o.op("from_view", || ExtrinsicParameters::from_view(&ctr, &la, &up));
    pose(o, "from_view", &e3);
    let kp = o.op("perspective intrinsics", || IntrinsicParametersPerspective::from(persp_of::<R>(i)));
    let k = i.o.map(R::of);
    let op = OrthographicParams { sx: k[0], sy: k[1], cx: k[2], cy: k[3] };
    let ko = o.op("orthographic intrinsics", || IntrinsicParametersOrthographic::from(op.clone()));
    let p = kp.params();
    o.put(
        "accessors",
        vec![kp.fx().f(), kp.fy().f(), kp.skew().f(), kp.cx().f(), kp.cy().f(), p.fx.f(), p.fy.f(), p.skew.f(), p.cx.f(), p.cy.f()],
    );
    match i.pts.len() {
        1 => fixed::<R, 1>(o, i, &e, &kp, &ko),
        2 => fixed::<R, 2>(o, i, &e, &kp, &ko),
        3 => fixed::<R, 3>(o, i, &e, &kp, &ko),
        5 => fixed::<R, 5>(o, i, &e, &kp, &ko),
        _ => fixed::<R, 17>(o, i, &e, &kp, &ko),
    }
    let cam = Camera::new(kp.clone(), e.clone());
    let p1 = Pixels::new(SMatrix::<R, 1, 2>::new(R::of(i.pix[0][0]), R::of(i.pix[0][1])));
    for (n, r) in [
        ("perspective ray", o.op("to_single_ray", || cam.pixel_to_world(&p1).to_single_ray())),
        ("orthographic ray", o.op("to_single_ray", || Camera::new(ko.clone(), e.clone()).pixel_to_world(&p1).to_single_ray())),
    ] {
        o.rows(&format!("{n} centre"), &r.center);
        o.rows(&format!("{n} direction"), &r.direction);
    }
    let m = o.op("as_camera_matrix", || cam.as_camera_matrix());
    o.rows("as_camera_matrix", &m);
    let j = o.op("JacobianPerspectiveCache::new", || JacobianPerspectiveCache::new(&cam));
    for (k, p) in i.pts.iter().take(3).enumerate() {
        let p = Points::<WorldFrame, _, _, _>::new(SMatrix::<R, 1, 3>::new(R::of(p[0]), R::of(p[1]), R::of(p[2])));
        let d = o.op("linearize_at", || j.linearize_at(&p));
        o.rows(&format!("linearize_at {k}"), &d);
    }
    let pm = SMatrix::<R, 3, 4>::from_fn(|a, b| R::of(i.mat[4 * a + b]));
    match o.op("from_perspective_matrix", || Camera::from_perspective_matrix(&pm)) {
        Ok(c) => {
            let k = c.intrinsics();
            o.put("from_perspective_matrix intrinsics", vec![k.fx().f(), k.skew().f(), k.cx().f(), k.fy().f(), k.cy().f()]);
            pose(o, "from_perspective_matrix pose", c.extrinsics());
        }
        Err(e) => o.put("from_perspective_matrix error", vec![code(&e)]),
    }
    let pm = SMatrix::<R, 3, 4>::from_fn(|a, b| R::of(i.norm[4 * a + b]));
    match o.op("from_normalized_3x4_matrix", || IntrinsicParametersPerspective::from_normalized_3x4_matrix(pm)) {
        Ok(k) => o.put("from_normalized_3x4_matrix", vec![k.fx().f(), k.skew().f(), k.cx().f(), k.fy().f(), k.cy().f()]),
        Err(e) => o.put("from_normalized_3x4_matrix", vec![code(&e)]),
    }
    o.put("equality", vec![(e == e.clone()) as u8 as f64, (e == e2) as u8 as f64, (cam == cam.clone()) as u8 as f64]);
    #[cfg(feature = "alloc")]
    {
        use nalgebra::{Dyn, OMatrix};
        let pts = OMatrix::<R, Dyn, U3>::from_fn(i.pts.len(), |a, b| R::of(i.pts[a][b]));
        let pix = OMatrix::<R, Dyn, U2>::from_fn(i.pts.len(), |a, b| R::of(i.pix[a % i.pix.len()][b]));
        batch(o, "dynamic", &e, &kp, &ko, &pts, &pix, R::of(i.dist), false);
        let r3 = |a: &[f64]| SMatrix::<R, 1, 3>::new(R::of(a[0]), R::of(a[1]), R::of(a[2]));
        let rays: Vec<Ray<WorldFrame, R>> = i.rays.iter().map(|r| Ray::new(r3(&r[..3]), r3(&r[3..]))).collect();
        match best_intersection_of_rays(&rays) {
            Ok(p) => o.rows("best_intersection_of_rays", &p.data),
            Err(e) => o.put("best_intersection_of_rays error", vec![code(&e)]),
        }
        if let Err(e) = best_intersection_of_rays(&rays[..rays.len().min(1)]) {
            o.put("best_intersection_of_rays of one", vec![code(&e)]);
        }
    }
    #[cfg(feature = "std")]
    {
        let g = i.grid;
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            intrinsic_test_utils::roundtrip_intrinsics(&kp, g[0] as usize, g[1] as usize, g[2] as usize, g[3] as usize, R::of(g[4]))
        }));
        o.put("roundtrip_intrinsics passes", vec![ok.is_ok() as u8 as f64]);
        for (k, e) in
            [Error::InvalidInput, Error::SvdFailed, Error::MinimumTwoRaysNeeded, Error::InvalidRotationMatrix].iter().enumerate()
        {
            o.put(&format!("error text {k}"), format!("{e} {e:?}").bytes().map(f64::from).collect());
        }
    }
    stored(o, i, &e);
}
macro_rules! main_run {
    ($R:ty, $i:expr, $o:expr) => {
        run::<$R>($i, $o, &|o: &mut Out, i: &Input, e: &ExtrinsicParameters<$R>| {
            #[cfg(feature = "serde")]
            {
                let cam = Camera::new(IntrinsicParametersPerspective::from(persp_of::<$R>(i)), e.clone());
                match bincode::serialize(&cam) {
                    Ok(b) => {
                        let w = std::mem::size_of::<$R>();
                        let v = b
                            .chunks(w)
                            .map(|c| if c.len() == w { <$R>::from_le_bytes(c.try_into().unwrap()) as f64 } else { -1.0 })
                            .collect();
                        o.put("serialised camera", v);
                        match bincode::deserialize::<Camera<$R, IntrinsicParametersPerspective<$R>>>(&b) {
                            Ok(c) => {
                                o.put("deserialised camera is equal", vec![(c == cam) as u8 as f64]);
                                pose(o, "deserialised pose", c.extrinsics());
                            }
                            Err(_) => o.put("deserialised camera is equal", vec![-1.0]),
                        }
                    }
                    Err(_) => o.put("serialised camera", vec![]),
                }
            }
            let _ = (o, i, e);
        })
    };
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut inp, mut out) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut len = [0u8; 4];
    while inp.read_exact(&mut len).is_ok() {
        let mut b = vec![0; u32::from_le_bytes(len) as usize];
        if inp.read_exact(&mut b).is_err() {
            return;
        }
        let i = Input::decode(&b);
        let mut o = Out { s: vec![] };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if i.f32 {
                main_run!(f32, &i, &mut o)
            } else {
                main_run!(f64, &i, &mut o)
            }
        }));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            let last = o.s.last().map(|s| s.0.clone()).unwrap_or_default();
            let mut n = format!("panic after {last}: {}", m.unwrap_or_default());
            n.truncate(250);
            o.put(&n, vec![]);
        }
        let r = encode_out(&o.s);
        if out.write_all(&(r.len() as u32).to_le_bytes()).is_err() || out.write_all(&r).is_err() || out.flush().is_err() {
            return;
        }
    }
}
