use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use camcheck::{by_prec, driver::*, feat::*, gen::*, model::*, obj, pool};
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, Isometry3, SMatrix, ToTypenum, Translation3, Unit, Vector3};
use proptest::prelude::*;
use std::alloc::{GlobalAlloc, Layout as ALayout, System};
use std::cell::{Cell, RefCell};
use std::hint::black_box;
use std::sync::OnceLock;

/// counts the allocations of the current thread
struct Counting;
thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
fn bump(n: usize) {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: ALayout) -> *mut u8 {
        bump(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: ALayout) -> *mut u8 {
        bump(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: ALayout, n: usize) -> *mut u8 {
        bump(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: ALayout) {
        bump(0);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Here {
    prec: Prec,
    k: PerspC,
    o: OrthoC,
    pose: PoseC,
    lookat: [f64; 3],
    up: [f64; 3],
    /// number of rows, and the values they are filled with
    n: usize,
    vals: Vec<f64>,
    /// special values mixed in
    special: u8,
    dist: f64,
    matrix: Vec<f64>,
    strided: bool,
}
/// in this process, or in one process per feature configuration
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Here(Here),
    Config(FeatC),
}
struct C21;

const CONFIGS: [pool::Config; 4] = [pool::ALL[0], pool::ALL[1], pool::ALL[2], pool::ALL[3]];
static BROKEN: OnceLock<Option<String>> = OnceLock::new();
thread_local! {
    static POOL: RefCell<pool::Pool> = RefCell::new(pool::Pool::default());
}
fn config<R: Real>(c: &FeatC, o: &mut Obs) -> Res {
    if let Some(Some(b)) = BROKEN.get() {
        return Err(b.clone());
    }
    let i = input::<R>(c).0;
    let res = POOL.with(|p| p.borrow_mut().ask(&CONFIGS, &i))?;
    for (r, f) in res.iter().zip(&CONFIGS) {
        o.compared += 1;
        for (n, v) in r {
            ensure(!n.starts_with("panic"), || format!("{} configuration \"{}\": {n}", R::NAME, f.name))?;
            if let Some(n) = n.strip_prefix("alloc ") {
                return Err(format!("{} configuration \"{}\": {n} called the allocator {v:?} times", R::NAME, f.name));
            }
        }
    }
    o.label("in every feature configuration");
    o.nontrivial = i.pts.len() > 1;
    Ok(())
}


struct M<'a> {
    o: &'a mut Obs,
    bad: Option<String>,
}
impl<'a> M<'a> {
    #[inline(never)]
    fn op<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> T {
        let (a, b) = (COUNT.with(Cell::get), BYTES.with(Cell::get));
        let r = black_box(f());
        let n = COUNT.with(Cell::get) - a;
        self.o.compared += 1;
        if n > 0 && self.bad.is_none() {
            let by = BYTES.with(Cell::get) - b;
            self.bad = Some(format!("{name} called the allocator {n} times ({by} bytes)"));
        }
        r
    }
}
fn rays_of<R: Real, F: CoordinateSystem, B: Bundle<R> + Clone, const N: usize>(
    m: &mut M,
    rb: &RayBundle<F, B, R, Const<N>, nalgebra::Owned<R, Const<N>, nalgebra::U3>>,
    e: &ExtrinsicParameters<R>,
    d: R,
) where
    DefaultAllocator: Allocator<Const<N>, nalgebra::U3>,
{
    m.op("point_on_ray", || rb.point_on_ray().data);
    m.op("point_on_ray_at_distance", || rb.point_on_ray_at_distance(d).data);
    m.op("centers", || rb.centers());
    m.op("directions", || rb.directions());
    let _ = e;
}
fn model<R: Real, I: IntrinsicParameters<R>, const N: usize>(
    m: &mut M,
    k: I,
    e: &ExtrinsicParameters<R>,
    pts: &SMatrix<R, N, 3>,
    pix: &SMatrix<R, N, 2>,
    d: R,
    strided: bool,
) where
    I::BundleType: Bundle<R> + Clone,
    Const<N>: ToTypenum,
{
    let cam = m.op("Camera::new", || Camera::new(k.clone(), e.clone()));
    let cam = m.op("Camera::clone", || cam.clone());
    m.op("Camera::extrinsics, intrinsics", || {
        black_box(cam.extrinsics());
        black_box(cam.intrinsics());
    });
    let w = Points::<WorldFrame, _, _, _>::new(*pts);
    let c = Points::<CameraFrame, _, _, _>::new(*pts);
    let p = Pixels::new(*pix);
    m.op("world_to_pixel", || cam.world_to_pixel(&w).data);
    m.op("camera_to_pixel", || k.camera_to_pixel(&c).data);
    let rb = m.op("pixel_to_camera", || k.pixel_to_camera(&p));
    rays_of::<R, _, _, N>(m, &rb, e, d);
    m.op("ray_camera_to_world", || e.ray_camera_to_world(&rb));
    let rw = m.op("pixel_to_world", || cam.pixel_to_world(&p));
    rays_of::<R, _, _, N>(m, &rw, e, d);
    let p1 = Pixels::new(SMatrix::<R, 1, 2>::new(pix[(0, 0)], pix[(0, 1)]));
    m.op("to_single_ray", || cam.pixel_to_world(&p1).to_single_ray());
    if strided {
        let w = Points::<WorldFrame, _, _, _>::new(pts.fixed_view::<N, 3>(0, 0));
        let p = Pixels::new(pix.fixed_view::<N, 2>(0, 0));
        m.op("world_to_pixel of a view", || cam.world_to_pixel(&w).data);
        m.op("pixel_to_world of a view", || cam.pixel_to_world(&p));
    }
}
#[inline(never)]
fn sized<R: Real, const N: usize>(c: &Here, vals: &[R], m: &mut M, ext: &[ExtrinsicParameters<R>; 3])
where
    Const<N>: ToTypenum,
{
    let mut it = vals.iter().cycle();
    let pts = SMatrix::<R, N, 3>::from_fn(|_, _| *it.next().unwrap());
    let pix = SMatrix::<R, N, 2>::from_fn(|_, _| *it.next().unwrap());
    let d = R::of(c.dist);
    let kp = rnd_p::<R>(&c.k);
    let ko = rnd_o::<R>(&c.o);
    let (pp, op) = (pparams::<R>(&kp), oparams::<R>(&ko));
    let persp = m.op("perspective intrinsics", || IntrinsicParametersPerspective::from(pp.clone()));
    let ortho = m.op("orthographic intrinsics", || IntrinsicParametersOrthographic::from(op.clone()));
    for e in ext {
        let w = Points::<WorldFrame, _, _, _>::new(pts);
        let cf = Points::<CameraFrame, _, _, _>::new(pts);
        m.op("world_to_camera", || e.world_to_camera(&w).data);
        m.op("camera_to_world", || e.camera_to_world(&cf).data);
        model::<R, _, N>(m, persp.clone(), e, &pts, &pix, d, c.strided);
        model::<R, _, N>(m, ortho.clone(), e, &pts, &pix, d, c.strided);
        let rb = m.op("new_shared_zero_origin", || RayBundle::<CameraFrame, _, _, _, _>::new_shared_zero_origin(pts));
        m.op("ray_camera_to_world", || e.ray_camera_to_world(&rb));
        let rb = m.op("new_shared_plusz_direction", || RayBundle::<CameraFrame, _, _, _, _>::new_shared_plusz_direction(pts));
        m.op("ray_camera_to_world", || e.ray_camera_to_world(&rb));
        rays_of::<R, _, _, N>(m, &rb, e, d);
    }
}
fn run<R: Real>(c: &Here, o: &mut Obs) -> Res {
    let mut vals: Vec<R> = c.vals.iter().map(|x| R::of(*x)).collect();
    let sp = [f64::NAN, f64::INFINITY, 0.0, 1e-310, 1e300, -0.0];
    if (c.special as usize) < sp.len() {
        let n = vals.len();
        vals[n / 2] = R::of(sp[c.special as usize]);
        o.label("with a special value (NaN, infinite, zero, subnormal, huge)");
    }
    let mut m = M { o, bad: None };
    let q = mk_quat::<R>(c.pose.q);
    let cc = [0, 1, 2].map(|i| R::of(c.pose.c[i]));
    let v3 = |v: [f64; 3]| Vector3::new(R::of(v[0]), R::of(v[1]), R::of(v[2]));
    let e1 = obj::raw_ext::<R>(&c.pose);
    let e1 = m.op("from_rotation_and_camcenter", || {
        black_box(&e1);
        ExtrinsicParameters::from_rotation_and_camcenter(q, cc.into())
    });
    let iso = Isometry3::from_parts(Translation3::new(cc[1], cc[2], cc[0]), q);
    let e2 = m.op("from_pose", || ExtrinsicParameters::from_pose(&iso));
    let up = Unit::new_normalize(v3(c.up));
    let (ctr, la) = (v3(c.pose.c), v3(c.lookat));
    let e3 = m.op("from_view", || ExtrinsicParameters::from_view(&ctr, &la, &up));
    let ext = [e1, e2, e3];
    for e in &ext {
        m.op("pose accessors", || {
            black_box((e.camcenter(), e.pose(), e.matrix(), e.rotation(), e.translation()));
            black_box((e.forward(), e.up(), e.right()))
        });
        m.op("clone and compare", || e.clone() == ext[0]);
    }
    macro_rules! sizes {
        ($($n:literal)*) => {
            match c.n {
                $($n => sized::<R, $n>(c, &vals, &mut m, &ext),)*
                _ => sized::<R, 1>(c, &vals, &mut m, &ext),
            }
        };
    }
    sizes!(2 3 4 5 6 7 8 9 12 16 17 24 32 33 48 64);

    // camera matrices and linearisation
    let persp = mk_persp::<R>(&rnd_p::<R>(&c.k));
    for e in &ext {
        let cam = Camera::new(persp.clone(), e.clone());
        let pm = m.op("as_camera_matrix", || cam.as_camera_matrix());
        if pm.iter().all(|x| x.f().is_finite() && x.f().abs() < 1e12) && !c.matrix.is_empty() {
            m.op("from_perspective_matrix", || Camera::from_perspective_matrix(&pm).is_ok());
        }
        let _ = m.op("from_normalized_3x4_matrix", || {
            IntrinsicParametersPerspective::from_normalized_3x4_matrix(pm).is_ok()
        });
        let j = m.op("JacobianPerspectiveCache::new", || JacobianPerspectiveCache::new(&cam));
        for k in 0..3 {
            let x = |i: usize| vals[(3 * k + i) % vals.len()];
            let p = Points::<WorldFrame, _, _, _>::new(SMatrix::<R, 1, 3>::new(x(0), x(1), x(2)));
            m.op("linearize_at", || j.linearize_at(&p));
        }
    }
    // any matrix, also not that of a camera
    if c.matrix.len() == 12 {
        let pm = SMatrix::<R, 3, 4>::from_fn(|i, j| R::of(c.matrix[i * 4 + j]));
        m.op("from_perspective_matrix", || Camera::from_perspective_matrix(&pm).is_ok());
        let k = SMatrix::<R, 3, 4>::from_fn(|i, j| {
            if j < i || (j == 3 && c.n % 3 > 0) {
                R::of(0.0)
            } else if i == 2 && j == 2 {
                R::of(1.0)
            } else {
                pm[(i, j)]
            }
        });
        m.op("from_normalized_3x4_matrix", || IntrinsicParametersPerspective::from_normalized_3x4_matrix(k).is_ok());
        m.op("from_normalized_3x4_matrix", || IntrinsicParametersPerspective::from_normalized_3x4_matrix(pm).is_ok());
    }
    let bad = m.bad;
    o.label(R::NAME);
    o.label(match c.n {
        1 => "1 row",
        2..=8 => "2 to 8 rows",
        9..=24 => "9 to 24 rows",
        _ => "more than 24 rows",
    });
    o.nontrivial = c.n > 1;
    match bad {
        Some(b) => Err(format!("{} {} rows: {b}", R::NAME, c.n)),
        None => Ok(()),
    }
}
impl Prop for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    const RULE: &'static str = "every statically sized operation run on 1..64 rows of random values (incl. NaN, infinities, zeros, huge and tiny ones), poses from all three constructors, both models, camera and arbitrary matrices, under an allocator that counts calls per thread, in this process (std) and in one process each for the configurations std, none, alloc and serde; non-trivial: more than one row";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 400_000,
            Tier::Thorough => 12_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let n = proptest::sample::select(vec![1usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 48, 64]);
        let mat = prop_oneof![
            2 => proptest::collection::vec(coord(), 12..13),
            1 => proptest::collection::vec(-2.0..2.0f64, 12..13),
            1 => Just(vec![]),
        ];
        let here = (
            prec(),
            persp(),
            ortho(),
            pose(),
            vec3(coord),
            dirvec(),
            n,
            proptest::collection::vec(prop_oneof![3 => coord(), 1 => obj::num(), 1 => -100.0..2500.0f64], 3..40),
            (0u8..30, distance()),
            (mat, any::<bool>()),
        )
            .prop_map(|(prec, k, o, pose, lookat, up, n, vals, (special, dist), (matrix, strided))| Here {
                prec,
                k,
                o,
                pose,
                lookat,
                up,
                n,
                vals,
                special,
                dist,
                matrix,
                strided,
            });
        prop_oneof![9 => here.prop_map(Case::Here), 1 => feat().prop_map(Case::Config)].boxed()
    }
    fn setup() -> Result<(), String> {
        match pool::build(&CONFIGS) {
            Ok(()) => BROKEN.set(None).ok(),
            Err(pool::BuildError::Library(n, e)) => {
                BROKEN.set(Some(format!("the library does not compile in configuration \"{n}\": {e}"))).ok()
            }
            Err(pool::BuildError::Other(e)) => return Err(e),
        };
        Ok(())
    }
    fn max_shrink() -> u32 {
        3000
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        match c {
            Case::Here(c) => by_prec!(c.prec, run(c, o)),
            Case::Config(c) => by_prec!(c.prec, config(c, o)),
        }
    }
}
fn main() {
    main_for::<C21>()
}
