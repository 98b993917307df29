use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use camcheck::scalars::{take_work, Tally};
use camcheck::{driver::*, gen::*};
use nalgebra::{
    allocator::Allocator, storage::Owned, Const, DefaultAllocator, Dim, Dyn, Isometry3, OMatrix, Point3,
    Quaternion, RealField, SMatrix, Storage, Translation3, Unit, UnitQuaternion, Vector3, U2, U3,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout as ALayout, System};
use std::cell::Cell;
use std::hint::black_box;

/// counts the bytes the current thread asks for
struct Counting;
thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
fn bump(n: usize) {
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: ALayout) -> *mut u8 {
        bump(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: ALayout) -> *mut u8 {
        bump(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: ALayout, n: usize) -> *mut u8 {
        bump(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: ALayout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// processor time of this thread in nanoseconds
fn cpu() -> f64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.sec as f64 * 1e9 + t.nsec as f64
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    WorldToCamera,
    CameraToWorld,
    CameraToPixel,
    WorldToPixel,
    PixelToCamera,
    PixelToWorld,
    /// a bundle of either kind (shared origin or not)
    PointOnRay(bool),
    AtDistance(bool),
    ToPose(bool),
    RayToWorld(bool),
    Compare(bool),
    Print(bool),
    Store(bool),
    /// statically sized batches
    Centers(bool),
    Directions(bool),
    Intersect,
    /// one linearisation, evaluated at every point
    Linearize,
    /// one object built from every row
    Poses,
    Views,
    Matrices,
    /// the conformance utility: image size, step, border in units of the step
    Grid(u64, u64),
    /// reading documents that announce more than they contain
    Announce(bool),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fill {
    Distinct,
    Same,
    Few(u32),
    Rising,
    Falling,
    Grid(u32),
    Zero,
    Nan,
    Wild,
    /// smooth curve, as points tracked over time
    Curve,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Counted,
    F64,
    F32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    op: Op,
    k: IntrC,
    pose: PoseC,
    n: usize,
    fill: Fill,
    scale: f64,
    seed: u64,
}
struct C30;

fn hash(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Case {
    /// coordinate j of row i
    fn at(&self, i: usize, j: usize) -> f64 {
        let r = |i: u64| (hash(self.seed, i * 7 + j as u64) >> 11) as f64 / (1u64 << 52) as f64 - 1.0;
        let x = i as f64;
        self.scale
            * match self.fill {
                Fill::Distinct => r(i as u64),
                Fill::Same => r(0),
                Fill::Few(k) => r(hash(!self.seed, i as u64) % k.max(1) as u64),
                Fill::Rising => x + 1.0 + j as f64,
                Fill::Falling => (self.n + 3) as f64 - x - j as f64 * 0.5,
                Fill::Grid(w) => match j {
                    0 => (i as u32 % w.max(1)) as f64,
                    1 => (i as u32 / w.max(1)) as f64,
                    _ => 5.0,
                },
                Fill::Zero => 0.0,
                Fill::Nan => f64::NAN,
                Fill::Wild => f64::from_bits(hash(self.seed, (i * 3 + j) as u64)),
                Fill::Curve => (x * 1e-3 * (j + 1) as f64 + r(0)).sin(),
            }
    }
}

trait Num: RealField + Serialize + DeserializeOwned {
    fn of(x: f64) -> Self;
}
impl Num for f64 {
    fn of(x: f64) -> Self {
        x
    }
}
impl Num for f32 {
    fn of(x: f64) -> Self {
        x as f32
    }
}
impl Num for Tally {
    fn of(x: f64) -> Self {
        camcheck::scalars::Sc::con(x)
    }
}
fn v3<R: Num>(v: [f64; 3]) -> Vector3<R> {
    Vector3::new(R::of(v[0]), R::of(v[1]), R::of(v[2]))
}
fn data<R: Num, N: Dim, const C: usize>(c: &Case, n: N) -> OMatrix<R, N, Const<C>>
where
    DefaultAllocator: Allocator<N, Const<C>>,
{
    OMatrix::from_fn_generic(n, Const::<C>, |i, j| R::of(c.at(i, j)))
}

/// What a call costs.
#[derive(Clone, Copy, Default)]
struct Cost {
    work: u64,
    bytes: u64,
    ns: f64,
}
fn cost<T>(f: impl FnOnce() -> T) -> Cost {
    take_work();
    let b = BYTES.with(|b| b.get());
    let t = cpu();
    let r = black_box(f());
    let ns = cpu() - t;
    let c = Cost { work: take_work(), bytes: BYTES.with(|b| b.get()) - b, ns };
    drop(r);
    c
}

/// hands everything on, counting the rows
struct Rows<'a, I>(&'a I, Cell<u64>);
impl<'a, R: RealField, I: IntrinsicParameters<R>> IntrinsicParameters<R> for Rows<'a, I>
where
    I: std::fmt::Debug,
{
    type BundleType = I::BundleType;
    fn pixel_to_camera<IN, NPTS>(
        &self,
        p: &Pixels<R, NPTS, IN>,
    ) -> RayBundle<CameraFrame, Self::BundleType, R, NPTS, Owned<R, NPTS, U3>>
    where
        Self::BundleType: Bundle<R>,
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<nalgebra::U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        self.1.set(self.1.get() + p.data.nrows() as u64);
        self.0.pixel_to_camera(p)
    }
    fn camera_to_pixel<IN, NPTS>(&self, p: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        self.1.set(self.1.get() + p.data.nrows() as u64);
        self.0.camera_to_pixel(p)
    }
}
impl<'a, I: std::fmt::Debug> std::fmt::Debug for Rows<'a, I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<'a, I> Clone for Rows<'a, I> {
    fn clone(&self) -> Self {
        Rows(self.0, self.1.clone())
    }
}

/// the cost, and the number of rows it is for
fn run<R: Num, I>(c: &Case, intr: I) -> (Cost, u64)
where
    R: Num,
    I: IntrinsicParameters<R> + std::fmt::Debug,
    I::BundleType: Bundle<R>,
{
    let q = UnitQuaternion::from_quaternion(Quaternion::new(c.pose.q[0], c.pose.q[1], c.pose.q[2], c.pose.q[3]));
    let q = Unit::new_unchecked(Quaternion::new(R::of(q.w), R::of(q.i), R::of(q.j), R::of(q.k)));
    let ctr = v3::<R>(c.pose.c);
    let ext = ExtrinsicParameters::from_rotation_and_camcenter(q.clone(), Point3::from(ctr.clone()));
    let iso = Isometry3::from_parts(Translation3::from(ctr), q);
    let n = Dyn(c.n);
    let rows = c.n as u64;
    macro_rules! camera {
        () => {
            Camera::new(intr, ext)
        };
    }
    /// with a bundle in the camera frame of either kind
    macro_rules! bundle {
        ($origin:expr, $n:expr, |$b:ident| $e:expr) => {{
            let m = data::<R, _, 3>(c, $n);
            if $origin {
                let $b = RayBundle::<CameraFrame, _, R, _, _>::new_shared_zero_origin(m);
                cost(|| $e)
            } else {
                let $b = RayBundle::<CameraFrame, _, R, _, _>::new_shared_plusz_direction(m);
                cost(|| $e)
            }
        }};
    }
    let cst = match c.op {
        Op::WorldToCamera => {
            let p = Points::<WorldFrame, _, _, _>::new(data::<R, _, 3>(c, n));
            cost(|| ext.world_to_camera(&p))
        }
        Op::CameraToWorld => {
            let p = Points::<CameraFrame, _, _, _>::new(data::<R, _, 3>(c, n));
            cost(|| ext.camera_to_world(&p))
        }
        Op::CameraToPixel => {
            let p = Points::<CameraFrame, _, _, _>::new(data::<R, _, 3>(c, n));
            cost(|| intr.camera_to_pixel(&p))
        }
        Op::WorldToPixel => {
            let p = Points::<WorldFrame, _, _, _>::new(data::<R, _, 3>(c, n));
            let cam = camera!();
            cost(|| cam.world_to_pixel(&p))
        }
        Op::PixelToCamera => {
            let p = Pixels::new(data::<R, _, 2>(c, n));
            cost(|| intr.pixel_to_camera(&p))
        }
        Op::PixelToWorld => {
            let p = Pixels::new(data::<R, _, 2>(c, n));
            let cam = camera!();
            cost(|| cam.pixel_to_world(&p))
        }
        Op::PointOnRay(b) => bundle!(b, n, |rb| rb.point_on_ray()),
        Op::AtDistance(b) => bundle!(b, n, |rb| rb.point_on_ray_at_distance(R::of(2.5))),
        Op::ToPose(b) => {
            let m = data::<R, _, 3>(c, n);
            if b {
                let bt = SharedOriginRayBundle::<R>::new_shared_zero_origin();
                cost(|| bt.to_pose::<_, _, WorldFrame>(iso, &m))
            } else {
                let bt = SharedDirectionRayBundle::<R>::new_plusz_shared_direction();
                cost(|| bt.to_pose::<_, _, WorldFrame>(iso, &m))
            }
        }
        Op::RayToWorld(b) => bundle!(b, n, |rb| ext.ray_camera_to_world(&rb)),
        Op::Compare(b) => bundle!(b, n, |rb| rb == rb.clone()),
        Op::Print(b) => bundle!(b, n, |rb| format!("{:?}", rb)),
        Op::Store(b) => {
            let m = data::<R, _, 3>(c, n);
            fn store<R: Num, B: Bundle<R> + Serialize + DeserializeOwned + 'static>(
                rb: &RayBundle<CameraFrame, B, R, Dyn, Owned<R, Dyn, U3>>,
            ) -> u64 {
                let v = bincode::serialize(rb).expect("serialises");
                let r: Result<RayBundle<CameraFrame, B, R, Dyn, Owned<R, Dyn, U3>>, _> = bincode::deserialize(&v);
                r.map(|r| r.data.nrows() as u64).expect("reads what was written")
            }
            if b {
                let rb = RayBundle::<CameraFrame, _, R, _, _>::new_shared_zero_origin(m);
                cost(|| store(&rb))
            } else {
                let rb = RayBundle::<CameraFrame, _, R, _, _>::new_shared_plusz_direction(m);
                cost(|| store(&rb))
            }
        }
        Op::Centers(b) => {
            let mut t = bundle!(b, Const::<32>, |rb| rb.centers());
            let u = bundle!(b, Const::<1024>, |rb| rb.centers());
            t.work += u.work;
            t.bytes += u.bytes;
            t.ns += u.ns;
            return (t, 1056);
        }
        Op::Directions(b) => {
            let mut t = bundle!(b, Const::<32>, |rb| rb.directions());
            let u = bundle!(b, Const::<1024>, |rb| rb.directions());
            t.work += u.work;
            t.bytes += u.bytes;
            t.ns += u.ns;
            return (t, 1056);
        }
        Op::Intersect => {
            let rays: Vec<Ray<WorldFrame, R>> = (0..c.n)
                .map(|i| {
                    let o = [0, 1, 2].map(|j| R::of(c.at(2 * i, j)));
                    let d = [0, 1, 2].map(|j| R::of(c.at(2 * i + 1, j)));
                    Ray::new(SMatrix::<R, 1, 3>::from_row_slice(&o), SMatrix::<R, 1, 3>::from_row_slice(&d))
                })
                .collect();
            cost(|| best_intersection_of_rays(&rays).is_ok())
        }
        Op::Linearize => {
            let IntrC::P(k) = c.k else { return (Cost::default(), rows) };
            let cam = Camera::new(persp_of::<R>(&k), ext);
            let pts: Vec<_> = (0..c.n)
                .map(|i| Points::<WorldFrame, R, _, _>::new(SMatrix::<R, 1, 3>::from_fn(|_, j| R::of(c.at(i, j)))))
                .collect();
            cost(|| {
                let j = JacobianPerspectiveCache::new(&cam);
                pts.iter().for_each(|p| {
                    black_box(j.linearize_at(p));
                })
            })
        }
        Op::Poses => {
            let isos: Vec<_> = (0..c.n)
                .map(|i| {
                    let q = Quaternion::new(R::of(c.at(i, 0)), R::of(c.at(i, 1)), R::of(c.at(i, 2)), R::of(1.0));
                    Isometry3::from_parts(
                        Translation3::new(R::of(c.at(i, 3)), R::of(c.at(i, 4)), R::of(c.at(i, 5))),
                        UnitQuaternion::from_quaternion(q),
                    )
                })
                .collect();
            cost(|| {
                isos.iter().for_each(|i| {
                    let e = ExtrinsicParameters::from_pose(i);
                    black_box((e.forward(), e.right(), e.up(), e.matrix().clone(), e.clone() == e, format!("{e:?}")));
                })
            })
        }
        Op::Views => {
            let vs: Vec<_> = (0..c.n)
                .map(|i| {
                    let p = |k: usize| Vector3::from_fn(|j, _| R::of(c.at(3 * i + k, j)));
                    (p(0), p(1), Unit::new_unchecked(p(2)))
                })
                .collect();
            cost(|| {
                vs.iter().for_each(|(a, b, u)| {
                    black_box(ExtrinsicParameters::from_view(a, b, u));
                })
            })
        }
        Op::Matrices => {
            let ms: Vec<_> = (0..c.n).map(|i| SMatrix::<R, 3, 4>::from_fn(|a, b| R::of(c.at(3 * i + a, b)))).collect();
            cost(|| {
                ms.iter().for_each(|m| {
                    if let Ok(cam) = black_box(Camera::from_perspective_matrix(m)) {
                        black_box(cam.as_camera_matrix());
                    }
                    let _ = black_box(IntrinsicParametersPerspective::from_normalized_3x4_matrix(m.clone()));
                })
            })
        }
        Op::Grid(step, border) => {
            // about c.n pixels in an image as large as the step makes it
            let side = (c.n as f64).sqrt() as u64 + 1;
            let border = border % step.max(1);
            let size = (side * step + 2 * border) as usize;
            let w = Rows(&intr, Cell::new(0));
            let (w, size, step, border) = (&w, size, step as usize, border as usize);
            let mut t = cost(|| {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    intrinsic_test_utils::roundtrip_intrinsics(w, size, size, step, border, R::of(f64::MAX.sqrt()))
                }));
            });
            t.work += 50 * w.1.get();
            return (t, (side + 1) * (side + 1));
        }
        Op::Announce(b) => {
            // the document of a bundle, cut short, or with the number of rows changed
            let m = data::<R, _, 3>(c, Dyn(c.n % 40));
            type Dy<R, B> = RayBundle<CameraFrame, B, R, Dyn, Owned<R, Dyn, U3>>;
            fn announce<R: Num, B: Bundle<R> + Serialize + DeserializeOwned>(rb: &Dy<R, B>, seed: u64) -> (Cost, u64) {
                let mut v = bincode::serialize(rb).expect("serialises");
                let mut t = Cost::default();
                for k in 0..8 {
                    let at = (hash(seed, k) % v.len().max(1) as u64) as usize;
                    let z = hash(seed, 100 + k) >> (hash(seed, 200 + k) % 64);
                    for (i, x) in z.to_le_bytes().iter().enumerate() {
                        if let Some(y) = v.get_mut(at / 8 * 8 + i) {
                            *y = *x
                        }
                    }
                    if k == 5 {
                        v.truncate(at);
                    }
                    // (nalgebra multiplies the announced sizes, which may overflow)
                    let read = || bincode::deserialize::<Dy<R, B>>(&v).is_ok();
                    let u = cost(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(read)).is_ok());
                    t = Cost { work: t.work + u.work, bytes: t.bytes.max(u.bytes), ns: t.ns + u.ns };
                }
                (t, v.len() as u64)
            }
            let (t, len) = if b {
                announce(&RayBundle::<CameraFrame, _, R, _, _>::new_shared_zero_origin(m), c.seed)
            } else {
                announce(&RayBundle::<CameraFrame, _, R, _, _>::new_shared_plusz_direction(m), c.seed)
            };
            return (t, len);
        }
    };
    (cst, rows)
}
fn persp_of<R: Num>(k: &PerspC) -> IntrinsicParametersPerspective<R> {
    PerspectiveParams { fx: R::of(k.fx), fy: R::of(k.fy), skew: R::of(k.skew), cx: R::of(k.cx), cy: R::of(k.cy) }.into()
}
fn both<R: Num>(c: &Case) -> (Cost, u64) {
    match &c.k {
        IntrC::P(k) => run::<R, _>(c, persp_of::<R>(k)),
        IntrC::O(k) => run::<R, _>(
            c,
            IntrinsicParametersOrthographic::from(OrthographicParams {
                sx: R::of(k.sx),
                sy: R::of(k.sy),
                cx: R::of(k.cx),
                cy: R::of(k.cy),
            }),
        ),
    }
}
fn any_kind(c: &Case) -> (Cost, u64) {
    match c.kind {
        Kind::Counted => both::<Tally>(c),
        Kind::F64 => both::<f64>(c),
        Kind::F32 => both::<f32>(c),
    }
}

/// Bounds (fixed part, part per row) of steps on numbers, bytes and nanoseconds.
/// What is observed per row: up to 290 steps, 290 bytes and 1 microsecond for bulk
/// operations, 3400 steps, 600 bytes and 12 microseconds where a row is an object
/// to be built.
fn bounds(op: Op) -> [(f64, f64); 3] {
    match op {
        Op::Poses | Op::Views | Op::Matrices => [(50_000.0, 40_000.0), (100_000.0, 10_000.0), (1e8, 2e5)],
        // serde itself reserves up to a mebibyte for an announced length
        Op::Announce(_) => [(50_000.0, 3000.0), (4e6, 4000.0), (1e8, 5000.0)],
        _ => [(50_000.0, 3000.0), (100_000.0, 4000.0), (1e8, 1e4)],
    }
}

fn strategy_() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        Just(Op::WorldToCamera),
        Just(Op::CameraToWorld),
        Just(Op::CameraToPixel),
        Just(Op::WorldToPixel),
        Just(Op::PixelToCamera),
        Just(Op::PixelToWorld),
        any::<bool>().prop_map(Op::PointOnRay),
        any::<bool>().prop_map(Op::AtDistance),
        any::<bool>().prop_map(Op::ToPose),
        any::<bool>().prop_map(Op::RayToWorld),
        any::<bool>().prop_map(Op::Compare),
        any::<bool>().prop_map(Op::Print),
        any::<bool>().prop_map(Op::Store),
        any::<bool>().prop_map(Op::Centers),
        any::<bool>().prop_map(Op::Directions),
        Just(Op::Intersect),
        Just(Op::Linearize),
        Just(Op::Poses),
        Just(Op::Views),
        Just(Op::Matrices),
        (prop_oneof![1u64..50, 50u64..5000, 5000u64..100_000_000], 0u64..1000).prop_map(|(s, b)| Op::Grid(s, b)),
        any::<bool>().prop_map(Op::Announce),
    ];
    let fill = prop_oneof![
        6 => Just(Fill::Distinct),
        1 => Just(Fill::Same),
        1 => (2u32..300).prop_map(Fill::Few),
        1 => Just(Fill::Rising),
        1 => Just(Fill::Falling),
        1 => (1u32..200).prop_map(Fill::Grid),
        1 => Just(Fill::Zero),
        1 => Just(Fill::Nan),
        1 => Just(Fill::Wild),
        1 => Just(Fill::Curve),
    ];
    let kind = prop_oneof![
        12 => (Just(Kind::Counted), prop_oneof![2 => 0usize..2000, 1 => 2000usize..6000]),
        2 => (Just(Kind::F64), prop_oneof![9 => 1000usize..60_000, 1 => 60_000usize..300_000]),
        1 => (Just(Kind::F32), prop_oneof![9 => 1000usize..60_000, 1 => 60_000usize..300_000]),
    ];
    (kind, op, intr(), pose(), fill, prop_oneof![4 => Just(1.0), 2 => logmag(-6.0, 6.0), 1 => logmag(-18.0, 18.0)], any::<u64>())
        .prop_map(|((kind, n), op, k, pose, fill, scale, seed)| Case { kind, op, k, pose, n, fill, scale, seed })
        .boxed()
}

impl Prop for C30 {
    type Case = Case;
    const ID: &'static str = "C30";
    const RULE: &'static str = "an operation of the interface on n rows of a generated pattern (distinct, equal, few values, sorted, grid, zero, NaN, any bits, smooth), n up to 6000 with numbers that count every operation, comparison and copy, and up to 300000 in f64 and f32 with the bytes and the processor time of the call; non-trivial: at least 1000 rows, so that quadratic work would exceed the bound";
    fn cases(tier: Tier) -> u64 {
        if tier == Tier::Quick { 16_000 } else { 300_000 }
    }
    fn strategy() -> BoxedStrategy<Case> {
        strategy_()
    }
    fn hang_secs() -> u64 {
        90
    }
    fn max_shrink() -> u32 {
        300
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        let (mut t, rows) = any_kind(c);
        let lim = bounds(c.op).map(|b| b.0 + b.1 * rows as f64);
        // the clock also sees the machine: the best of several runs
        for _ in 0..4 {
            if t.ns <= lim[2] {
                break;
            }
            t.ns = t.ns.min(any_kind(c).0.ns);
        }
        o.nontrivial = c.n >= 1000;
        o.label(match c.kind {
            Kind::Counted => "counted",
            Kind::F64 => "f64",
            Kind::F32 => "f32",
        });
        let what = |m: &str, u: &str| format!("{:?} on {rows} rows ({:?}, {:?}): {m} in {u} against the bound for that many rows", c.op, c.kind, c.fill);
        o.group("work");
        o.small(&|| what("work", "steps"), t.work as f64, lim[0])?;
        o.group("memory");
        o.small(&|| what("memory", "bytes"), t.bytes as f64, lim[1])?;
        o.group("time");
        o.small(&|| what("processor time", "nanoseconds"), t.ns, lim[2])?;
        if std::env::var("C30_STAT").is_ok() && c.n > 1000 {
            println!("{:?} {:?} {:?} n={} work/row {:.1} bytes/row {:.1} ns/row {:.1}", c.kind, c.op, c.fill, c.n, t.work as f64 / rows as f64, t.bytes as f64 / rows as f64, t.ns / rows as f64);
        }
        Ok(())
    }
}
fn main() {
    main_for::<C30>()
}
