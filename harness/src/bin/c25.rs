use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use camcheck::{by_prec, calls, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{Dyn, OMatrix, Point3, SMatrix, Unit, U2, U3};
use proptest::prelude::*;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Derive {
    Clone,
    Json,
    Bincode,
    Cbor,
    /// new camera from the intrinsics and the reported isometry
    Pose,
    /// new camera from the intrinsics and the reported view vectors
    View,
    /// decomposition of the reported camera matrix (perspective only)
    Matrix,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Query {
    ProjectOne,
    ProjectAll,
    CamToPix,
    RayOne,
    RaysAll,
    Views,
    ToCamera,
    ToWorld,
    RayToWorld,
    CameraMatrix,
    Jacobian,
    Params,
    /// same as asking for everything
    Everything,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New { to: usize, intr: usize, pose: usize },
    Derive { from: usize, to: usize, how: Derive },
    /// intrinsics of one, pose of another
    Combine { a: usize, b: usize, to: usize },
    Linearise { from: usize, to: usize },
    Drop { slot: usize },
    Ask { slot: usize, what: Query, arg: usize },
    /// both objects' rays through one pixel, intersected
    Intersect { a: usize, b: usize, arg: usize },
    /// several threads ask the shared objects at the same time
    Threads { n: usize, asks: Vec<(usize, Query, usize)> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    prec: Prec,
    intr: Vec<IntrC>,
    pose: Vec<PoseC>,
    pts: Vec<[f64; 3]>,
    pix: Vec<[f64; 2]>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    History(History),
    /// unrelated calls, made again in other orders, in other processes, in
    /// several threads
    Calls { calls: Vec<calls::Call>, order: Vec<u16>, processes: bool, threads: bool },
}
struct C25;
const SLOTS: usize = 4;

/// how an object came to be: replaying it gives a fresh object with the same parameters
#[derive(Clone, Debug)]
enum Spec {
    New(KM, PoseC),
    Pose(Arc<Spec>),
    View(Arc<Spec>),
    Matrix(Arc<Spec>),
    Combine(Arc<Spec>, Arc<Spec>),
}
enum Live<R: Real> {
    P(Camera<R, IntrinsicParametersPerspective<R>>),
    O(Camera<R, IntrinsicParametersOrthographic<R>>),
    J(JacobianPerspectiveCache<R>),
}
/// sharing is checked separately (see SHAREABLE); this keeps the check
/// compiling whatever the answer
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized + Send + Sync> Probe<T> {
    const YES: bool = true;
}
#[allow(dead_code)]
trait No {
    const YES: bool = false;
}
impl<T: ?Sized> No for Probe<T> {}
macro_rules! shareable {
    ($($t:ty),* $(,)?) => {
        const SHAREABLE: &[(&str, bool)] = &[$((stringify!($t), Probe::<$t>::YES)),*];
    };
}
shareable!(
    Camera<f64, IntrinsicParametersPerspective<f64>>,
    Camera<f32, IntrinsicParametersOrthographic<f32>>,
    ExtrinsicParameters<f64>,
    JacobianPerspectiveCache<f64>,
    IntrinsicParametersPerspective<f32>,
    IntrinsicParametersOrthographic<f64>,
    Ray<WorldFrame, f64>,
);

impl<R: Real> Live<R> {
    fn ext(&self) -> Option<&ExtrinsicParameters<R>> {
        match self {
            Live::P(c) => Some(c.extrinsics()),
            Live::O(c) => Some(c.extrinsics()),
            Live::J(_) => None,
        }
    }
    fn with_ext(&self, e: ExtrinsicParameters<R>) -> Option<Live<R>> {
        match self {
            Live::P(c) => Some(Live::P(Camera::new(c.intrinsics().clone(), e))),
            Live::O(c) => Some(Live::O(Camera::new(c.intrinsics().clone(), e))),
            Live::J(_) => None,
        }
    }
    fn pose_rt(&self) -> Option<Live<R>> {
        let e = ExtrinsicParameters::from_pose(self.ext()?.pose());
        self.with_ext(e)
    }
    fn view_rt(&self) -> Option<Live<R>> {
        let e = self.ext()?;
        let c = e.camcenter().coords;
        let at = c + e.forward().into_inner();
        let up = Unit::new_unchecked(e.up().into_inner());
        self.with_ext(ExtrinsicParameters::from_view(&c, &at, &up))
    }
    fn matrix_rt(&self) -> Option<Live<R>> {
        match self {
            Live::P(c) => Camera::from_perspective_matrix(&c.as_camera_matrix()).ok().map(Live::P),
            _ => None,
        }
    }
    /// all parameters finite (JSON has no other numbers)
    fn finite(&self) -> bool {
        let k = match self {
            Live::P(c) => {
                let k = c.intrinsics();
                [k.fx(), k.fy(), k.skew(), k.cx(), k.cy()].iter().all(|x| x.f().is_finite())
            }
            _ => true,
        };
        k && self.ext().is_none_or(|e| {
            let p = e.pose();
            p.rotation.coords.iter().chain(p.translation.vector.iter()).chain(e.camcenter().iter()).all(|x| x.f().is_finite())
        })
    }
    fn derive(&self, how: Derive) -> Result<Option<Live<R>>, String> {
        let how = if matches!(how, Derive::Json) && !self.finite() { Derive::Clone } else { how };
        fn copy<T: Serialize + DeserializeOwned + Clone>(x: &T, how: Derive) -> Result<T, String> {
            let e = |e: &dyn std::fmt::Display| format!("{how:?} copy failed: {e}");
            Ok(match how {
                Derive::Json => {
                    let s = serde_json::to_string(x).map_err(|x| e(&x))?;
                    serde_json::from_str(&s).map_err(|x| e(&x))?
                }
                Derive::Bincode => {
                    let s = bincode::serialize(x).map_err(|x| e(&x))?;
                    bincode::deserialize(&s).map_err(|x| e(&x))?
                }
                Derive::Cbor => {
                    let mut s = vec![];
                    ciborium::into_writer(x, &mut s).map_err(|x| e(&x))?;
                    ciborium::from_reader(&s[..]).map_err(|x| e(&x))?
                }
                _ => x.clone(),
            })
        }
        Ok(match how {
            Derive::Pose => self.pose_rt(),
            Derive::View => self.view_rt(),
            Derive::Matrix => self.matrix_rt(),
            _ => match self {
                Live::P(c) => Some(Live::P(copy(c, how)?)),
                Live::O(c) => Some(Live::O(copy(c, how)?)),
                Live::J(_) => None,
            },
        })
    }
    fn combine(a: &Live<R>, b: &Live<R>) -> Option<Live<R>> {
        a.with_ext(b.ext()?.clone())
    }
}
impl Spec {
    fn build<R: Real>(&self) -> Option<Live<R>> {
        match self {
            Spec::New(k, p) => {
                let uq = nalgebra::UnitQuaternion::new_unchecked(nalgebra::Quaternion::new(
                    R::of(p.q[0]),
                    R::of(p.q[1]),
                    R::of(p.q[2]),
                    R::of(p.q[3]),
                ));
                let c = Point3::new(R::of(p.c[0]), R::of(p.c[1]), R::of(p.c[2]));
                let e = ExtrinsicParameters::from_rotation_and_camcenter(uq, c);
                Some(if k.ortho {
                    Live::O(Camera::new(mk_ortho::<R>(k), e))
                } else {
                    Live::P(Camera::new(mk_persp::<R>(k), e))
                })
            }
            Spec::Pose(s) => s.build()?.pose_rt(),
            Spec::View(s) => s.build()?.view_rt(),
            Spec::Matrix(s) => s.build()?.matrix_rt(),
            Spec::Combine(a, b) => Live::combine(&a.build()?, &b.build()?),
        }
    }
    /// intrinsics, pose and number of pose round trips; None where only the
    /// bitwise comparison applies
    fn base(&self) -> Option<(KM, PoseC, i32)> {
        match self {
            Spec::New(k, p) => Some((*k, *p, 0)),
            Spec::Pose(s) => s.base().map(|(k, p, n)| (k, p, n + 1)),
            Spec::View(_) | Spec::Matrix(_) => None,
            Spec::Combine(a, b) => {
                let ((k, ..), (_, p, n)) = (a.base()?, b.base()?);
                Some((k, p, n))
            }
        }
    }
    fn depth(&self) -> usize {
        match self {
            Spec::New(..) => 0,
            Spec::Pose(s) | Spec::View(s) | Spec::Matrix(s) => s.depth() + 1,
            Spec::Combine(a, b) => a.depth().max(b.depth()) + 1,
        }
    }
}
type Bits = Vec<u64>;
fn bits_of<R: Real>(v: impl IntoIterator<Item = R>) -> Bits {
    v.into_iter().map(|x| if x.f().is_nan() { u64::MAX } else { x.bits() }).collect()
}
struct Args<R: Real> {
    pts: Vec<[f64; 3]>,
    pix: Vec<[f64; 2]>,
    all: OMatrix<R, Dyn, U3>,
    allpix: OMatrix<R, Dyn, U2>,
}
impl<R: Real> Args<R> {
    fn pt(&self, k: usize) -> SMatrix<R, 1, 3> {
        let p = self.pts[k % self.pts.len()];
        SMatrix::<R, 1, 3>::new(R::of(p[0]), R::of(p[1]), R::of(p[2]))
    }
    fn px(&self, k: usize) -> SMatrix<R, 1, 2> {
        let p = self.pix[k % self.pix.len()];
        SMatrix::<R, 1, 2>::new(R::of(p[0]), R::of(p[1]))
    }
}
fn ask_cam<R: Real, I: IntrinsicParameters<R>>(c: &Camera<R, I>, q: Query, k: usize, a: &Args<R>) -> Bits
where
    I::BundleType: Bundle<R>,
{
    let e = c.extrinsics();
    match q {
        Query::ProjectOne => bits_of(c.world_to_pixel(&Points::new(a.pt(k))).data.iter().copied()),
        Query::ProjectAll => bits_of(c.world_to_pixel(&Points::new(a.all.clone())).data.iter().copied()),
        Query::CamToPix => {
            bits_of(c.intrinsics().camera_to_pixel(&Points::new(a.pt(k))).data.iter().copied())
        }
        Query::RayOne => {
            let r = c.pixel_to_world(&Pixels::new(a.px(k))).to_single_ray();
            bits_of(r.center.iter().chain(r.direction.iter()).copied())
        }
        Query::RaysAll => {
            let r = c.pixel_to_world(&Pixels::new(a.allpix.clone()));
            bits_of(r.point_on_ray_at_distance(R::of(1.5 + k as f64)).data.iter().copied())
        }
        Query::Views => {
            let v: Vec<R> = e
                .camcenter()
                .coords
                .iter()
                .chain(e.matrix().iter())
                .chain(e.rotation().matrix().iter())
                .chain(e.translation().coords.iter())
                .chain(e.pose().translation.vector.iter())
                .chain(e.pose().rotation.coords.iter())
                .copied()
                .chain(e.forward().into_inner().iter().copied())
                .chain(e.up().into_inner().iter().copied())
                .chain(e.right().into_inner().iter().copied())
                .collect();
            bits_of(v)
        }
        Query::ToCamera => bits_of(e.world_to_camera(&Points::new(a.pt(k))).data.iter().copied()),
        Query::ToWorld => bits_of(e.camera_to_world(&Points::new(a.pt(k))).data.iter().copied()),
        Query::RayToWorld => {
            let rb = RayBundle::new_shared_plusz_direction(a.all.clone());
            bits_of(e.ray_camera_to_world(&rb).point_on_ray_at_distance(R::of(2.0)).data.iter().copied())
        }
        _ => vec![],
    }
}
const EACH: [Query; 12] = [
    Query::ProjectOne,
    Query::ProjectAll,
    Query::CamToPix,
    Query::RayOne,
    Query::RaysAll,
    Query::Views,
    Query::ToCamera,
    Query::ToWorld,
    Query::RayToWorld,
    Query::CameraMatrix,
    Query::Jacobian,
    Query::Params,
];
fn ask<R: Real>(o: &Live<R>, q: Query, k: usize, a: &Args<R>) -> Bits {
    if let Query::Everything = q {
        return EACH.iter().flat_map(|q| ask(o, *q, k, a)).collect();
    }
    match o {
        Live::J(j) => bits_of(j.linearize_at(&Points::new(a.pt(k))).iter().copied()),
        Live::O(c) => ask_cam(c, q, k, a),
        Live::P(c) => match q {
            Query::CameraMatrix => bits_of(c.as_camera_matrix().iter().copied()),
            Query::Jacobian => {
                bits_of(JacobianPerspectiveCache::new(c).linearize_at(&Points::new(a.pt(k))).iter().copied())
            }
            Query::Params => {
                let i = c.intrinsics();
                let p = i.params();
                bits_of([i.fx(), i.fy(), i.skew(), i.cx(), i.cy(), p.fx, p.fy, p.skew, p.cx, p.cy])
            }
            _ => ask_cam(c, q, k, a),
        },
    }
}
/// the same answer from the reference model, where it says something
fn reference<R: Real>(o: &mut Obs, spec: &Spec, is_j: bool, q: Query, k: usize, a: &Args<R>, got: &Bits) -> Res {
    if got.is_empty() {
        return Ok(());
    }
    let Some((km, p, n)) = spec.base() else { return Ok(()) };
    let eps = R::EPS * 4f64.powi(n);
    let pose = PoseM::new(dd::rotmat(p.q), dd::v3(p.c));
    let val: Vec<f64> = got.iter().map(|b| R::from_bits64(*b).f()).collect();
    let pt = rnd3::<R>(a.pts[k % a.pts.len()]);
    let pix = a.pix[k % a.pix.len()];
    let pix = [rnd::<R>(pix[0]), rnd::<R>(pix[1])];
    let what = |s: &'static str| move || format!("{} {s} (argument {k})", R::NAME);
    let q = if is_j { Query::Jacobian } else { q };
    match q {
        Query::ProjectOne | Query::CamToPix => {
            let (x, e) = if matches!(q, Query::CamToPix) {
                (dd::v3(pt), 0.0)
            } else {
                (pose.to_cam(dd::v3(pt)), e_frame(pt, &pose, eps))
            };
            match km.project(x, e, eps) {
                Some(m) => close2(o, &what("projection"), [val[0], val[1]], &m)?,
                None => o.skipped += 1,
            }
        }
        Query::ToCamera => {
            let w = pose.to_cam(dd::v3(pt));
            close3(o, &what("world_to_camera"), [val[0], val[1], val[2]], w, K * e_frame(pt, &pose, eps))?
        }
        Query::ToWorld => {
            let w = pose.to_world(dd::v3(pt));
            close3(o, &what("camera_to_world"), [val[0], val[1], val[2]], w, K * e_frame(pt, &pose, eps))?
        }
        Query::RayOne => {
            let (v, e) = km.unproject(pix, eps);
            let e = e[0].max(e[1]) + K * eps * vn(v);
            let (c, d) = if km.ortho {
                (pose.to_world(v), dd::mtv(&pose.r, dd::v3([0.0, 0.0, 1.0])))
            } else {
                (pose.c, dd::mtv(&pose.r, v))
            };
            let ec = K * eps * pose.cn + if km.ortho { 2.0 * e } else { 0.0 };
            let ed = if km.ortho { K * eps } else { 2.0 * e };
            close3(o, &what("ray centre"), [val[0], val[1], val[2]], c, ec)?;
            close3(o, &what("ray direction"), [val[3], val[4], val[5]], d, ed)?;
        }
        Query::Views => {
            close3(o, &what("camera centre"), [val[0], val[1], val[2]], pose.c, K * eps * pose.cn)?;
            for j in 0..3 {
                let row = [val[15 + j], val[18 + j], val[21 + j]];
                close3(o, &what("rotation"), row, pose.r[j], K * eps)?;
            }
        }
        Query::CameraMatrix => {
            // column-major 3x4: its projection of the point
            let h: Vec<Dd> = (0..3)
                .map(|i| {
                    Dd::new(val[i]) * Dd::new(pt[0])
                        + Dd::new(val[3 + i]) * Dd::new(pt[1])
                        + Dd::new(val[6 + i]) * Dd::new(pt[2])
                        + Dd::new(val[9 + i])
                })
                .collect();
            match km.project(pose.to_cam(dd::v3(pt)), e_frame(pt, &pose, eps), eps) {
                Some(m) => close2(o, &what("camera matrix"), [(h[0] / h[2]).f(), (h[1] / h[2]).f()], &m)?,
                None => o.skipped += 1,
            }
        }
        Query::Jacobian => {
            let pc = pose.to_cam(dd::v3(pt));
            let z = pc[2].f().abs();
            let e = e_frame(pt, &pose, eps);
            if !(K * e < z / 8.0) {
                o.skipped += 1;
                return Ok(());
            }
            let num = [Dd::new(km.fx) * pc[0] + Dd::new(km.skew) * pc[1], Dd::new(km.fy) * pc[1]];
            let kr = [
                dd::add(dd::scale(pose.r[0], Dd::new(km.fx)), dd::scale(pose.r[1], Dd::new(km.skew))),
                dd::scale(pose.r[1], Dd::new(km.fy)),
            ];
            let u = [(num[0] / pc[2]).f() + km.cx, (num[1] / pc[2]).f() + km.cy];
            let mag = [
                km.fx.abs() + km.skew.abs() + km.cx.abs() + u[0].abs(),
                km.fy.abs() + km.cy.abs() + u[1].abs(),
            ];
            for i in 0..2 {
                for j in 0..3 {
                    let want = (kr[i][j] * pc[2] - num[i] * pose.r[2][j]) / (pc[2] * pc[2]);
                    let tol = K * (eps * mag[i] / z + 2.0 * mag[i] * e / (z * z));
                    o.close(&what("linearisation"), val[2 * j + i], want.f(), tol)?;
                }
            }
        }
        Query::Params => {
            for (j, w) in [km.fx, km.fy, km.skew, km.cx, km.cy].iter().enumerate() {
                for g in [val[j], val[j + 5]] {
                    ensure(g == *w, || format!("{} parameter {j}: {g:?}, built from {w:?}", R::NAME))?;
                }
            }
        }
        _ => {}
    }
    Ok(())
}

struct Slot<R: Real> {
    live: Shared<Live<R>>,
    spec: Arc<Spec>,
}
impl<R: Real> Slot<R> {
    fn is_j(&self) -> bool {
        matches!(self.live.0, Live::J(_))
    }
    /// a freshly built object with the same parameters
    fn fresh(&self) -> Result<Live<R>, String> {
        let f = self.spec.build::<R>().ok_or_else(|| format!("{:?} cannot be built again", self.spec))?;
        Ok(match (&self.live.0, f) {
            (Live::J(_), Live::P(c)) => Live::J(JacobianPerspectiveCache::new(&c)),
            (_, f) => f,
        })
    }
}
fn run<R: Real>(c: &History, o: &mut Obs) -> Res {
    for (t, yes) in SHAREABLE {
        ensure(*yes, || format!("{t} cannot be shared between threads (not Send + Sync)"))?;
    }
    let a = Args::<R> {
        pts: c.pts.clone(),
        pix: c.pix.clone(),
        all: OMatrix::<R, Dyn, U3>::from_fn(c.pts.len(), |i, j| R::of(c.pts[i][j])),
        allpix: OMatrix::<R, Dyn, U2>::from_fn(c.pix.len(), |i, j| R::of(c.pix[i][j])),
    };
    let mut slots: Vec<Option<Slot<R>>> = (0..SLOTS).map(|_| None).collect();
    let new = |i: usize, p: usize| {
        let p = &c.pose[p % c.pose.len()];
        let q = quat_of(&mk_quat::<R>(p.q));
        let spec = Spec::New(rnd_i::<R>(&c.intr[i % c.intr.len()]), PoseC { q, c: rnd3::<R>(p.c) });
        Slot { live: Shared(spec.build::<R>().unwrap()), spec: Arc::new(spec) }
    };
    slots[0] = Some(new(0, 0));
    slots[1] = Some(new(1, 1));
    let mut asked = 0u64;
    let mut derived = false;
    for (step, op) in c.ops.iter().enumerate() {
        match op {
            Op::New { to, intr, pose } => slots[to % SLOTS] = Some(new(*intr, *pose)),
            Op::Drop { slot } => slots[slot % SLOTS] = None,
            Op::Derive { from, to, how } => {
                let Some(s) = &slots[from % SLOTS] else { continue };
                if s.spec.depth() >= 4 {
                    continue;
                }
                let spec = match how {
                    Derive::Pose => Arc::new(Spec::Pose(s.spec.clone())),
                    Derive::View => Arc::new(Spec::View(s.spec.clone())),
                    Derive::Matrix => Arc::new(Spec::Matrix(s.spec.clone())),
                    _ => s.spec.clone(),
                };
                let got = s.live.0.derive(*how)?;
                if s.is_j() {
                    continue;
                }
                let again = s.fresh()?.derive(*how)?;
                ensure(got.is_some() == again.is_some(), || {
                    format!("step {step}: {how:?} of an object that was used works: {}, of a fresh one: {}", got.is_some(), again.is_some())
                })?;
                if let Some(l) = got {
                    derived = true;
                    slots[to % SLOTS] = Some(Slot { live: Shared(l), spec });
                }
            }
            Op::Combine { a, b, to } => {
                let (Some(x), Some(y)) = (&slots[a % SLOTS], &slots[b % SLOTS]) else { continue };
                if x.is_j() || y.is_j() || x.spec.depth().max(y.spec.depth()) >= 4 {
                    continue;
                }
                let l = Live::combine(&x.live.0, &y.live.0).unwrap();
                let spec = Arc::new(Spec::Combine(x.spec.clone(), y.spec.clone()));
                derived = true;
                slots[to % SLOTS] = Some(Slot { live: Shared(l), spec });
            }
            Op::Linearise { from, to } => {
                let Some(s) = &slots[from % SLOTS] else { continue };
                if let Live::P(c) = &s.live.0 {
                    let l = Shared(Live::J(JacobianPerspectiveCache::new(c)));
                    o.label("linearisation kept");
                    derived = true;
                    slots[to % SLOTS] = Some(Slot { live: l, spec: s.spec.clone() });
                }
            }
            Op::Ask { slot, what, arg } => {
                let Some(s) = &slots[slot % SLOTS] else { continue };
                // the used object first, so that a fresh one cannot repair its state
                let got = ask(&s.live.0, *what, *arg, &a);
                reference(o, &s.spec, s.is_j(), *what, *arg, &a, &got)?;
                let want = ask(&s.fresh()?, *what, *arg, &a);
                asked += 1;
                o.compared += 1;
                ensure(got == want, || {
                    format!("{} step {step}: {what:?}({arg}) gives {got:x?} on the object in use, {want:x?} on a freshly built one", R::NAME)
                })?;
            }
            Op::Intersect { a: x, b: y, arg } => {
                let (Some(x), Some(y)) = (&slots[x % SLOTS], &slots[y % SLOTS]) else { continue };
                let ray = |l: &Live<R>| match l {
                    Live::P(c) => Some(c.pixel_to_world(&Pixels::new(a.px(*arg))).to_single_ray()),
                    Live::O(c) => Some(c.pixel_to_world(&Pixels::new(a.px(*arg))).to_single_ray()),
                    Live::J(_) => None,
                };
                let (Some(r), Some(s)) = (ray(&x.live.0), ray(&y.live.0)) else { continue };
                let get = |r: Ray<WorldFrame, R>, s: Ray<WorldFrame, R>| {
                    best_intersection_of_rays(&[r, s]).map(|p| bits_of(p.data.iter().copied())).ok()
                };
                let got = get(r, s);
                let (Some(r), Some(s)) = (ray(&x.fresh()?), ray(&y.fresh()?)) else { continue };
                let want = get(r, s);
                asked += 1;
                o.compared += 1;
                ensure(got == want, || {
                    format!("{} step {step}: intersection gives {got:x?} with the objects in use, {want:x?} with fresh ones", R::NAME)
                })?;
            }
            Op::Threads { n, asks } => {
                let list: Vec<(&Slot<R>, Query, usize)> = asks
                    .iter()
                    .filter_map(|(s, q, k)| slots[s % SLOTS].as_ref().map(|s| (s, *q, *k)))
                    .collect();
                if list.is_empty() {
                    continue;
                }
                o.label("threads on shared objects");
                let share: Vec<(&Shared<Live<R>>, Query, usize)> = list.iter().map(|(s, q, k)| (&s.live, *q, *k)).collect();
                let ar = &Shared(&a);
                let share = &Shared(share);
                let all: Vec<Vec<Vec<Bits>>> = std::thread::scope(|sc| {
                    let h: Vec<_> = (0..*n)
                        .map(|t| {
                            sc.spawn(move || {
                                let (sh, ar): (&Shared<_>, &Shared<&Args<R>>) = (share, ar);
                                let l = sh.0.len();
                                let mut out = vec![vec![]; l];
                                for round in 0..4 {
                                    for i in 0..l {
                                        let (s, q, k) = &sh.0[(i * (1 + t % 2) + t + round) % l];
                                        let r = ask(&s.0, *q, *k, ar.0);
                                        out[(i * (1 + t % 2) + t + round) % l].push(r);
                                    }
                                }
                                out
                            })
                        })
                        .collect();
                    h.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
                })
                .map_err(|_| format!("panic in a thread: {}", last_panic()))?;
                for (i, (s, q, k)) in list.iter().enumerate() {
                    let want = ask(&s.fresh()?, *q, *k, &a);
                    if let Some(b) = all.first().and_then(|t| t[i].first()) {
                        reference(o, &s.spec, s.is_j(), *q, *k, &a, b)?;
                    }
                    for t in &all {
                        for got in &t[i] {
                            o.compared += 1;
                            ensure(*got == want, || {
                                format!("{} step {step}: {q:?}({k}) in one of {n} threads gives {got:x?}, expected {want:x?}", R::NAME)
                            })?;
                        }
                    }
                }
                asked += 1;
            }
        }
    }
    // at the end every object must still be what it was made to be
    for s in slots.iter().flatten() {
        for k in 0..2 {
            let got = ask(&s.live.0, Query::Everything, k, &a);
            let want = ask(&s.fresh()?, Query::Everything, k, &a);
            o.compared += 1;
            ensure(got == want, || format!("{} at the end: {got:x?} on the object in use, {want:x?} on a freshly built one", R::NAME))?;
        }
    }
    o.label(R::NAME);
    o.lab_if(derived, "derived objects");
    o.nontrivial = asked >= 2 && derived;
    Ok(())
}
fn unrelated(calls: &[calls::Call], order: &[u16], processes: bool, threads: bool, o: &mut Obs) -> Res {
    let first: Vec<Bits> = calls.iter().map(|c| c.eval()).collect();
    let same = |i: usize, got: &Bits, how: &str| {
        ensure(*got == first[i], || {
            format!("call {i} ({}) gave {:x?} first and {got:x?} {how}: {:?}", calls[i].kind(), first[i], calls[i])
        })
    };
    // a permutation of the calls
    let mut perm: Vec<usize> = (0..calls.len()).collect();
    perm.sort_by_key(|i| order[i % order.len()]);
    for (nm, list) in [
        ("when the calls were made again in another order", perm.clone()),
        ("when the calls were made again backwards", (0..calls.len()).rev().collect()),
        ("when each call was made twice", perm.iter().flat_map(|i| [*i, *i]).collect()),
        ("when the calls were made again", (0..calls.len()).collect()),
    ] {
        for i in list {
            o.compared += 1;
            same(i, &calls[i].eval(), nm)?;
        }
    }
    if processes {
        o.label("calls in processes of their own");
        for list in [perm.clone(), perm.iter().rev().copied().collect()] {
            let c: Vec<calls::Call> = list.iter().map(|i| calls[*i].clone()).collect();
            let r = calls::elsewhere(&c)?;
            for (i, got) in list.iter().zip(&r) {
                o.compared += 1;
                same(*i, got, &format!("in a new process, after the calls {:?}", list.iter().take_while(|j| *j != i).collect::<Vec<_>>()))?;
            }
        }
    }
    if threads {
        o.label("calls in several threads");
        let perm = &perm;
        let all: Vec<Vec<(usize, Bits)>> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..3)
                .map(|t| {
                    sc.spawn(move || {
                        (0..2 * calls.len())
                            .map(|k| {
                                let i = perm[(k * (1 + t % 2) + t) % perm.len()];
                                (i, calls[i].eval())
                            })
                            .collect()
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, got) in all.iter().flatten() {
            o.compared += 1;
            same(*i, got, "in one of several threads")?;
        }
    }
    let kinds: std::collections::BTreeSet<&str> = calls.iter().map(|c| c.kind()).collect();
    o.label("unrelated calls");
    o.nontrivial = kinds.len() >= 2;
    Ok(())
}
fn query() -> BoxedStrategy<Query> {
    prop_oneof![
        12 => (0usize..EACH.len()).prop_map(|k| EACH[k]),
        1 => Just(Query::Everything),
    ]
    .boxed()
}
impl Prop for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    const RULE: &'static str = "histories of up to 25 operations on 4 slots (construct, clone, serialise and restore, pose / view / matrix round trip, recombine, linearise, drop, query, intersect, query from threads) with few distinct arguments; every answer is compared bit for bit with the same query on a freshly built object, and with the reference model. In a fifth of the cases: up to 12 unrelated calls of any operation (failing ones included), made again in other orders, twice in a row, in several threads and (every fiftieth of these cases) in processes of their own, whose results must be the same bit for bit. Non-trivial: a derived object and at least two queries, or at least two kinds of calls";
    const ASSUME: &'static [&'static str] = &["thread schedules are those the operating system gives"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 300_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let s = || 0usize..SLOTS;
        let how = prop_oneof![
            3 => Just(Derive::Clone),
            1 => Just(Derive::Json),
            1 => Just(Derive::Bincode),
            1 => Just(Derive::Cbor),
            3 => Just(Derive::Pose),
            1 => Just(Derive::View),
            2 => Just(Derive::Matrix),
        ];
        let op = prop_oneof![
            50 => (s(), query(), 0usize..3).prop_map(|(slot, what, arg)| Op::Ask { slot, what, arg }),
            12 => (s(), 0usize..4, 0usize..4).prop_map(|(to, intr, pose)| Op::New { to, intr, pose }),
            20 => (s(), s(), how).prop_map(|(from, to, how)| Op::Derive { from, to, how }),
            6 => (s(), s(), s()).prop_map(|(a, b, to)| Op::Combine { a, b, to }),
            6 => (s(), s()).prop_map(|(from, to)| Op::Linearise { from, to }),
            2 => s().prop_map(|slot| Op::Drop { slot }),
            4 => (s(), s(), 0usize..3).prop_map(|(a, b, arg)| Op::Intersect { a, b, arg }),
            1 => (2usize..4, proptest::collection::vec((s(), query(), 0usize..3), 2..6))
                .prop_map(|(n, asks)| Op::Threads { n, asks }),
        ];
        // few distinct parameters, so that objects often share some of them
        let history = (
            prec(),
            proptest::collection::vec(intr(), 4),
            proptest::collection::vec(pose(), 4),
            any::<[bool; 6]>(),
            proptest::collection::vec(vec3(coord), 3),
            proptest::collection::vec([-100.0..2500.0f64, -100.0..2500.0f64], 3),
            proptest::collection::vec(op, 1..25),
        )
            .prop_map(|(prec, mut intr, mut pose, b, pts, pix, ops)| {
                if b[0] {
                    pose[1].q = pose[0].q;
                }
                if b[1] {
                    pose[2].c = pose[0].c;
                }
                if b[2] {
                    pose[3] = pose[1];
                }
                if let (true, IntrC::P(x), IntrC::P(y)) = (b[3], intr[0], &mut intr[1]) {
                    y.fx = x.fx;
                    y.fy = x.fy;
                }
                if b[4] {
                    if let IntrC::O(q) = intr[2] {
                        intr[3] = IntrC::P(PerspC { fx: q.sx, fy: q.sy, skew: 0.0, cx: q.cx, cy: q.cy });
                    }
                }
                if b[5] {
                    if let IntrC::P(q) = intr[0] {
                        intr[2] = IntrC::P(PerspC { skew: q.skew + 1.0, ..q });
                    }
                }
                Case::History(History { prec, intr, pose, pts, pix, ops })
            });
        let unrelated = (
            proptest::collection::vec(calls::call(), 2..12),
            proptest::collection::vec(any::<u16>(), 12),
            prop::bool::weighted(0.02),
            prop::bool::weighted(0.02),
        )
            .prop_map(|(calls, order, processes, threads)| Case::Calls { calls, order, processes, threads });
        prop_oneof![4 => history, 1 => unrelated].boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        match c {
            Case::History(c) => by_prec!(c.prec, run(c, o)),
            Case::Calls { calls, order, processes, threads } => unrelated(calls, order, *processes, *threads, o),
        }
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("--eval") {
        return calls::serve();
    }
    main_for::<C25>()
}
