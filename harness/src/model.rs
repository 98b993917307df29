//! Reference model (double-double) of the library's semantics with forward
//! error bounds, and helpers building library objects from generated cases.
use crate::dd::{self, Dd, M3, V3};
use crate::driver::{Obs, Res};
use crate::gen::*;
use cam_geom::*;
use nalgebra::{
    allocator::Allocator, DefaultAllocator, Dim, Dyn, Isometry3, Matrix, MatrixView, OMatrix, Point3, Quaternion,
    RealField, SMatrix, Storage, Translation3, UnitQuaternion, U2, U3,
};

pub use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub trait Real: RealField + Copy + Serialize + DeserializeOwned + std::fmt::Debug {
    const EPS: f64;
    const NAME: &'static str;
    const MAXV: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
    fn from_bits64(b: u64) -> Self;
}
impl Real for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const MAXV: f64 = f64::MAX;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn from_bits64(b: u64) -> f64 {
        f64::from_bits(b)
    }
}
impl Real for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const MAXV: f64 = f32::MAX as f64;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn from_bits64(b: u64) -> f32 {
        f32::from_bits(b as u32)
    }
}

/// Rounding-error constant of all forward bounds. Observed errors reach about
/// a tenth of it (see `largest_error_over_tolerance` in the evidence).
pub const K: f64 = 64.0;

#[macro_export]
macro_rules! by_prec {
    ($prec:expr, $f:ident ( $($a:expr),* )) => {
        match $prec {
            $crate::gen::Prec::F64 => $f::<f64>($($a),*),
            $crate::gen::Prec::F32 => $f::<f32>($($a),*),
        }
    };
}

pub fn n3(v: [f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
pub fn vn(v: V3) -> f64 {
    dd::norm(v).f()
}
pub fn rnd<R: Real>(x: f64) -> f64 {
    R::of(x).f()
}
pub fn rnd3<R: Real>(v: [f64; 3]) -> [f64; 3] {
    [rnd::<R>(v[0]), rnd::<R>(v[1]), rnd::<R>(v[2])]
}

// ------------------------------------------------------------------ poses

pub fn mk_quat<R: Real>(q: [f64; 4]) -> UnitQuaternion<R> {
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    UnitQuaternion::new_unchecked(Quaternion::new(
        R::of(q[0] / n),
        R::of(q[1] / n),
        R::of(q[2] / n),
        R::of(q[3] / n),
    ))
}
pub fn quat_of<R: Real>(u: &UnitQuaternion<R>) -> [f64; 4] {
    let q = u.quaternion();
    [q.w.f(), q.i.f(), q.j.f(), q.k.f()]
}
/// double-double pose
#[derive(Clone, Copy, Debug)]
pub struct PoseM {
    pub r: M3,
    pub c: V3,
    /// |c|
    pub cn: f64,
}
impl PoseM {
    pub fn new(r: M3, c: V3) -> PoseM {
        PoseM { r, c, cn: vn(c) }
    }
    pub fn to_cam(&self, p: V3) -> V3 {
        dd::mv(&self.r, dd::sub(p, self.c))
    }
    pub fn to_world(&self, p: V3) -> V3 {
        dd::add(dd::mtv(&self.r, p), self.c)
    }
    /// translation of the isometry: -R c
    pub fn t(&self) -> V3 {
        dd::scale(dd::mv(&self.r, self.c), Dd::new(-1.0))
    }
}
pub fn mk_pose<R: Real>(p: &PoseC) -> (ExtrinsicParameters<R>, PoseM) {
    let uq = mk_quat::<R>(p.q);
    let c = rnd3::<R>(p.c);
    let ext = ExtrinsicParameters::from_rotation_and_camcenter(
        uq,
        Point3::new(R::of(c[0]), R::of(c[1]), R::of(c[2])),
    );
    (ext, PoseM::new(dd::rotmat(quat_of(&uq)), dd::v3(c)))
}
pub fn mk_iso<R: Real>(q: [f64; 4], t: [f64; 3]) -> (Isometry3<R>, M3, V3) {
    let uq = mk_quat::<R>(q);
    let t = rnd3::<R>(t);
    let iso = Isometry3::from_parts(Translation3::new(R::of(t[0]), R::of(t[1]), R::of(t[2])), uq);
    (iso, dd::rotmat(quat_of(&uq)), dd::v3(t))
}

// ------------------------------------------------------------- intrinsics

/// rounded intrinsic parameters, common form: ortho uses fx, fy as scales
#[derive(Clone, Copy, Debug)]
pub struct KM {
    pub ortho: bool,
    pub fx: f64,
    pub fy: f64,
    pub skew: f64,
    pub cx: f64,
    pub cy: f64,
}
pub fn rnd_p<R: Real>(p: &PerspC) -> KM {
    KM {
        ortho: false,
        fx: rnd::<R>(p.fx),
        fy: rnd::<R>(p.fy),
        skew: rnd::<R>(p.skew),
        cx: rnd::<R>(p.cx),
        cy: rnd::<R>(p.cy),
    }
}
pub fn rnd_o<R: Real>(p: &OrthoC) -> KM {
    KM {
        ortho: true,
        fx: rnd::<R>(p.sx),
        fy: rnd::<R>(p.sy),
        skew: 0.0,
        cx: rnd::<R>(p.cx),
        cy: rnd::<R>(p.cy),
    }
}
pub fn rnd_i<R: Real>(i: &IntrC) -> KM {
    match i {
        IntrC::P(p) => rnd_p::<R>(p),
        IntrC::O(o) => rnd_o::<R>(o),
    }
}
pub fn pparams<R: Real>(k: &KM) -> PerspectiveParams<R> {
    PerspectiveParams {
        fx: R::of(k.fx),
        fy: R::of(k.fy),
        skew: R::of(k.skew),
        cx: R::of(k.cx),
        cy: R::of(k.cy),
    }
}
pub fn oparams<R: Real>(k: &KM) -> OrthographicParams<R> {
    OrthographicParams { sx: R::of(k.fx), sy: R::of(k.fy), cx: R::of(k.cx), cy: R::of(k.cy) }
}
pub fn mk_persp<R: Real>(k: &KM) -> IntrinsicParametersPerspective<R> {
    pparams::<R>(k).into()
}
pub fn mk_ortho<R: Real>(k: &KM) -> IntrinsicParametersOrthographic<R> {
    oparams::<R>(k).into()
}

/// Expected pixel and tolerance per component; None when the bound is void.
pub struct PixM {
    pub u: [f64; 2],
    pub tol: [f64; 2],
}
impl KM {
    /// `e`: absolute error bound of each camera coordinate, before the factor K
    /// (0 if the point is exact)
    pub fn project(&self, p: V3, e: f64, eps: f64) -> Option<PixM> {
        let (fx, fy, s, cx, cy) =
            (Dd::new(self.fx), Dd::new(self.fy), Dd::new(self.skew), Dd::new(self.cx), Dd::new(self.cy));
        if self.ortho {
            let u = fx * p[0] + cx;
            let v = fy * p[1] + cy;
            let tol = |f: f64, c: f64, w: f64, x: f64| K * (f.abs() * e + eps * (w.abs() + c.abs() + (f * x).abs()));
            return Some(PixM {
                u: [u.f(), v.f()],
                tol: [tol(self.fx, self.cx, u.f(), p[0].f()), tol(self.fy, self.cy, v.f(), p[1].f())],
            });
        }
        let z = p[2].f().abs();
        if !(e * K < z / 8.0) || z == 0.0 {
            return None;
        }
        let u = (fx * p[0] + s * p[1]) / p[2] + cx;
        let v = fy * p[1] / p[2] + cy;
        let (x, y) = (p[0].f().abs(), p[1].f().abs());
        let (fxa, fya, sa) = (self.fx.abs(), self.fy.abs(), self.skew.abs());
        let tu = (fxa + sa + self.cx.abs() + u.f().abs()) * e / z
            + eps * ((fxa * x + sa * y) / z + self.cx.abs() + u.f().abs());
        let tv = (fya + self.cy.abs() + v.f().abs()) * e / z + eps * (fya * y / z + self.cy.abs() + v.f().abs());
        Some(PixM { u: [u.f(), v.f()], tol: [K * tu, K * tv] })
    }
    /// Camera-frame ray data (perspective: direction with z=1; ortho: origin
    /// with z=0) and its error bound per component.
    pub fn unproject(&self, px: [f64; 2], eps: f64) -> (V3, [f64; 3]) {
        let (u, v) = (Dd::new(px[0]), Dd::new(px[1]));
        let y = (v - Dd::new(self.cy)) / Dd::new(self.fy);
        let x = (u - Dd::new(self.skew) * y - Dd::new(self.cx)) / Dd::new(self.fx);
        let ey = K * eps * ((px[1].abs() + self.cy.abs()) / self.fy.abs() + y.f().abs());
        let sk = self.skew.abs() * (px[1].abs() + self.cy.abs()) / self.fy.abs();
        let ex = K * eps * ((px[0].abs() + self.cx.abs() + sk) / self.fx.abs() + x.f().abs());
        ([x, y, Dd::new(if self.ortho { 0.0 } else { 1.0 })], [ex, ey, 0.0])
    }
    pub fn pix_of(&self, p: &PixC) -> [f64; 2] {
        match p {
            PixC::Raw(r) => *r,
            PixC::Rel([a, b]) => [self.cx + a * self.fx + self.skew * b, self.cy + b * self.fy],
        }
    }
}
/// Camera-frame coordinates meant by a PtC
pub fn cam_pt(p: &PtC) -> [f64; 3] {
    match p {
        PtC::Cam([a, b, z]) => [a * z, b * z, *z],
        PtC::Raw(r) => *r,
    }
}
/// world coordinates (rounded to R) meant by a PtC for a pose
pub fn world_pt<R: Real>(p: &PtC, pose: &PoseM) -> [f64; 3] {
    match p {
        PtC::Raw(r) => rnd3::<R>(*r),
        PtC::Cam(_) => rnd3::<R>(dd::fl3(pose.to_world(dd::v3(cam_pt(p))))),
    }
}
/// error scale (before K) of a camera coordinate computed from world point p
pub fn e_frame(p: [f64; 3], pose: &PoseM, eps: f64) -> f64 {
    eps * (n3(p) + pose.cn)
}

// ----------------------------------------------------- storage-generic calls

pub trait Fn3<R: Real> {
    type Out;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>;
}
pub trait Fn2<R: Real> {
    type Out;
    fn call<N: Dim, S: Storage<R, N, U2>>(&mut self, m: Matrix<R, N, U2, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>;
}

macro_rules! with_layout {
    ($name:ident, $tr:ident, $C:ty, $c:literal) => {
        /// Call `f` with the rows held in the wanted storage. Surrounding
        /// memory of views is poisoned with NaN.
        pub fn $name<R: Real, F: $tr<R>>(rows: &[[f64; $c]], layout: Layout, f: &mut F) -> F::Out {
            let n = rows.len();
            let nan = R::of(f64::NAN);
            match layout {
                Layout::Static => match n {
                    1 => f.call(SMatrix::<R, 1, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    2 => f.call(SMatrix::<R, 2, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    3 => f.call(SMatrix::<R, 3, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    4 => f.call(SMatrix::<R, 4, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    5 => f.call(SMatrix::<R, 5, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    8 => f.call(SMatrix::<R, 8, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    17 => f.call(SMatrix::<R, 17, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    32 => f.call(SMatrix::<R, 32, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    64 => f.call(SMatrix::<R, 64, $c>::from_fn(|i, j| R::of(rows[i][j]))),
                    _ => f.call(OMatrix::<R, Dyn, $C>::from_fn_generic(Dyn(n), <$C>::from_usize($c), |i, j| {
                        R::of(rows[i][j])
                    })),
                },
                Layout::Dyn => f.call(OMatrix::<R, Dyn, $C>::from_fn_generic(Dyn(n), <$C>::from_usize($c), |i, j| {
                    R::of(rows[i][j])
                })),
                Layout::Strided => {
                    let big = OMatrix::<R, Dyn, Dyn>::from_fn(2 * n + 3, 2 * $c + 2, |i, j| {
                        if i % 2 == 1 && j % 2 == 1 && i / 2 < n && j / 2 < $c {
                            R::of(rows[i / 2][j / 2])
                        } else {
                            nan
                        }
                    });
                    f.call(big.generic_view_with_steps((1, 1), (Dyn(n), <$C>::from_usize($c)), (1, 1)))
                }
                Layout::Transposed if n > 0 => {
                    let data: Vec<R> = rows.iter().flat_map(|r| r.iter().map(|x| R::of(*x))).collect();
                    let v: MatrixView<'_, R, Dyn, $C, Dyn, Dyn> = MatrixView::from_slice_with_strides_generic(
                        &data,
                        Dyn(n),
                        <$C>::from_usize($c),
                        Dyn($c),
                        Dyn(1),
                    );
                    f.call(v)
                }
                Layout::Rows | Layout::Transposed => {
                    let big = OMatrix::<R, Dyn, $C>::from_fn_generic(Dyn(n + 5), <$C>::from_usize($c), |i, j| {
                        if i >= 2 && i < n + 2 {
                            R::of(rows[i - 2][j])
                        } else {
                            nan
                        }
                    });
                    f.call(big.rows_generic(2, Dyn(n)))
                }
            }
        }
    };
}
with_layout!(with3, Fn3, U3, 3);
with_layout!(with2, Fn2, U2, 2);

pub fn rows3<R: Real, N: Dim, S: Storage<R, N, U3>>(m: &Matrix<R, N, U3, S>) -> Vec<[f64; 3]> {
    (0..m.nrows()).map(|i| [m[(i, 0)].f(), m[(i, 1)].f(), m[(i, 2)].f()]).collect()
}
pub fn rows2<R: Real, N: Dim, S: Storage<R, N, U2>>(m: &Matrix<R, N, U2, S>) -> Vec<[f64; 2]> {
    (0..m.nrows()).map(|i| [m[(i, 0)].f(), m[(i, 1)].f()]).collect()
}

/// camera_to_pixel of any model
pub struct CamToPix<'a, I>(pub &'a I);
impl<'a, R: Real, I: IntrinsicParameters<R>> Fn3<R> for CamToPix<'a, I> {
    type Out = Vec<[f64; 2]>;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        rows2(&self.0.camera_to_pixel(&Points::new(m)).data)
    }
}
/// world_to_pixel of any camera
pub struct WorldToPix<'a, R: Real, I: IntrinsicParameters<R>>(pub &'a Camera<R, I>);
impl<'a, R: Real, I: IntrinsicParameters<R>> Fn3<R> for WorldToPix<'a, R, I> {
    type Out = Vec<[f64; 2]>;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        rows2(&self.0.world_to_pixel(&Points::new(m)).data)
    }
}
pub struct WorldToCam<'a, R: Real>(pub &'a ExtrinsicParameters<R>);
impl<'a, R: Real> Fn3<R> for WorldToCam<'a, R> {
    type Out = Vec<[f64; 3]>;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        rows3(&self.0.world_to_camera(&Points::new(m)).data)
    }
}
pub struct CamToWorld<'a, R: Real>(pub &'a ExtrinsicParameters<R>);
impl<'a, R: Real> Fn3<R> for CamToWorld<'a, R> {
    type Out = Vec<[f64; 3]>;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        rows3(&self.0.camera_to_world(&Points::new(m)).data)
    }
}
pub fn world_to_pix<R: Real, I: IntrinsicParameters<R>>(
    cam: &Camera<R, I>,
    rows: &[[f64; 3]],
    layout: Layout,
) -> Vec<[f64; 2]> {
    with3(rows, layout, &mut WorldToPix(cam))
}

// --------------------------------------------------------------- comparing

pub fn close3(o: &mut Obs, what: &dyn Fn() -> String, got: [f64; 3], want: V3, tol: f64) -> Res {
    for j in 0..3 {
        o.close(&|| format!("{} [{}]", what(), j), got[j], want[j].f(), tol)?;
    }
    Ok(())
}
pub fn close2(o: &mut Obs, what: &dyn Fn() -> String, got: [f64; 2], m: &PixM) -> Res {
    for j in 0..2 {
        o.close(&|| format!("{} {}", what(), if j == 0 { "u" } else { "v" }), got[j], m.u[j], m.tol[j])?;
    }
    Ok(())
}
/// rotation angle scale: max |a-b| entry of two matrices
pub fn mat_diff(a: &M3, b: &M3) -> f64 {
    let mut m = 0.0f64;
    for i in 0..3 {
        for j in 0..3 {
            m = m.max((a[i][j] - b[i][j]).abs().f());
        }
    }
    m
}
/// matrix of f64s read from a nalgebra matrix
pub fn m3_of<R: Real, S: Storage<R, U3, U3>>(m: &Matrix<R, U3, U3, S>) -> M3 {
    let mut r = [[Dd::ZERO; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = Dd::new(m[(i, j)].f());
        }
    }
    r
}
pub fn p3_of<R: Real>(p: &Point3<R>) -> [f64; 3] {
    [p.x.f(), p.y.f(), p.z.f()]
}

// ------------------------------------------------------------ ray bundles

use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};

/// Shared-origin bundle type with any centre.
pub fn mk_origin_bundle<R: Real>(c: [f64; 3]) -> SharedOriginRayBundle<R> {
    replace_leaves(&SharedOriginRayBundle::<R>::new_shared_zero_origin(), &c)
}
/// Shared-direction bundle type with any direction.
pub fn mk_direction_bundle<R: Real>(d: [f64; 3]) -> SharedDirectionRayBundle<R> {
    replace_leaves(&SharedDirectionRayBundle::<R>::new_plusz_shared_direction(), &d)
}
/// The same value with its serialised numbers replaced, in order. This is how
/// client code stores and restores bundles, and the only public way to a
/// bundle with an arbitrary shared origin or direction.
pub fn replace_leaves<T: Serialize + DeserializeOwned>(x: &T, vals: &[f64]) -> T {
    let mut v = serde_json::to_value(x).expect("serialise bundle");
    let mut k = 0;
    fn walk(v: &mut serde_json::Value, vals: &[f64], k: &mut usize) {
        match v {
            serde_json::Value::Number(_) => {
                *v = serde_json::Value::from(vals[*k]);
                *k += 1;
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(|x| walk(x, vals, k)),
            serde_json::Value::Object(o) => o.iter_mut().for_each(|(_, x)| walk(x, vals, k)),
            _ => {}
        }
    }
    walk(&mut v, vals, &mut k);
    assert_eq!(k, vals.len(), "number of serialised parameters");
    serde_json::from_value(v).expect("deserialise bundle")
}

// ------------------------------------------------------ best intersection

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct RayC {
    pub c: [f64; 3],
    pub d: [f64; 3],
}
pub fn mk_rays<R: Real>(r: &[RayC]) -> Vec<Ray<WorldFrame, R>> {
    let m = |v: [f64; 3]| SMatrix::<R, 1, 3>::new(R::of(v[0]), R::of(v[1]), R::of(v[2]));
    r.iter().map(|r| Ray::new(m(r.c), m(r.d))).collect()
}
pub fn intersect<R: Real>(r: &[RayC]) -> Result<[f64; 3], Error> {
    best_intersection_of_rays(&mk_rays::<R>(r)).map(|p| rows3(&p.data)[0])
}
pub struct Lsq {
    /// the unique minimiser (meaningful only if sigma > 0)
    pub x: V3,
    /// smallest eigenvalue of sum(I - d d^T)
    pub sigma: f64,
    /// sum of |c| over the rays
    pub csum: f64,
    pub n: f64,
}
impl Lsq {
    /// sums of very many terms accumulate their rounding
    pub fn eps(&self, eps: f64) -> f64 {
        if self.n > 1500.0 { eps * (self.n / 64.0).max(1.0) } else { eps }
    }
    /// forward error bound of computing the minimiser in precision eps (before K)
    pub fn err(&self, eps: f64) -> f64 {
        self.eps(eps) * (self.csum + self.n * vn(self.x)) / self.sigma
    }
}
/// Exact least-squares point of the rays' lines.
pub fn lsq(r: &[RayC]) -> Lsq {
    let mut s = [[Dd::ZERO; 3]; 3];
    let mut b = [Dd::ZERO; 3];
    let mut csum = 0.0;
    for r in r {
        let (c, d) = (dd::v3(r.c), dd::unit(dd::v3(r.d)));
        let dc = dd::dot(d, c);
        for i in 0..3 {
            for j in 0..3 {
                s[i][j] = s[i][j] - d[i] * d[j];
            }
            s[i][i] = s[i][i] + Dd::ONE;
            b[i] = b[i] + c[i] - d[i] * dc;
        }
        csum += n3(r.c);
    }
    let e = dd::sym_eigvals([0, 1, 2].map(|i| [0, 1, 2].map(|j| s[i][j].f())));
    Lsq { x: dd::solve(&s, b), sigma: e[0], csum, n: r.len() as f64 }
}
/// Sum of squared distances of p to the lines.
pub fn objective(r: &[RayC], p: V3) -> Dd {
    let mut s = Dd::ZERO;
    for r in r {
        let x = dd::cross(dd::sub(p, dd::v3(r.c)), dd::unit(dd::v3(r.d)));
        s = s + dd::dot(x, x);
    }
    s
}

/// The matrix with its largest entry brought between 1 and 2 by a power of two
/// (exact), if it is finite and neither its entries nor the determinant are
/// too small for the scalar type.
pub fn usable<R: Real>(m: &[[f64; 4]; 3]) -> Option<[[f64; 4]; 3]> {
    let a = m.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
    let f32_ = R::EPS > 1e-10;
    let (min, span, dets) = if f32_ { (1.2e-38, 1e-30, -33.0) } else { (2.3e-308, 1e-250, -250.0) };
    // (the sums of entries formed in the course of an elimination stay finite)
    if !(a > 0.0 && a <= R::MAXV / 64.0) || m.iter().flatten().any(|x| *x != 0.0 && (x.abs() < min || x.abs() < a * span)) {
        return None;
    }
    let s = a.log2().floor();
    // two steps, as 2^-s itself may not be representable
    let (s1, s2) = ((-s / 2.0).floor(), -s - (-s / 2.0).floor());
    let m = m.map(|r| r.map(|x| x * s1.exp2() * s2.exp2()));
    let rows: f64 = m.iter().map(|r| n3([r[0], r[1], r[2]]).log10()).sum();
    (rows > dets).then_some(m)
}
