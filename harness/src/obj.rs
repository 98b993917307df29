//! Generated values of every public value type, for the checks about
//! serialisation, cloning, equality and debug output.
use crate::gen::*;
use crate::model::*;
use crate::sig::Sig;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, Dyn, Isometry3, OMatrix, Owned, Point3, Const, U3};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ObjC {
    Persp(PerspC),
    Ortho(OrthoC),
    PParams(PerspC),
    OParams(OrthoC),
    Ext(PoseC),
    CamP(PerspC, PoseC),
    CamO(OrthoC, PoseC),
    /// shared origin or direction; world or camera frame; static (1-5, 8 rows) or dynamic rows
    Rays { origin: bool, world: bool, dynamic: bool, shared: [f64; 3], rows: Vec<[f64; 3]> },
    /// the bundle type alone
    BType { origin: bool, shared: [f64; 3] },
}
/// finite numbers, also signed zeros, tiny and large ones
pub fn num() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => coord(),
        2 => signed(logmag(-36.0, 15.0), 50),
        1 => Just(-0.0),
        1 => Just(f64::from_bits(3)),
        1 => Just(f32::from_bits(5) as f64),
        2 => (any::<u32>()).prop_map(|b| {
            let f = f32::from_bits(b);
            if f.is_finite() && f.abs() < 1e15 { f as f64 } else { 0.1 }
        }),
        2 => any::<u64>().prop_map(|b| {
            let f = f64::from_bits((b & 0x800f_ffff_ffff_ffff) | ((1023 + (b >> 52) % 40 - 20) << 52));
            if f.is_finite() { f } else { 0.2 }
        }),
    ]
    .boxed()
}
fn nz() -> BoxedStrategy<f64> {
    num().prop_map(|x| if x.abs() < 1e-30 { 1.5 } else { x }).boxed()
}
pub fn any_persp() -> BoxedStrategy<PerspC> {
    prop_oneof![
        1 => persp(),
        1 => (nz(), nz(), num(), num(), num()).prop_map(|(fx, fy, skew, cx, cy)| PerspC { fx, fy, skew, cx, cy }),
    ]
    .boxed()
}
pub fn any_ortho() -> BoxedStrategy<OrthoC> {
    prop_oneof![
        1 => ortho(),
        1 => (nz(), nz(), num(), num()).prop_map(|(sx, sy, cx, cy)| OrthoC { sx, sy, cx, cy }),
    ]
    .boxed()
}
pub fn any_pose() -> BoxedStrategy<PoseC> {
    (quat(), prop_oneof![2 => center(), 1 => vec3(num)]).prop_map(|(q, c)| PoseC { q, c }).boxed()
}
pub fn obj() -> BoxedStrategy<ObjC> {
    prop_oneof![
        2 => any_persp().prop_map(ObjC::Persp),
        2 => any_ortho().prop_map(ObjC::Ortho),
        1 => any_persp().prop_map(ObjC::PParams),
        1 => any_ortho().prop_map(ObjC::OParams),
        3 => any_pose().prop_map(ObjC::Ext),
        3 => (any_persp(), any_pose()).prop_map(|(k, p)| ObjC::CamP(k, p)),
        2 => (any_ortho(), any_pose()).prop_map(|(k, p)| ObjC::CamO(k, p)),
        3 => (any::<[bool; 3]>(), vec3(num), proptest::collection::vec(vec3(num), 0..9)).prop_map(|(b, shared, rows)| {
            ObjC::Rays { origin: b[0], world: b[1], dynamic: b[2], shared, rows }
        }),
        1 => (any::<bool>(), vec3(num)).prop_map(|(origin, shared)| ObjC::BType { origin, shared }),
    ]
    .boxed()
}

/// points and pixels at which behaviour is compared
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Probe {
    pub pts: Vec<[f64; 3]>,
    pub pix: Vec<[f64; 2]>,
}
pub fn probe() -> BoxedStrategy<Probe> {
    (
        proptest::collection::vec(vec3(coord), 1..3),
        proptest::collection::vec([-100.0..2500.0f64, -100.0..2500.0f64], 1..3),
    )
        .prop_map(|(pts, pix)| Probe { pts, pix })
        .boxed()
}

pub trait Subject: Serialize + DeserializeOwned + Clone + PartialEq + Debug + 'static {
    fn sig(&self, p: &Probe) -> Sig;
}
macro_rules! subject {
    ($R:ident, $t:ty, |$x:ident, $p:ident, $s:ident| $b:block) => {
        impl<$R: Real> Subject for $t {
            fn sig(&self, $p: &Probe) -> Sig {
                let $x = self;
                let mut $s = Sig::default();
                $b
                $s
            }
        }
    };
}
subject!(R, IntrinsicParametersPerspective<R>, |x, p, s| {
    s.intr(x, &p.pts, &p.pix);
    s.persp_params(x);
});
subject!(R, IntrinsicParametersOrthographic<R>, |x, p, s| { s.intr(x, &p.pts, &p.pix) });
subject!(R, PerspectiveParams<R>, |x, _p, s| { s.vals("params", &[x.fx, x.fy, x.skew, x.cx, x.cy]) });
subject!(R, OrthographicParams<R>, |x, _p, s| { s.vals("params", &[x.sx, x.sy, x.cx, x.cy]) });
subject!(R, ExtrinsicParameters<R>, |x, p, s| { s.ext(x, &p.pts) });
subject!(R, Camera<R, IntrinsicParametersPerspective<R>>, |x, p, s| { s.persp_cam(x, &p.pts, &p.pix) });
subject!(R, Camera<R, IntrinsicParametersOrthographic<R>>, |x, p, s| { s.cam(x, &p.pts, &p.pix) });
subject!(R, SharedOriginRayBundle<R>, |x, _p, s| { s.btype::<_, R>(x) });
subject!(R, SharedDirectionRayBundle<R>, |x, _p, s| { s.btype::<_, R>(x) });

impl<F, B, R, N> Subject for RayBundle<F, B, R, N, Owned<R, N, U3>>
where
    F: CoordinateSystem + Clone + Debug + PartialEq + 'static,
    B: Bundle<R> + Serialize + DeserializeOwned + Clone + PartialEq + Debug + 'static,
    R: Real,
    N: Dim,
    DefaultAllocator: Allocator<N, U3>,
    Owned<R, N, U3>: Clone + 'static,
    Self: Serialize + DeserializeOwned + Clone + PartialEq + Debug,
{
    fn sig(&self, _p: &Probe) -> Sig {
        let mut s = Sig::default();
        s.bundle(self);
        s
    }
}

pub trait Visit<R: Real> {
    type Out;
    fn visit<T: Subject>(&mut self, x: T) -> Self::Out;
}

pub fn mk_bundle<R: Real, B: Bundle<R>, F: CoordinateSystem, N: Dim>(
    bt: &B,
    n: N,
    rows: &[[f64; 3]],
) -> RayBundle<F, B, R, N, Owned<R, N, U3>>
where
    DefaultAllocator: Allocator<N, U3>,
{
    let m = OMatrix::<R, N, U3>::from_fn_generic(n, Const::<3>, |i, j| R::of(rows[i][j]));
    let mut rb = bt.to_pose::<_, _, F>(Isometry3::identity(), &m);
    rb.data = m;
    rb
}
fn rays<R: Real, B, V: Visit<R>, F>(bt: &B, dynamic: bool, rows: &[[f64; 3]], v: &mut V) -> V::Out
where
    F: CoordinateSystem + Clone + Debug + PartialEq + Serialize + DeserializeOwned + 'static,
    B: Bundle<R> + Serialize + DeserializeOwned + Clone + PartialEq + Debug + 'static,
{
    if !dynamic {
        match rows.len() {
            1 => return v.visit(mk_bundle::<R, B, F, Const<1>>(bt, Const, rows)),
            2 => return v.visit(mk_bundle::<R, B, F, Const<2>>(bt, Const, rows)),
            3 => return v.visit(mk_bundle::<R, B, F, Const<3>>(bt, Const, rows)),
            5 => return v.visit(mk_bundle::<R, B, F, Const<5>>(bt, Const, rows)),
            _ => {}
        }
    }
    v.visit(mk_bundle::<R, B, F, Dyn>(bt, Dyn(rows.len()), rows))
}
pub fn is_dynamic(o: &ObjC) -> bool {
    matches!(o, ObjC::Rays { dynamic, rows, .. } if *dynamic || !matches!(rows.len(), 1 | 2 | 3 | 5))
}
pub fn with_obj<R: Real, V: Visit<R>>(o: &ObjC, v: &mut V) -> V::Out {
    match o {
        ObjC::Persp(k) => v.visit(mk_persp::<R>(&rnd_p::<R>(k))),
        ObjC::Ortho(k) => v.visit(mk_ortho::<R>(&rnd_o::<R>(k))),
        ObjC::PParams(k) => v.visit(pparams::<R>(&rnd_p::<R>(k))),
        ObjC::OParams(k) => v.visit(oparams::<R>(&rnd_o::<R>(k))),
        ObjC::Ext(p) => v.visit(raw_ext::<R>(p)),
        ObjC::CamP(k, p) => v.visit(Camera::new(mk_persp::<R>(&rnd_p::<R>(k)), raw_ext::<R>(p))),
        ObjC::CamO(k, p) => v.visit(Camera::new(mk_ortho::<R>(&rnd_o::<R>(k)), raw_ext::<R>(p))),
        ObjC::Rays { origin: true, world: true, dynamic, shared, rows } => {
            rays::<R, _, V, WorldFrame>(&mk_origin_bundle::<R>(plain::<R>(*shared)), *dynamic, rows, v)
        }
        ObjC::Rays { origin: true, world: false, dynamic, shared, rows } => {
            rays::<R, _, V, CameraFrame>(&mk_origin_bundle::<R>(plain::<R>(*shared)), *dynamic, rows, v)
        }
        ObjC::Rays { origin: false, world: true, dynamic, shared, rows } => {
            rays::<R, _, V, WorldFrame>(&mk_direction_bundle::<R>(plain::<R>(*shared)), *dynamic, rows, v)
        }
        ObjC::Rays { origin: false, world: false, dynamic, shared, rows } => {
            rays::<R, _, V, CameraFrame>(&mk_direction_bundle::<R>(plain::<R>(*shared)), *dynamic, rows, v)
        }
        ObjC::BType { origin: true, shared } => v.visit(mk_origin_bundle::<R>(*shared)),
        ObjC::BType { origin: false, shared } => v.visit(mk_direction_bundle::<R>(*shared)),
    }
}
pub fn raw_ext<R: Real>(p: &PoseC) -> ExtrinsicParameters<R> {
    ExtrinsicParameters::from_rotation_and_camcenter(
        mk_quat::<R>(p.q),
        Point3::new(R::of(p.c[0]), R::of(p.c[1]), R::of(p.c[2])),
    )
}
/// The vector rounded to R, its zeros made positive: mk_bundle moves the bundle
/// type by the identity, which may or may not keep the sign of a zero.
pub fn plain<R: Real>(s: [f64; 3]) -> [f64; 3] {
    s.map(|x| rnd::<R>(x) + 0.0)
}
/// The defining parameters of the value, rounded to R.
pub fn params_of<R: Real>(o: &ObjC) -> Vec<f64> {
    let pk = |k: &PerspC| vec![k.fx, k.fy, k.skew, k.cx, k.cy];
    let ok = |k: &OrthoC| vec![k.sx, k.sy, k.cx, k.cy];
    let ps = |p: &PoseC| {
        let q = quat_of(&mk_quat::<R>(p.q));
        vec![q[1], q[2], q[3], q[0], p.c[0], p.c[1], p.c[2]]
    };
    let v = match o {
        ObjC::Persp(k) | ObjC::PParams(k) => pk(k),
        ObjC::Ortho(k) | ObjC::OParams(k) => ok(k),
        ObjC::Ext(p) => ps(p),
        ObjC::CamP(k, p) => [pk(k), ps(p)].concat(),
        ObjC::CamO(k, p) => [ok(k), ps(p)].concat(),
        ObjC::Rays { shared, rows, .. } => {
            let mut v: Vec<f64> = rows.iter().flatten().copied().collect();
            v.extend(plain::<R>(*shared));
            v
        }
        ObjC::BType { shared, .. } => shared.to_vec(),
    };
    v.into_iter().map(rnd::<R>).collect()
}
pub fn kind_of(o: &ObjC) -> &'static str {
    match o {
        ObjC::Persp(_) => "perspective intrinsics",
        ObjC::Ortho(_) => "orthographic intrinsics",
        ObjC::PParams(_) => "PerspectiveParams",
        ObjC::OParams(_) => "OrthographicParams",
        ObjC::Ext(_) => "pose",
        ObjC::CamP(..) => "perspective camera",
        ObjC::CamO(..) => "orthographic camera",
        ObjC::Rays { origin: true, .. } => "shared-origin ray bundle",
        ObjC::Rays { .. } => "shared-direction ray bundle",
        ObjC::BType { .. } => "bundle type",
    }
}

/// The value built by the public constructors from raw parameters, in the
/// order in which they are serialised (bundles: column-major data, then the
/// shared vector).
pub fn with_params<R: Real, V: Visit<R>>(o: &ObjC, p: &[f64], v: &mut V) -> V::Out {
    let pk = |p: &[f64]| PerspectiveParams::<R> {
        fx: R::of(p[0]),
        fy: R::of(p[1]),
        skew: R::of(p[2]),
        cx: R::of(p[3]),
        cy: R::of(p[4]),
    };
    let ok = |p: &[f64]| OrthographicParams::<R> { sx: R::of(p[0]), sy: R::of(p[1]), cx: R::of(p[2]), cy: R::of(p[3]) };
    let ext = |p: &[f64]| {
        ExtrinsicParameters::<R>::from_rotation_and_camcenter(
            nalgebra::UnitQuaternion::new_unchecked(nalgebra::Quaternion::new(
                R::of(p[3]),
                R::of(p[0]),
                R::of(p[1]),
                R::of(p[2]),
            )),
            Point3::new(R::of(p[4]), R::of(p[5]), R::of(p[6])),
        )
    };
    match o {
        ObjC::Persp(_) => v.visit(IntrinsicParametersPerspective::from(pk(p))),
        ObjC::Ortho(_) => v.visit(IntrinsicParametersOrthographic::from(ok(p))),
        ObjC::PParams(_) => v.visit(pk(p)),
        ObjC::OParams(_) => v.visit(ok(p)),
        ObjC::Ext(_) => v.visit(ext(p)),
        ObjC::CamP(..) => v.visit(Camera::new(IntrinsicParametersPerspective::from(pk(p)), ext(&p[5..]))),
        ObjC::CamO(..) => v.visit(Camera::new(IntrinsicParametersOrthographic::from(ok(p)), ext(&p[4..]))),
        ObjC::BType { origin: true, .. } => v.visit(mk_origin_bundle::<R>([p[0], p[1], p[2]])),
        ObjC::BType { origin: false, .. } => v.visit(mk_direction_bundle::<R>([p[0], p[1], p[2]])),
        ObjC::Rays { origin, world, rows, .. } => {
            let n = rows.len();
            let rows: Vec<[f64; 3]> = (0..n).map(|i| [p[i], p[n + i], p[2 * n + i]]).collect();
            let s = &p[3 * n..];
            let o = ObjC::Rays { origin: *origin, world: *world, dynamic: false, shared: [s[0], s[1], s[2]], rows };
            with_obj::<R, V>(&o, v)
        }
    }
}
