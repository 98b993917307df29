use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*, obj::mk_bundle, sig::Sig};
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, Matrix, OMatrix, Owned, Storage, U1, U2, U3};
use proptest::prelude::*;
use std::cell::RefCell;

/// what the model does with its arguments
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    /// pinhole with radial and tangential distortion
    Radial([f64; 4]),
    /// equidistant fisheye
    Fisheye(f64),
    /// any function at all: scrambled bits of the input and the row number
    Scramble(u64, bool),
    /// one arbitrary number everywhere
    Constant(f64),
    /// NaN (true) or infinite pixels
    Bad(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    kind: Kind,
    origin: bool,
    /// shared origin or direction of the model's rays; None: the plain bundle
    shared: Option<[f64; 3]>,
    pose: PoseC,
    pts: Batch<PtC>,
    pix: Batch<PixC>,
    layout: [Layout; 2],
    dist: f64,
    clone: bool,
}
struct C20;

#[derive(Default)]
struct Log {
    /// (rows in, rows out) of each call, exact
    project: Vec<(Vec<[u64; 3]>, Vec<[u64; 2]>)>,
    pts: Vec<[f64; 3]>,
    unproject: Vec<(Vec<[u64; 2]>, Vec<[f64; 3]>)>,
}
thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}
#[derive(Clone, Debug)]
struct Model<R: Real, B> {
    kind: Kind,
    bundle: B,
    shared: [f64; 3],
    origin: bool,
    tag: [R; 3],
}
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
impl<R: Real, B> Model<R, B> {
    fn pix(&self, i: usize, p: [f64; 3]) -> [f64; 2] {
        match self.kind {
            Kind::Radial([f, k1, k2, t]) => {
                let (x, y) = (p[0] / p[2], p[1] / p[2]);
                let r2 = x * x + y * y;
                let g = 1.0 + r2 * (k1 + r2 * k2);
                [f * (x * g + 2.0 * t * x * y) + 320.0, f * (y * g + t * (r2 + 2.0 * y * y)) + 240.0]
            }
            Kind::Fisheye(f) => {
                let r = p[0].hypot(p[1]);
                let th = r.atan2(p[2]);
                if r == 0.0 { [0.0, 0.0] } else { [f * th * p[0] / r, f * th * p[1] / r] }
            }
            Kind::Scramble(s, wild) => {
                let h = p.iter().fold(mix(s ^ i as u64), |h, x| mix(h ^ x.to_bits()));
                let g = |h: u64| {
                    if wild {
                        if R::NAME == "f32" { f32::from_bits(h as u32) as f64 } else { f64::from_bits(h) }
                    } else {
                        (h >> 11) as f64 * 1e-12
                    }
                };
                [g(h), g(mix(h))]
            }
            Kind::Constant(x) => [x, -x],
            Kind::Bad(nan) => [if nan { f64::NAN } else { f64::INFINITY }, 0.5],
        }
    }
    fn ray(&self, i: usize, p: [f64; 2]) -> [f64; 3] {
        let v = match self.kind {
            Kind::Radial([f, k1, k2, _]) => {
                let (x, y) = ((p[0] - 320.0) / f, (p[1] - 240.0) / f);
                let r2 = x * x + y * y;
                let g = 1.0 / (1.0 + r2 * (k1.abs() + r2 * k2.abs()));
                [x * g, y * g, 1.0]
            }
            Kind::Fisheye(f) => {
                let r = p[0].hypot(p[1]);
                let th = r / f;
                let s = if r == 0.0 { 1.0 } else { th.sin() / r };
                [s * p[0], s * p[1], th.cos()]
            }
            Kind::Scramble(s, _) => {
                let h = p.iter().fold(mix(s ^ !(i as u64)), |h, x| mix(h ^ x.to_bits()));
                let g = |h: u64| ((h >> 11) as f64 / (1u64 << 52) as f64 - 1.0) * 4.0;
                [g(h), g(mix(h)), g(mix(mix(h)))]
            }
            Kind::Constant(x) => [1.0, x, 0.25],
            Kind::Bad(_) => [1.0, 2.0, 0.25],
        };
        let v = rnd3::<R>(v);
        if v.iter().all(|x| x.is_finite()) && n3(v) > 1e-12 && n3(v) < 1e12 { v } else { [0.0, 0.5, 1.0] }
    }
}
impl<R: Real, B: Bundle<R> + Clone + std::fmt::Debug> IntrinsicParameters<R> for Model<R, B> {
    type BundleType = B;
    fn pixel_to_camera<IN, NPTS>(
        &self,
        pixels: &Pixels<R, NPTS, IN>,
    ) -> RayBundle<CameraFrame, B, R, NPTS, Owned<R, NPTS, U3>>
    where
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        let d = &pixels.data;
        let bits: Vec<[u64; 2]> = (0..d.nrows()).map(|i| [d[(i, 0)].bits(), d[(i, 1)].bits()]).collect();
        let rays: Vec<[f64; 3]> = rows2(d).iter().enumerate().map(|(i, p)| self.ray(i, *p)).collect();
        LOG.with(|l| l.borrow_mut().unproject.push((bits, rays.clone())));
        mk_bundle::<R, B, CameraFrame, NPTS>(&self.bundle, NPTS::from_usize(d.nrows()), &rays)
    }
    fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        let d = &camera.data;
        let pts = rows3(d);
        let bits: Vec<[u64; 3]> = (0..d.nrows()).map(|i| [0, 1, 2].map(|j| d[(i, j)].bits())).collect();
        let out: Vec<[f64; 2]> = pts.iter().enumerate().map(|(i, p)| self.pix(i, *p)).collect();
        let m = OMatrix::<R, NPTS, U2>::from_fn_generic(NPTS::from_usize(d.nrows()), U2::from_usize(2), |i, j| {
            R::of(out[i][j])
        });
        let ob = (0..d.nrows()).map(|i| [m[(i, 0)].bits(), m[(i, 1)].bits()]).collect();
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            l.project.push((bits, ob));
            l.pts.extend(pts);
        });
        Pixels::new(m)
    }
}
/// output rows must be those of all calls one after the other, or of one call
fn returned<I, T: PartialEq + Clone>(calls: &[(Vec<I>, Vec<T>)], got: &[T]) -> bool {
    let all: Vec<T> = calls.iter().flat_map(|c| c.1.iter().cloned()).collect();
    all == got || calls.iter().any(|c| c.1 == got)
}
struct Proj<'a, R: Real, I: IntrinsicParameters<R>>(&'a Camera<R, I>);
impl<'a, R: Real, I: IntrinsicParameters<R>> Fn3<R> for Proj<'a, R, I> {
    type Out = Vec<[u64; 2]>;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        let d = self.0.world_to_pixel(&Points::new(m)).data;
        (0..d.nrows()).map(|i| [d[(i, 0)].bits(), d[(i, 1)].bits()]).collect()
    }
}
type Rows = Vec<[f64; 3]>;
struct Unproj<'a, R: Real, I: IntrinsicParameters<R>>(&'a Camera<R, I>, f64);
impl<'a, R: Real, I: IntrinsicParameters<R>> Fn2<R> for Unproj<'a, R, I>
where
    I::BundleType: Bundle<R>,
{
    type Out = [Rows; 3];
    fn call<N: Dim, S: Storage<R, N, U2>>(&mut self, m: Matrix<R, N, U2, S>) -> Self::Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        let r = self.0.pixel_to_world(&Pixels::new(m));
        [
            rows3(&r.data),
            rows3(&r.point_on_ray_at_distance(R::of(0.0)).data),
            rows3(&r.point_on_ray_at_distance(R::of(self.1)).data),
        ]
    }
}
fn go<R: Real, B: Bundle<R> + Clone + std::fmt::Debug + PartialEq>(c: &Case, bundle: B, shared: [f64; 3], o: &mut Obs) -> Res {
    let eps = R::EPS;
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let tag = [R::of(1.0 / 3.0), R::of(-0.0), R::of(7e7)];
    let model = Model { kind: c.kind, bundle, shared, origin: c.origin, tag };
    let cam = Camera::new(model.clone(), ext.clone());
    let cam = if c.clone { cam.clone() } else { cam };
    LOG.with(|l| *l.borrow_mut() = Log::default());
    let mut pts: Vec<[f64; 3]> = c.pts.rows().iter().map(|p| world_pt::<R>(p, &pose)).collect();
    if pts.iter().flatten().any(|x| !x.is_finite()) {
        pts = vec![[0.5, -1.5, 3.0]];
    }
    let dist = rnd::<R>(c.dist);

    // projection
    let got = with3(&pts, c.layout[0], &mut Proj(&cam));
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    ensure(got.len() == pts.len(), || format!("{} pixels of {} points", got.len(), pts.len()))?;
    ensure(returned(&log.project, &got), || {
        format!("world_to_pixel gave the bits {got:x?}, the model returned {:x?}", log.project)
    })?;
    ensure(log.unproject.is_empty() || pts.is_empty(), || "projection called pixel_to_camera".into())?;
    // every run of n rows the model saw is the batch
    ensure(pts.is_empty() || (!log.pts.is_empty() && log.pts.len() % pts.len() == 0), || {
        format!("the model saw {} rows instead of {}", log.pts.len(), pts.len())
    })?;
    o.group("camera point");
    for (k, p) in log.pts.iter().enumerate() {
        let w = pts[k % pts.len()];
        close3(
            o,
            &|| format!("{} camera coordinates of {w:?} given to the model", R::NAME),
            *p,
            pose.to_cam(dd::v3(w)),
            K * e_frame(w, &pose, eps),
        )?;
    }

    // back-projection
    let pix: Vec<[f64; 2]> = c
        .pix
        .rows()
        .iter()
        .map(|p| match p {
            PixC::Raw(r) => *r,
            PixC::Rel([a, b]) => [320.0 + a * 300.0, 240.0 + b * 300.0],
        })
        .map(|p| p.map(rnd::<R>))
        .collect();
    let [data, at0, at] = with2(&pix, c.layout[1], &mut Unproj(&cam, dist));
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let n = pix.len();
    ensure(data.len() == n && at0.len() == n && at.len() == n, || format!("{} rays of {n} pixels", data.len()))?;
    let seen: Vec<[u64; 2]> = log.unproject.iter().flat_map(|x| x.0.clone()).collect();
    let want: Vec<[u64; 2]> = pix.iter().map(|p| p.map(|x| R::of(x).bits())).collect();
    ensure(
        n == 0 || (!seen.is_empty() && seen.len() % n == 0 && seen.iter().enumerate().all(|(k, s)| *s == want[k % n])),
        || format!("the model saw pixels {seen:x?} instead of {want:x?}"),
    )?;
    let rays: Rows = log.unproject.iter().flat_map(|x| x.1.clone()).collect();
    for i in 0..n {
        let r = rays[i];
        let (org, dir) = if c.origin { (shared, r) } else { (r, shared) };
        let (od, ddir) = (dd::v3(org), dd::v3(dir));
        let rdir = dd::mtv(&pose.r, ddir);
        let rorg = pose.to_world(od);
        let eo = K * eps * (n3(org) + pose.cn);
        let ed = K * eps * n3(dir);
        let name = || format!("{} camera ray {org:?} {dir:?} in the world", R::NAME);
        o.group("ray data");
        if c.origin {
            close3(o, &|| format!("direction of {}", name()), data[i], rdir, ed)?;
        } else {
            close3(o, &|| format!("origin of {}", name()), data[i], rorg, eo)?;
        }
        o.group("ray origin");
        close3(o, &|| format!("origin of {}", name()), at0[i], rorg, eo)?;
        o.group("ray point");
        let want = dd::add(rorg, dd::scale(rdir, Dd::new(dist) / dd::norm(ddir)));
        close3(o, &|| format!("point at {dist} of {}", name()), at[i], want, eo + K * eps * dist.abs())?;
    }

    // handed back unchanged
    let k = cam.intrinsics();
    ensure(
        k.kind == model.kind
            && k.bundle == model.bundle
            && k.shared == model.shared
            && k.origin == model.origin
            && k.tag.map(|x| x.bits()) == tag.map(|x| x.bits()),
        || format!("intrinsics() returned {k:?}, the camera was built from {model:?}"),
    )?;
    let sig = |e: &ExtrinsicParameters<R>| {
        let mut s = Sig::default();
        s.ext(e, &[[0.5, -2.0, 3.0]]);
        s
    };
    if let Some(d) = sig(&ext).diff(&sig(cam.extrinsics())) {
        return Err(format!("extrinsics() is not what the camera was built from: {d}"));
    }
    o.compared += 1;
    o.nontrivial = !pts.is_empty() && n > 0 && c.pose.c != [0.0; 3];
    o.label(R::NAME);
    o.label(if c.origin { "shared-origin rays" } else { "shared-direction rays" });
    o.lab_if(c.shared.is_some(), "offset rays");
    o.lab_if(pts.is_empty() || n == 0, "empty batch");
    o.lab_if(pts.len() > 1, "several rows");
    o.label(match c.kind {
        Kind::Radial(_) => "radial distortion",
        Kind::Fisheye(_) => "fisheye",
        Kind::Scramble(..) => "arbitrary function",
        Kind::Constant(_) => "constant",
        Kind::Bad(_) => "NaN or infinite pixels",
    });
    Ok(())
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    use ray_bundle_types::*;
    match (c.origin, c.shared) {
        (true, None) => go::<R, _>(c, SharedOriginRayBundle::new_shared_zero_origin(), [0.0; 3], o),
        (true, Some(s)) => {
            let s = rnd3::<R>(s);
            go::<R, _>(c, mk_origin_bundle::<R>(s), s, o)
        }
        (false, None) => go::<R, _>(c, SharedDirectionRayBundle::new_plusz_shared_direction(), [0.0, 0.0, 1.0], o),
        (false, Some(s)) => {
            let s = rnd3::<R>(s);
            let s = if n3(s) > 1e-6 { s } else { [0.0, 0.0, -1.0] };
            go::<R, _>(c, mk_direction_bundle::<R>(s), s, o)
        }
    }
}
impl Prop for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "a camera with a user-defined model (radial/tangential distortion, fisheye, arbitrary bit-scrambling function, constant; rays of either bundle kind with any shared origin or direction) that records its calls; random pose, point and pixel batches in all storage layouts; non-trivial: rows to convert in both directions and a pose away from the origin";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 600_000,
            Tier::Thorough => 15_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let kind = prop_oneof![
            3 => [50.0..1500.0f64, -0.5..0.5f64, -0.2..0.2f64, -0.01..0.01f64].prop_map(Kind::Radial),
            2 => (50.0..1500.0f64).prop_map(Kind::Fisheye),
            3 => (any::<u64>(), any::<bool>()).prop_map(|(a, b)| Kind::Scramble(a, b)),
            1 => coord().prop_map(Kind::Constant),
            1 => any::<bool>().prop_map(Kind::Bad),
        ];
        in_units((
            prec(),
            kind,
            any::<bool>(),
            proptest::option::of(vec3(coord)),
            pose(),
            batch(pt, nrows_wide()),
            batch(pix, nrows_wide()),
            [layout(), layout()],
            distance(),
            any::<bool>(),
        )
            .prop_map(|(prec, kind, origin, shared, pose, pts, pix, layout, dist, clone)| Case {
                prec,
                kind,
                origin,
                shared,
                pose,
                pts,
                pix,
                layout,
                dist,
                clone,
            }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C20>()
}
