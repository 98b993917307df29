//! Behaviour signatures: the bits of everything an object can be asked for a
//! fixed set of arguments. Two objects behave identically iff these agree.
use crate::model::*;
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use nalgebra::{Dyn, Isometry3, Matrix, OMatrix, RawStorage, SMatrix, U3};

#[derive(Clone, Debug, Default)]
pub struct Sig(pub Vec<(&'static str, Vec<u64>)>);

fn canon(x: f64, bits: u64) -> u64 {
    if x.is_nan() {
        u64::MAX
    } else {
        bits
    }
}
impl Sig {
    pub fn put<R: Real, Rw: nalgebra::Dim, C: nalgebra::Dim, S: RawStorage<R, Rw, C>>(
        &mut self,
        name: &'static str,
        m: &Matrix<R, Rw, C, S>,
    ) {
        self.0.push((name, m.iter().map(|x| canon(x.f(), x.bits())).collect()));
    }
    pub fn vals<R: Real>(&mut self, name: &'static str, v: &[R]) {
        self.0.push((name, v.iter().map(|x| canon(x.f(), x.bits())).collect()));
    }
    /// first difference
    pub fn diff(&self, b: &Sig) -> Option<String> {
        if self.0.len() != b.0.len() {
            return Some("different results".into());
        }
        for ((n, x), (_, y)) in self.0.iter().zip(&b.0) {
            if x != y {
                return Some(format!("{n} differs: {x:x?} and {y:x?}"));
            }
        }
        None
    }
    pub fn ext<R: Real>(&mut self, e: &ExtrinsicParameters<R>, pts: &[[f64; 3]]) {
        self.put("camcenter", &e.camcenter().coords);
        self.put("matrix", e.matrix());
        self.put("rotation", e.rotation().matrix());
        self.put("translation", &e.translation().coords);
        self.put("pose translation", &e.pose().translation.vector);
        self.put("pose rotation", &e.pose().rotation.coords);
        self.put("forward", &e.forward().into_inner());
        self.put("up", &e.up().into_inner());
        self.put("right", &e.right().into_inner());
        let m = OMatrix::<R, Dyn, U3>::from_fn(pts.len(), |i, j| R::of(pts[i][j]));
        self.put("world_to_camera", &e.world_to_camera(&Points::new(m.clone())).data);
        self.put("camera_to_world", &e.camera_to_world(&Points::new(m.clone())).data);
        let rb = RayBundle::new_shared_zero_origin(m.clone());
        self.put("ray_camera_to_world", &e.ray_camera_to_world(&rb).point_on_ray().data);
        let rb = RayBundle::new_shared_plusz_direction(m);
        self.put("ray_camera_to_world (ortho)", &e.ray_camera_to_world(&rb).point_on_ray().data);
    }
    pub fn intr<R: Real, I: IntrinsicParameters<R>>(&mut self, k: &I, pts: &[[f64; 3]], pix: &[[f64; 2]])
    where
        I::BundleType: Bundle<R>,
    {
        let m = OMatrix::<R, Dyn, U3>::from_fn(pts.len(), |i, j| R::of(pts[i][j]));
        self.put("camera_to_pixel", &k.camera_to_pixel(&Points::new(m)).data);
        let p = nalgebra::OMatrix::<R, Dyn, nalgebra::U2>::from_fn(pix.len(), |i, j| R::of(pix[i][j]));
        let rb = k.pixel_to_camera(&Pixels::new(p));
        self.put("pixel_to_camera", &rb.data);
        self.put("pixel_to_camera, point", &rb.point_on_ray().data);
        self.put("pixel_to_camera, distance", &rb.point_on_ray_at_distance(R::of(2.5)).data);
    }
    pub fn persp_params<R: Real>(&mut self, k: &IntrinsicParametersPerspective<R>) {
        let p = k.params();
        self.vals("accessors", &[k.fx(), k.fy(), k.skew(), k.cx(), k.cy(), p.fx, p.fy, p.skew, p.cx, p.cy]);
    }
    pub fn cam<R: Real, I: IntrinsicParameters<R>>(&mut self, c: &Camera<R, I>, pts: &[[f64; 3]], pix: &[[f64; 2]])
    where
        I::BundleType: Bundle<R>,
    {
        self.ext(c.extrinsics(), pts);
        self.intr(c.intrinsics(), pts, pix);
        let m = OMatrix::<R, Dyn, U3>::from_fn(pts.len(), |i, j| R::of(pts[i][j]));
        self.put("world_to_pixel", &c.world_to_pixel(&Points::new(m)).data);
        let p = nalgebra::OMatrix::<R, Dyn, nalgebra::U2>::from_fn(pix.len(), |i, j| R::of(pix[i][j]));
        let rb = c.pixel_to_world(&Pixels::new(p));
        self.put("pixel_to_world", &rb.data);
        self.put("pixel_to_world, point", &rb.point_on_ray().data);
        self.put("pixel_to_world, distance", &rb.point_on_ray_at_distance(R::of(-1.5)).data);
        if let Some(p) = pix.first() {
            let r = c.pixel_to_world(&Pixels::new(SMatrix::<R, 1, 2>::new(R::of(p[0]), R::of(p[1])))).to_single_ray();
            self.put("single ray centre", &r.center);
            self.put("single ray direction", &r.direction);
        }
    }
    pub fn persp_cam<R: Real>(
        &mut self,
        c: &Camera<R, IntrinsicParametersPerspective<R>>,
        pts: &[[f64; 3]],
        pix: &[[f64; 2]],
    ) {
        self.cam(c, pts, pix);
        self.persp_params(c.intrinsics());
        self.put("as_camera_matrix", &c.as_camera_matrix());
        let j = JacobianPerspectiveCache::new(c);
        for p in pts {
            let p = SMatrix::<R, 1, 3>::new(R::of(p[0]), R::of(p[1]), R::of(p[2]));
            self.put("linearize_at", &j.linearize_at(&Points::new(p)));
        }
    }
    pub fn bundle<F: CoordinateSystem, B: Bundle<R>, R: Real, N: nalgebra::Dim>(
        &mut self,
        b: &RayBundle<F, B, R, N, nalgebra::Owned<R, N, U3>>,
    ) where
        nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<N, U3>,
    {
        self.put("bundle data", &b.data);
        self.put("point_on_ray", &b.point_on_ray().data);
        for d in [0.0, 2.5, -1.25] {
            self.put("point_on_ray_at_distance", &b.point_on_ray_at_distance(R::of(d)).data);
        }
    }
    pub fn btype<B: Bundle<R>, R: Real>(&mut self, b: &B) {
        let m = SMatrix::<R, 2, 3>::from_fn(|i, j| R::of(0.5 * i as f64 - 1.25 * j as f64));
        let iso = Isometry3::new(
            nalgebra::Vector3::new(R::of(1.0), R::of(-2.0), R::of(0.5)),
            nalgebra::Vector3::new(R::of(0.3), R::of(0.2), R::of(-0.7)),
        );
        self.put("centers", &b.centers(&m));
        self.put("directions", &b.directions(&m));
        self.put("point_on_ray", &b.point_on_ray::<_, _, WorldFrame>(&m).data);
        self.put("point_on_ray_at_distance", &b.point_on_ray_at_distance::<_, _, WorldFrame>(&m, R::of(3.0)).data);
        let p = b.to_pose::<_, _, WorldFrame>(iso, &m);
        self.put("to_pose", &p.centers());
        self.put("to_pose", &p.directions());
    }
}
