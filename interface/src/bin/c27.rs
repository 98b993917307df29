//! C27: every type and function with any `RealField`, which need not be `Copy`.
#![allow(dead_code)]
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::*;

fn model<R: RealField, I: IntrinsicParameters<R>>(k: I, e: ExtrinsicParameters<R>, a: R)
where
    I::BundleType: Bundle<R>,
{
    let pix = Pixels::new(SMatrix::<R, 4, 2>::from_element(a.clone()));
    let pixd = Pixels::new(OMatrix::<R, Dyn, U2>::from_element(5, a.clone()));
    let pts = Points::<CameraFrame, _, _, _>::new(SMatrix::<R, 4, 3>::from_element(a.clone()));
    let ptsd = Points::<CameraFrame, _, _, _>::new(OMatrix::<R, Dyn, U3>::from_element(5, a.clone()));
    let _ = k.camera_to_pixel(&pts);
    let _ = k.camera_to_pixel(&ptsd);
    let b = k.pixel_to_camera(&pix);
    let bd = k.pixel_to_camera(&pixd);
    bundle(&b);
    let _ = bd.point_on_ray();
    let _ = bd.point_on_ray_at_distance(a.clone());
    let _ = e.ray_camera_to_world(&b);
    let _ = e.ray_camera_to_world(&bd);
    let _ = e.camera_to_world(&pts);
    let _ = e.camera_to_world(&ptsd);
    let w = Points::<WorldFrame, _, _, _>::new(pts.data.clone());
    let wd = Points::<WorldFrame, _, _, _>::new(ptsd.data.clone());
    let _ = e.world_to_camera(&w);
    let _ = e.world_to_camera(&wd);
    intrinsic_test_utils::roundtrip_intrinsics(&k, 10, 10, 5, 0, a.clone());
    let cam = Camera::new(k, e);
    let _ = (cam.intrinsics(), cam.extrinsics(), cam.clone());
    let _ = cam.world_to_pixel(&w);
    let _ = cam.world_to_pixel(&wd);
    bundle(&cam.pixel_to_world(&pix));
    let _ = cam.pixel_to_world(&pixd);
    let one = Pixels::new(SMatrix::<R, 1, 2>::from_element(a));
    let r: Ray<WorldFrame, R> = cam.pixel_to_world(&one).to_single_ray();
    let _ = best_intersection_of_rays(&[r]);
}
fn bundle<F: CoordinateSystem, B: Bundle<R>, R: RealField>(b: &RayBundle<F, B, R, U4, Owned<R, U4, U3>>) {
    let _ = (b.centers(), b.directions(), b.point_on_ray());
}
fn bundles<R: RealField>(a: R) {
    let m = SMatrix::<R, 4, 3>::from_element(a.clone());
    let d = OMatrix::<R, Dyn, U3>::from_element(5, a.clone());
    let o = RayBundle::<WorldFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin(m.clone());
    let p = RayBundle::<WorldFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(m.clone());
    bundle(&o);
    bundle(&p);
    let _ = p.point_on_ray_at_distance(a.clone());
    let od = RayBundle::<CameraFrame, SharedOriginRayBundle<R>, R, _, _>::new_shared_zero_origin(d.clone());
    let _ = od.point_on_ray_at_distance(a.clone());
    let pd = RayBundle::<CameraFrame, SharedDirectionRayBundle<R>, R, _, _>::new_shared_plusz_direction(d.clone());
    let _ = pd.point_on_ray();
    let b = SharedOriginRayBundle::<R>::new_shared_zero_origin();
    let _: RayBundle<WorldFrame, _, R, U4, _> = b.to_pose(Isometry3::identity(), &m);
    let b = SharedDirectionRayBundle::<R>::new_plusz_shared_direction();
    let _: RayBundle<WorldFrame, _, R, Dyn, _> = b.to_pose(Isometry3::identity(), &d);
    let _: Points<WorldFrame, R, U4, _> = b.point_on_ray_at_distance(&m, a.clone());
    let v = SMatrix::<R, 1, 3>::from_element(a);
    let _ = Ray::<CameraFrame, R>::new(v.clone(), v);
}
fn all<R: RealField>(a: R) {
    let v = Vector3::from_element(a.clone());
    let e = ExtrinsicParameters::from_view(&v, &-v.clone(), &Unit::new_normalize(v.clone()));
    let e2 = ExtrinsicParameters::from_pose(&Isometry3::<R>::identity());
    let e3 = ExtrinsicParameters::from_rotation_and_camcenter(UnitQuaternion::identity(), Point3::from(v));
    let _ = (e.camcenter(), e.pose(), e.matrix(), e.rotation(), e.translation(), e.forward(), e.up(), e.right());
    let _ = (e == e2, e3.clone(), format!("{e:?}"));
    let p = PerspectiveParams { fx: a.clone(), fy: a.clone(), skew: a.clone(), cx: a.clone(), cy: a.clone() };
    let k: IntrinsicParametersPerspective<R> = p.clone().into();
    let _ = (k.fx(), k.fy(), k.skew(), k.cx(), k.cy(), k.params() == &p, format!("{k:?} {p:?}"));
    let o = OrthographicParams { sx: a.clone(), sy: a.clone(), cx: a.clone(), cy: a.clone() };
    let l: IntrinsicParametersOrthographic<R> = o.clone().into();
    let _ = (l == l.clone(), format!("{l:?} {o:?}"));
    let cam = Camera::new(k.clone(), e.clone());
    let m = cam.as_camera_matrix();
    let _ = Camera::from_perspective_matrix(&m);
    let _ = IntrinsicParametersPerspective::from_normalized_3x4_matrix(m);
    let j = JacobianPerspectiveCache::new(&cam);
    let _ = j.linearize_at(&Points::new(SMatrix::<R, 1, 3>::from_element(a.clone())));
    let _ = (cam == cam.clone(), format!("{cam:?}"));
    model(k, e2, a.clone());
    model(l, e3, a.clone());
    bundles(a);
}
fn main() {}
