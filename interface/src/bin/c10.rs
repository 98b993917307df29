//! C10: every bulk operation on rows in storage of any kind.
#![allow(dead_code)]
use cam_geom::*;
use nalgebra::*;

fn on<I, N: Dim, S3, S2>(k: &I, e: &ExtrinsicParameters<f64>, m: Matrix<f64, N, U3, S3>, p: Matrix<f64, N, U2, S2>)
where
    I: IntrinsicParameters<f64>,
    I::BundleType: Bundle<f64>,
    S3: Storage<f64, N, U3> + Clone,
    S2: Storage<f64, N, U2> + Clone,
    DefaultAllocator: allocator::Allocator<N, U2> + allocator::Allocator<N, U3> + allocator::Allocator<N, U1>,
{
    let c = Points::<CameraFrame, _, _, _>::new(m.clone());
    let w = Points::<WorldFrame, _, _, _>::new(m.clone());
    let p = Pixels::new(p);
    let _ = k.camera_to_pixel(&c);
    let b = k.pixel_to_camera(&p);
    let _ = e.ray_camera_to_world(&b);
    let _ = e.camera_to_world(&c);
    let _ = e.world_to_camera(&w);
    let cam = Camera::new(k.clone(), e.clone());
    let _ = cam.world_to_pixel(&w);
    let _ = cam.pixel_to_world(&p).point_on_ray();
    let o = RayBundle::<WorldFrame, _, f64, N, S3>::new_shared_zero_origin(m.clone());
    let d = RayBundle::<WorldFrame, _, f64, N, S3>::new_shared_plusz_direction(m);
    let _ = (o.point_on_ray(), o.point_on_ray_at_distance(1.0));
    let _ = (d.point_on_ray(), d.point_on_ray_at_distance(1.0));
}
fn each<I: IntrinsicParameters<f64>>(k: &I, e: &ExtrinsicParameters<f64>)
where
    I::BundleType: Bundle<f64>,
{
    let s = SMatrix::<f64, 7, 5>::zeros();
    let d = DMatrix::<f64>::zeros(7, 5);
    on(k, e, s.fixed_columns::<3>(0).into_owned(), s.fixed_columns::<2>(0).into_owned());
    on(k, e, OMatrix::<f64, Dyn, U3>::zeros(0), OMatrix::<f64, Dyn, U2>::zeros(0));
    on(k, e, s.fixed_view::<4, 3>(1, 1), s.fixed_view::<4, 2>(1, 1));
    on(k, e, d.fixed_columns::<3>(1), d.fixed_columns::<2>(1));
    on(k, e, d.fixed_view::<4, 3>(1, 1), d.fixed_view::<4, 2>(1, 1));
    let v = [0.0; 40];
    on(
        k,
        e,
        MatrixView::<f64, U4, U3, U3, U1>::from_slice_with_strides_generic(&v, U4, U3, U3, U1),
        MatrixView::<f64, U4, U2, U2, U1>::from_slice_with_strides_generic(&v, U4, U2, U2, U1),
    );
    on(
        k,
        e,
        MatrixView::<f64, Dyn, U3, Dyn, Dyn>::from_slice_with_strides_generic(&v, Dyn(4), U3, Dyn(3), Dyn(1)),
        MatrixView::<f64, Dyn, U2, Dyn, Dyn>::from_slice_with_strides_generic(&v, Dyn(4), U2, Dyn(2), Dyn(1)),
    );
}
fn main() {
    let e = ExtrinsicParameters::from_pose(&Isometry3::identity());
    let k: IntrinsicParametersPerspective<f64> =
        PerspectiveParams { fx: 1.0, fy: 1.0, skew: 0.0, cx: 0.0, cy: 0.0 }.into();
    let l: IntrinsicParametersOrthographic<f64> = OrthographicParams { sx: 1.0, sy: 1.0, cx: 0.0, cy: 0.0 }.into();
    each(&k, &e);
    each(&l, &e);
}
