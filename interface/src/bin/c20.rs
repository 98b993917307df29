//! C20: a model of the user's own, with nothing but what the trait asks for.
#![allow(dead_code)]
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::allocator::Allocator;
use nalgebra::*;

macro_rules! model {
    ($name:ident, $bundle:ident, $new:ident) => {
        // neither comparable nor serialisable nor shareable between threads
        #[derive(Clone, Debug)]
        struct $name<R: RealField>(R, std::rc::Rc<std::cell::Cell<u32>>);
        impl<R: RealField> IntrinsicParameters<R> for $name<R> {
            type BundleType = $bundle<R>;
            fn pixel_to_camera<IN, NPTS>(
                &self,
                pixels: &Pixels<R, NPTS, IN>,
            ) -> RayBundle<CameraFrame, Self::BundleType, R, NPTS, Owned<R, NPTS, U3>>
            where
                Self::BundleType: Bundle<R>,
                IN: Storage<R, NPTS, U2>,
                NPTS: Dim,
                DefaultAllocator: Allocator<U1, U2>,
                DefaultAllocator: Allocator<NPTS, U2>,
                DefaultAllocator: Allocator<NPTS, U3>,
            {
                let n = NPTS::from_usize(pixels.data.nrows());
                RayBundle::$new(OMatrix::from_fn_generic(n, Const::<3>, |_, _| self.0.clone()))
            }
            fn camera_to_pixel<IN, NPTS>(
                &self,
                camera: &Points<CameraFrame, R, NPTS, IN>,
            ) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
            where
                IN: Storage<R, NPTS, U3>,
                NPTS: Dim,
                DefaultAllocator: Allocator<NPTS, U2>,
            {
                let n = NPTS::from_usize(camera.data.nrows());
                Pixels::new(OMatrix::from_fn_generic(n, Const::<2>, |i, j| camera.data[(i, j)].clone()))
            }
        }
    };
}
model!(Pin, SharedOriginRayBundle, new_shared_zero_origin);
model!(Par, SharedDirectionRayBundle, new_shared_plusz_direction);

fn both<R: RealField, I: IntrinsicParameters<R>>(k: I, a: R)
where
    I::BundleType: Bundle<R>,
{
    let e = ExtrinsicParameters::from_pose(&Isometry3::identity());
    let cam = Camera::new(k, e);
    let _ = (cam.intrinsics(), cam.extrinsics(), cam.clone());
    let _ = cam.world_to_pixel(&Points::new(SMatrix::<R, 4, 3>::from_element(a.clone())));
    let _ = cam.world_to_pixel(&Points::new(OMatrix::<R, Dyn, U3>::from_element(5, a.clone())));
    let _ = cam.pixel_to_world(&Pixels::new(SMatrix::<R, 4, 2>::from_element(a.clone())));
    let _ = cam.pixel_to_world(&Pixels::new(OMatrix::<R, Dyn, U2>::from_element(5, a)));
}
fn main() {
    both(Pin(1.0, Default::default()), 1.0);
    both(Par(1.0f32, Default::default()), 1.0);
}
