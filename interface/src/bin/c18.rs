//! C18, C19 and C29: every public value type can be serialised and deserialised.
#![allow(dead_code)]
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

fn yes<T: Serialize + DeserializeOwned>() {}
/// also inside the user's own types
#[derive(Serialize, Deserialize)]
struct Rig {
    left: Camera<f64, IntrinsicParametersPerspective<f64>>,
    right: Option<Camera<f32, IntrinsicParametersOrthographic<f32>>>,
}
fn types<R: RealField + Serialize + DeserializeOwned>() {
    yes::<PerspectiveParams<R>>();
    yes::<OrthographicParams<R>>();
    yes::<IntrinsicParametersPerspective<R>>();
    yes::<IntrinsicParametersOrthographic<R>>();
    yes::<ExtrinsicParameters<R>>();
    yes::<Camera<R, IntrinsicParametersPerspective<R>>>();
    yes::<Camera<R, IntrinsicParametersOrthographic<R>>>();
    yes::<SharedOriginRayBundle<R>>();
    yes::<SharedDirectionRayBundle<R>>();
    yes::<RayBundle<WorldFrame, SharedOriginRayBundle<R>, R, U3, Owned<R, U3, U3>>>();
    yes::<RayBundle<CameraFrame, SharedOriginRayBundle<R>, R, Dyn, Owned<R, Dyn, U3>>>();
    yes::<RayBundle<WorldFrame, SharedDirectionRayBundle<R>, R, Dyn, Owned<R, Dyn, U3>>>();
    yes::<RayBundle<CameraFrame, SharedDirectionRayBundle<R>, R, U3, Owned<R, U3, U3>>>();
}
fn main() {
    types::<f64>();
    types::<f32>();
    yes::<Rig>();
}
