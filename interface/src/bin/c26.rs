//! C26: every public value type can be cloned, compared and printed.
#![allow(dead_code)]
use cam_geom::ray_bundle_types::{SharedDirectionRayBundle, SharedOriginRayBundle};
use cam_geom::*;
use nalgebra::*;
use std::fmt::{Debug, Display};

fn yes<T: Clone + PartialEq + Debug>() {}
fn shown<T: Debug>() {}
fn types<R: RealField>() {
    yes::<PerspectiveParams<R>>();
    yes::<OrthographicParams<R>>();
    yes::<IntrinsicParametersPerspective<R>>();
    yes::<IntrinsicParametersOrthographic<R>>();
    yes::<ExtrinsicParameters<R>>();
    yes::<Camera<R, IntrinsicParametersPerspective<R>>>();
    yes::<Camera<R, IntrinsicParametersOrthographic<R>>>();
    yes::<SharedOriginRayBundle<R>>();
    yes::<SharedDirectionRayBundle<R>>();
    yes::<RayBundle<WorldFrame, SharedOriginRayBundle<R>, R, U3, Owned<R, U3, U3>>>();
    yes::<RayBundle<CameraFrame, SharedDirectionRayBundle<R>, R, Dyn, Owned<R, Dyn, U3>>>();
    shown::<Points<WorldFrame, R, U3, Owned<R, U3, U3>>>();
}
fn error<T: std::error::Error + Debug + Display + 'static>() {}
fn main() {
    types::<f64>();
    types::<f32>();
    error::<Error>();
}
