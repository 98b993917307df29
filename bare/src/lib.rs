//! A program without an operating system: no `std`, and without the feature
//! `alloc` no heap either. It links only if cam-geom (and what it pulls in)
//! needs neither.
#![no_std]
use cam_geom::*;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[cfg(any(feature = "alloc", feature = "serde"))]
mod heap {
    struct None;
    unsafe impl core::alloc::GlobalAlloc for None {
        unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 {
            core::ptr::null_mut()
        }
        unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {}
    }
    #[global_allocator]
    static HEAP: None = None;
}

#[no_mangle]
pub extern "C" fn project(x: f64, y: f64, z: f64, out: &mut [f64; 2]) {
    let e = ExtrinsicParameters::from_view(
        &nalgebra::Vector3::new(1.0, 2.0, 3.0),
        &nalgebra::Vector3::new(0.0, 0.0, 0.0),
        &nalgebra::Unit::new_unchecked(nalgebra::Vector3::new(0.0, 0.0, 1.0)),
    );
    let i = IntrinsicParametersPerspective::from(PerspectiveParams { fx: 100.0, fy: 100.0, skew: 0.0, cx: 0.0, cy: 0.0 });
    let c = Camera::new(i, e);
    let p = c.world_to_pixel(&Points::new(nalgebra::RowVector3::new(x, y, z)));
    out[0] = p.data[0];
    out[1] = p.data[1];
}
