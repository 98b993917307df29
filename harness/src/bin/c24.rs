use cam_geom::intrinsic_test_utils::roundtrip_intrinsics;
use cam_geom::*;
use camcheck::{by_prec, driver::*, gen::*, model::*};
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, OMatrix, Owned, Storage, U1, U2, U3};
use proptest::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Delta {
    /// times the tolerance
    Rel(f64),
    /// in pixels
    Abs(f64),
    Nan,
    Inf(bool),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Comp {
    U,
    V,
    Both,
}
/// where the model comes back to another pixel than the one it was given
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Place {
    /// one pixel of the grid (0 first, 65535 last column / row)
    Grid(u16, u16),
    /// a pixel given relative to one of the grid, possibly off the grid
    Near(u16, u16, i32, i32),
    /// every pixel which is not on the grid
    Outside,
    Everywhere,
    /// every pixel right of / below the given one
    From(u16, u16),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Fault {
    place: Place,
    comp: Comp,
    delta: Delta,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    intr: IntrC,
    /// the grid: number of columns and rows wanted, step, border, rest after the last column, row
    grid: [usize; 2],
    step: usize,
    border: usize,
    rest: [usize; 2],
    eps: f64,
    faults: Vec<Fault>,
    /// the fault is in the ray of the pixel rather than in the projection
    ray_side: bool,
}
struct C24;

#[derive(Clone, Debug)]
struct Grid {
    w: usize,
    h: usize,
    step: usize,
    border: usize,
    cols: Vec<i64>,
    rows: Vec<i64>,
}
impl Case {
    fn grid(&self) -> Grid {
        let (s, b) = (self.step.max(1), self.border);
        let size = |n: usize, rest: usize| {
            // columns border, border+step, ... below size-border: exactly n of them
            if n == 0 { 2 * b - rest % (b + 1) } else { 2 * b + (n - 1) * s + 1 + rest % s }
        };
        let (w, h) = (size(self.grid[0], self.rest[0]), size(self.grid[1], self.rest[1]));
        let list = |size: usize| -> Vec<i64> {
            let mut v = vec![];
            let mut x = b as i64;
            while x < size as i64 - b as i64 {
                v.push(x);
                x += s as i64;
            }
            v
        };
        Grid { w, h, step: s, border: b, cols: list(w), rows: list(h) }
    }
}
fn pick(v: &[i64], k: u16) -> i64 {
    if v.is_empty() {
        return 0;
    }
    if k == u16::MAX { v[v.len() - 1] } else { v[k as usize * v.len() / 65536] }
}
#[derive(Clone, Debug)]
struct Map<'a> {
    faults: &'a [Fault],
    g: &'a Grid,
    eps: f64,
}
impl Map<'_> {
    fn at(&self, col: i64, row: i64) -> [f64; 2] {
        let mut d = [0.0; 2];
        for f in self.faults {
            let hit = match f.place {
                Place::Grid(a, b) => {
                    !self.g.cols.is_empty()
                        && !self.g.rows.is_empty()
                        && col == pick(&self.g.cols, a)
                        && row == pick(&self.g.rows, b)
                }
                Place::Near(a, b, x, y) => {
                    col == pick(&self.g.cols, a) + x as i64 && row == pick(&self.g.rows, b) + y as i64
                }
                Place::Outside => self.g.cols.binary_search(&col).is_err() || self.g.rows.binary_search(&row).is_err(),
                Place::Everywhere => true,
                Place::From(a, b) => col >= pick(&self.g.cols, a) && row >= pick(&self.g.rows, b),
            };
            if hit {
                let x = match f.delta {
                    Delta::Rel(r) => r * self.eps,
                    Delta::Abs(a) => a,
                    Delta::Nan => f64::NAN,
                    Delta::Inf(p) => if p { f64::INFINITY } else { f64::NEG_INFINITY },
                };
                if !matches!(f.comp, Comp::V) {
                    d[0] += x;
                }
                if !matches!(f.comp, Comp::U) {
                    d[1] += x;
                }
            }
        }
        d
    }
}
#[derive(Clone, Debug)]
struct Faulty<'a, I> {
    inner: I,
    map: Map<'a>,
    ray_side: bool,
}
fn shift<R: Real, N: Dim, S: Storage<R, N, U2>>(map: &Map, m: &nalgebra::Matrix<R, N, U2, S>) -> OMatrix<R, N, U2>
where
    DefaultAllocator: Allocator<N, U2>,
{
    let mut out = m.clone_owned();
    for i in 0..m.nrows() {
        let p = [m[(i, 0)].f(), m[(i, 1)].f()];
        let d = map.at(p[0].round() as i64, p[1].round() as i64);
        for j in 0..2 {
            if d[j] != 0.0 {
                out[(i, j)] = R::of(p[j] + d[j]);
            }
        }
    }
    out
}
impl<R: Real, I: IntrinsicParameters<R>> IntrinsicParameters<R> for Faulty<'_, I>
where
    I::BundleType: Bundle<R>,
{
    type BundleType = I::BundleType;
    fn pixel_to_camera<IN, NPTS>(
        &self,
        pixels: &Pixels<R, NPTS, IN>,
    ) -> RayBundle<CameraFrame, I::BundleType, R, NPTS, Owned<R, NPTS, U3>>
    where
        IN: Storage<R, NPTS, U2>,
        NPTS: Dim,
        DefaultAllocator: Allocator<U1, U2>,
        DefaultAllocator: Allocator<NPTS, U2>,
        DefaultAllocator: Allocator<NPTS, U3>,
    {
        if self.ray_side {
            self.inner.pixel_to_camera(&Pixels::new(shift(&self.map, &pixels.data)))
        } else {
            self.inner.pixel_to_camera(pixels)
        }
    }
    fn camera_to_pixel<IN, NPTS>(&self, camera: &Points<CameraFrame, R, NPTS, IN>) -> Pixels<R, NPTS, Owned<R, NPTS, U2>>
    where
        IN: Storage<R, NPTS, U3>,
        NPTS: Dim,
        DefaultAllocator: Allocator<NPTS, U2>,
    {
        let p = self.inner.camera_to_pixel(camera);
        if self.ray_side {
            p
        } else {
            Pixels::new(shift(&self.map, &p.data))
        }
    }
}
/// rounding bound of the round trip of a pixel
fn bound(k: &KM, px: [f64; 2], eps: f64) -> f64 {
    if !px.iter().all(|x| x.is_finite() && x.abs() < 1e9) {
        return f64::INFINITY;
    }
    let (ray, e) = k.unproject(px, eps);
    match k.project(ray, e[0].max(e[1]) / K + eps, eps) {
        Some(m) => m.tol[0].max(m.tol[1]) + px[0].abs().max(px[1].abs()) * eps,
        None => f64::INFINITY,
    }
}

fn go<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let k = rnd_i::<R>(&c.intr);
    let g = c.grid();
    o.label(R::NAME);
    o.label(if k.ortho { "orthographic" } else { "perspective" });
    let mut b0 = 0.0f64;
    for col in &g.cols {
        for row in &g.rows {
            b0 = b0.max(bound(&k, [*col as f64, *row as f64], R::EPS));
        }
    }
    if !(b0 < 0.1) {
        o.skipped += 1;
        o.label("round trip too inexact for this camera");
        return Ok(());
    }
    let eps = rnd::<R>(c.eps.max(50.0 * b0));
    // the verdict that must come
    let m = Map { faults: &c.faults, g: &g, eps };
    let (mut must_panic, mut unclear) = (None, false);
    for col in &g.cols {
        for row in &g.rows {
            let d = m.at(*col, *row);
            if d == [0.0; 2] {
                continue; // off by at most b0 <= eps/50
            }
            let px = [*col as f64, *row as f64];
            let far = [px[0] + d[0], px[1] + d[1]];
            let b = if c.ray_side { bound(&k, far, R::EPS) } else { b0 };
            for j in 0..2 {
                let t = b + R::EPS * (far[j].abs() + eps);
                if d[j].is_nan() || d[j].is_infinite() || d[j].abs() - t > eps {
                    must_panic = Some((*col, *row, j, d[j]));
                } else if !(d[j].abs() + t <= eps) {
                    unclear = true;
                }
            }
        }
    }
    let n = g.cols.len() * g.rows.len();
    let run = || {
        let (map, ray_side) = (Map { faults: &c.faults, g: &g, eps }, c.ray_side);
        match &c.intr {
            IntrC::P(_) => {
                let f = Faulty { inner: mk_persp::<R>(&k), map, ray_side };
                roundtrip_intrinsics(&f, g.w, g.h, g.step, g.border, R::of(eps))
            }
            IntrC::O(_) => {
                let f = Faulty { inner: mk_ortho::<R>(&k), map, ray_side };
                roundtrip_intrinsics(&f, g.w, g.h, g.step, g.border, R::of(eps))
            }
        }
    };
    let panicked = catch_unwind(AssertUnwindSafe(run)).is_err();
    o.lab_if(g.cols.len() != g.rows.len(), "non-square grid");
    o.lab_if(g.w != g.h, "non-square image");
    o.lab_if(n == 0, "empty grid");
    o.lab_if(n > 10_000, "more than 10000 grid pixels");
    o.lab_if(n > 65_536, "more than 65536 grid pixels");
    let ctx = || format!("{} image {}x{}, step {}, border {}, tolerance {eps:e}", R::NAME, g.w, g.h, g.step, g.border);
    match must_panic {
        Some((col, row, j, d)) => {
            o.compared += 1;
            o.nontrivial = true;
            o.label("must be refused");
            o.lab_if(d.is_nan(), "NaN fault");
            o.lab_if(d.abs() < 2.0 * eps, "fault just above the tolerance");
            ensure(panicked, || {
                format!("{}: pixel ({col}, {row}) comes back off by {d:e} in {} but the model was accepted", ctx(), ["u", "v"][j])
            })
        }
        None if unclear => {
            o.skipped += 1;
            Ok(())
        }
        None => {
            o.compared += 1;
            o.nontrivial = n > 0 && !c.faults.is_empty();
            o.label("must be accepted");
            o.lab_if(c.faults.is_empty(), "faultless model");
            o.lab_if(c.faults.iter().any(|f| matches!(f.place, Place::Outside)), "faulty everywhere off the grid");
            ensure(!panicked, || {
                format!("{}: every pixel of the grid comes back within the tolerance but the model was refused: {}", ctx(), last_panic())
            })
        }
    }
}
impl Prop for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "built-in models with generated parameters, wrapped so that chosen pixels come back displaced (by a generated multiple of the tolerance, by NaN or infinity, in one component or both, at one grid pixel, off the grid, in a quadrant or everywhere), run through roundtrip_intrinsics on generated grids (up to about 200000 pixels); the verdict follows from the displacements on the grid; non-trivial: a fault is present, or the model must be refused";
    const ASSUME: &'static [&'static str] = &[
        "border <= image size and step >= 1; displacements within rounding of the tolerance are not judged",
    ];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 400_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let idx = || prop_oneof![3 => any::<u16>(), 1 => Just(0u16), 1 => Just(u16::MAX)];
        let off = || prop_oneof![1 => -3i32..=3, 1 => -60i32..60, 1 => Just(0)];
        let place = prop_oneof![
            6 => (idx(), idx()).prop_map(|(a, b)| Place::Grid(a, b)),
            4 => (idx(), idx(), off(), off()).prop_map(|(a, b, x, y)| Place::Near(a, b, x, y)),
            3 => Just(Place::Outside),
            1 => Just(Place::Everywhere),
            1 => (idx(), idx()).prop_map(|(a, b)| Place::From(a, b)),
        ];
        let rel = prop_oneof![
            4 => select_rel(),
            2 => signed((1.02..3.0f64).boxed(), 50).prop_map(Delta::Rel),
            3 => signed((0.05..0.97f64).boxed(), 50).prop_map(Delta::Rel),
            2 => signed(logmag(0.1, 4.0), 50).prop_map(Delta::Rel),
            1 => signed(logmag(-2.0, 3.0), 50).prop_map(Delta::Abs),
            1 => Just(Delta::Nan),
            1 => any::<bool>().prop_map(Delta::Inf),
        ];
        let comp = prop_oneof![2 => Just(Comp::U), 2 => Just(Comp::V), 1 => Just(Comp::Both)];
        let fault = (place, comp, rel).prop_map(|(place, comp, delta)| Fault { place, comp, delta });
        let n = || prop_oneof![1 => Just(0usize), 2 => Just(1usize), 8 => 2usize..12, 2 => 12usize..60];
        // mostly small grids; now and then one as large as a sensor's
        let n = prop_oneof![
            600 => (n(), n()),
            2 => (40usize..200, 40usize..200),
            1 => prop_oneof![(150usize..700, 1usize..300), (1usize..300, 150usize..700)],
        ];
        let size = (n, prop_oneof![2 => 1usize..4, 2 => 4usize..70], prop_oneof![2 => 0usize..3, 2 => 3usize..120], 0usize..70, 0usize..70);
        let eps = prop_oneof![4 => logmag(-12.0, 0.0), 1 => logmag(0.0, 2.0), 1 => harvested(1e-12, 10.0)];
        let neg = |p: PerspC, on: bool| if on { p } else { PerspC { fx: p.fx.abs(), fy: p.fy.abs(), ..p } };
        let intr = (intr(), any::<bool>()).prop_map(move |(i, b)| match i {
            IntrC::P(p) => IntrC::P(neg(p, b)),
            o => o,
        });
        (prec(), intr, size, eps, prop_oneof![1 => Just(0usize), 4 => Just(1), 2 => Just(2), 1 => Just(3)], any::<bool>())
            .prop_flat_map(move |(prec, intr, ((nc, nr), step, border, r0, r1), eps, nf, ray_side)| {
                proptest::collection::vec(fault.clone(), nf).prop_map(move |faults| Case {
                    prec,
                    intr,
                    grid: [nc, nr],
                    step,
                    border,
                    rest: [r0, r1],
                    eps,
                    faults,
                    ray_side,
                })
            })
            .boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, go(c, o))
    }
}
fn select_rel() -> BoxedStrategy<Delta> {
    proptest::sample::select(vec![
        0.5, -0.5, 0.9, -0.9, 0.97, -0.97, 1.03, -1.03, 1.1, -1.1, 1.5, -1.5, 2.0, -2.0, 1.4, -1.4, 4.0, -4.0, 10.0, 100.0,
    ])
    .prop_map(Delta::Rel)
    .boxed()
}
fn main() {
    main_for::<C24>()
}
