//! Generators: structured value strategies, special values, and values
//! harvested from the numeric literals of the code under test.
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Prec {
    F64,
    F32,
}

pub struct Pool {
    pub floats: Vec<f64>,
    pub sizes: Vec<usize>,
    /// short string literals and the identifiers before `:`
    pub words: Vec<String>,
}

/// Words that might be names of fields.
fn words(src: &str, out: &mut Vec<String>) {
    let ok = |w: &str| {
        (1..=24).contains(&w.len()) && w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'-')
    };
    for line in src.lines() {
        for w in line.split('"').skip(1).step_by(2) {
            if ok(w) {
                out.push(w.to_string());
            }
        }
        if let Some((a, _)) = line.split_once(':') {
            let w = a.trim().trim_start_matches("pub ").trim_start_matches("pub(crate) ");
            if ok(w) {
                out.push(w.to_string());
            }
        }
    }
}

/// Numeric literals of the non-test part of a Rust source file.
fn literals(src: &str, out: &mut Vec<f64>) {
    let cut = src.find("#[cfg(test)]\nmod tests").unwrap_or(src.len());
    for line in src[..cut].lines() {
        let line = match line.find("//") {
            Some(i) => &line[..i],
            None => line,
        };
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                let s = i;
                let mut seen_e = false;
                while i < b.len() {
                    let c = b[i];
                    if c.is_ascii_digit() || c == b'_' {
                        i += 1;
                    } else if c == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                        i += 1;
                    } else if (c == b'e' || c == b'E')
                        && !seen_e
                        && i + 1 < b.len()
                        && (b[i + 1].is_ascii_digit()
                            || ((b[i + 1] == b'-' || b[i + 1] == b'+') && i + 2 < b.len() && b[i + 2].is_ascii_digit()))
                    {
                        seen_e = true;
                        i += 2;
                    } else {
                        break;
                    }
                }
                let t: String = line[s..i].chars().filter(|c| *c != '_').collect();
                if let Ok(v) = t.parse::<f64>() {
                    out.push(v);
                }
            } else {
                i += 1;
            }
        }
    }
}

pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let dir = std::env::var("CAMGEOM_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut files: Vec<_> = std::fs::read_dir(&dir)
            .map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "rs")).collect())
            .unwrap_or_default();
        files.sort();
        let mut lits = vec![];
        let mut wds = vec![];
        for f in files {
            if let Ok(s) = std::fs::read_to_string(f) {
                literals(&s, &mut lits);
                words(&s, &mut wds);
            }
        }
        lits.retain(|v: &f64| v.is_finite() && *v != 0.0);
        lits.sort_by(|a, b| a.partial_cmp(b).unwrap());
        lits.dedup();
        let mut sizes: Vec<usize> = lits
            .iter()
            .filter(|v| **v >= 1.0 && **v <= 70_000.0 && v.fract() == 0.0)
            .flat_map(|v| {
                let n = *v as usize;
                [n.saturating_sub(1), n, n + 1, n + 2]
            })
            .collect();
        sizes.sort();
        sizes.dedup();
        let mut floats = vec![];
        for v in &lits {
            floats.extend([
                *v,
                v * (1.0 + 1e-6),
                v * (1.0 - 1e-6),
                v * 0.5,
                v * 2.0,
                v * 0.9,
                v * 1.1,
                v.sqrt(),
                1.0 / v,
            ]);
        }
        floats.retain(|v| v.is_finite() && *v != 0.0);
        floats.sort_by(|a, b| a.partial_cmp(b).unwrap());
        floats.dedup();
        wds.sort();
        wds.dedup();
        Pool { floats, sizes, words: wds }
    })
}

pub fn harvested(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    let v: Vec<f64> = pool().floats.iter().copied().filter(|x| x.abs() >= lo && x.abs() <= hi).collect();
    if v.is_empty() {
        (lo..hi).boxed()
    } else {
        select(v).boxed()
    }
}
pub fn signed(s: BoxedStrategy<f64>, neg_pct: u32) -> BoxedStrategy<f64> {
    (s, 0u32..100).prop_map(move |(v, k)| if k >= 100 - neg_pct { -v } else { v }).boxed()
}
/// 10^U(lo,hi)
pub fn logmag(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (lo..hi).prop_map(|e| 10f64.powf(e)).boxed()
}
/// Length unit of a case: mostly one, sometimes any other magnitude, so that
/// absolute thresholds in the code under test become visible.
pub fn unit() -> BoxedStrategy<f64> {
    prop_oneof![
        26 => Just(1.0),
        2 => logmag(-15.0, 12.0),
        1 => (harvested(1e-18, 1e18), logmag(-3.0, 1.0)).prop_map(|(h, s)| h * s),
    ]
    .boxed()
}
pub trait Scale {
    fn rescale(&mut self, s: f64);
}
impl Scale for f64 {
    fn rescale(&mut self, s: f64) {
        *self *= s
    }
}
impl<T: Scale, const N: usize> Scale for [T; N] {
    fn rescale(&mut self, s: f64) {
        self.iter_mut().for_each(|x| x.rescale(s))
    }
}
impl<T: Scale> Scale for Vec<T> {
    fn rescale(&mut self, s: f64) {
        self.iter_mut().for_each(|x| x.rescale(s))
    }
}
impl<T: Scale> Scale for Option<T> {
    fn rescale(&mut self, s: f64) {
        self.iter_mut().for_each(|x| x.rescale(s))
    }
}
impl Scale for PoseC {
    fn rescale(&mut self, s: f64) {
        self.c.rescale(s)
    }
}
impl Scale for PtC {
    fn rescale(&mut self, s: f64) {
        match self {
            PtC::Cam([_, _, z]) => z.rescale(s),
            PtC::Raw(v) => v.rescale(s),
        }
    }
}
impl<T: Scale> Scale for Batch<T> {
    fn rescale(&mut self, s: f64) {
        self.base.rescale(s)
    }
}
impl Scale for RaysC {
    fn rescale(&mut self, s: f64) {
        match self {
            RaysC::Free(v) => v.iter_mut().for_each(|r| r.0.rescale(s)),
            RaysC::Round { base, .. } => base.rescale(s),
            RaysC::Through { at, rays, .. } | RaysC::Narrow { at, rays, .. } => {
                at.rescale(s);
                rays.iter_mut().for_each(|r| {
                    r.1.rescale(s);
                    r.2.rescale(s);
                })
            }
        }
    }
}
/// Cases of `st` in random units of length; `f` rescales a case.
pub fn in_units<T: std::fmt::Debug + 'static>(
    st: impl Strategy<Value = T> + 'static,
    prec: fn(&T) -> Prec,
    f: fn(&mut T, f64),
) -> BoxedStrategy<T> {
    (st, unit())
        .prop_map(move |(mut c, u)| {
            // squares must not overflow, so f32 gets a smaller range
            let u = if prec(&c) == Prec::F32 { u.powf(0.4) } else { u };
            if u != 1.0 {
                f(&mut c, u);
            }
            c
        })
        .boxed()
}
pub fn prec() -> BoxedStrategy<Prec> {
    prop_oneof![3 => Just(Prec::F64), 2 => Just(Prec::F32)].boxed()
}
/// general world coordinate
pub fn coord() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => -10.0..10.0f64,
        3 => signed(logmag(-3.0, 3.0), 50),
        1 => signed(logmag(3.0, 5.0), 50),
        3 => (-5i32..=5).prop_map(f64::from),
        2 => Just(0.0),
        3 => signed(harvested(1e-6, 1e5), 50),
    ]
    .boxed()
}
pub fn vec3(e: fn() -> BoxedStrategy<f64>) -> BoxedStrategy<[f64; 3]> {
    [e(), e(), e()].boxed()
}
pub fn dirvec() -> BoxedStrategy<[f64; 3]> {
    prop_oneof![
        6 => [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64].boxed(),
        2 => (0usize..6).prop_map(|k| {
            let mut v = [0.0; 3];
            v[k / 2] = if k % 2 == 0 { 1.0 } else { -1.0 };
            v
        }),
        2 => (0usize..3, -1.0..1.0f64, -1.0..1.0f64).prop_map(|(k, a, b)| {
            let mut v = [a, b, a];
            v[k] = 0.0;
            v[(k + 1) % 3] = b;
            v
        }),
        // almost axis aligned
        1 => (0usize..6, -1.0..1.0f64, -1.0..1.0f64, -9.0..-1.0f64).prop_map(|(k, a, b, e)| {
            let s = 10f64.powf(e);
            let mut v = [a * s, b * s, (a - b) * s];
            v[k / 2] = if k % 2 == 0 { 1.0 } else { -1.0 };
            v
        }),
        1 => vec3(coord),
    ]
    .prop_map(|v| if v[0] * v[0] + v[1] * v[1] + v[2] * v[2] < 1e-12 { [0.3, -0.5, 0.8] } else { v })
    .boxed()
}
pub fn angle() -> BoxedStrategy<f64> {
    use std::f64::consts::PI;
    prop_oneof![
        5 => -PI..PI,
        4 => (-4i32..=4).prop_map(|k| k as f64 * PI / 4.0),
        1 => (-3i32..=3).prop_map(|k| k as f64 * PI / 3.0),
        1 => signed(logmag(-10.0, -1.0), 50),
        1 => signed(logmag(-10.0, -1.0), 50).prop_map(|d| PI - d),
        1 => signed(logmag(-10.0, -1.0), 50).prop_map(|d| PI / 2.0 - d),
        1 => signed(harvested(1e-6, 7.0), 50),
    ]
    .boxed()
}
pub fn quat() -> BoxedStrategy<[f64; 4]> {
    prop_oneof![
        5 => [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64].prop_map(|q| {
            if q.iter().map(|x| x * x).sum::<f64>() < 1e-4 { [1.0, 0.0, 0.0, 0.0] } else { q }
        }),
        5 => (dirvec(), angle(), any::<bool>()).prop_map(|(a, t, neg)| {
            let n = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
            let (s, c) = (t / 2.0).sin_cos();
            let g = if neg { -1.0 } else { 1.0 };
            [g * c, g * s * a[0] / n, g * s * a[1] / n, g * s * a[2] / n]
        }),
        1 => (0usize..8).prop_map(|k| {
            let mut q = [0.0; 4];
            q[k / 2] = if k % 2 == 0 { 1.0 } else { -1.0 };
            q
        }),
    ]
    .boxed()
}
pub fn center() -> BoxedStrategy<[f64; 3]> {
    prop_oneof![
        1 => Just([0.0; 3]),
        9 => vec3(coord),
        1 => [signed(logmag(2.0, 6.5), 50), signed(logmag(2.0, 6.5), 50), signed(logmag(0.0, 4.0), 50)].boxed(),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct PoseC {
    /// quaternion w,i,j,k (normalised before use)
    pub q: [f64; 4],
    pub c: [f64; 3],
}
pub fn pose() -> BoxedStrategy<PoseC> {
    (quat(), center()).prop_map(|(q, c)| PoseC { q, c }).boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct PerspC {
    pub fx: f64,
    pub fy: f64,
    pub skew: f64,
    pub cx: f64,
    pub cy: f64,
}
pub fn focal(neg: u32) -> BoxedStrategy<f64> {
    signed(
        prop_oneof![
            6 => 50.0..2000.0f64,
            2 => logmag(-1.0, 4.5),
            1 => logmag(-6.0, 6.0),
            1 => (1i32..=5).prop_map(|x| x as f64),
            1 => harvested(1e-6, 1e6),
        ]
        .boxed(),
        neg,
    )
}
pub fn ppoint() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => 0.0..2000.0f64,
        2 => Just(0.0),
        1 => signed(logmag(-1.0, 4.0), 50),
        1 => signed(harvested(1e-3, 1e4), 50),
    ]
    .boxed()
}
pub fn persp_signed(neg: u32) -> BoxedStrategy<PerspC> {
    (focal(neg), focal(neg), 0u32..10, -0.5..0.5f64, -20.0..20.0f64, signed(harvested(1e-6, 1e3), 50), ppoint(), ppoint(), 0u32..5)
        .prop_map(|(fx, fy, sk, a, b, h, cx, cy, eq)| PerspC {
            fx,
            fy: if eq == 0 { fx } else { fy },
            skew: match sk {
                0..=2 => 0.0,
                3..=5 => a * fx.abs(),
                6..=7 => b,
                8 => a * 1e-3,
                _ => {
                    if h.abs() <= 2.0 * fx.abs() {
                        h
                    } else {
                        a
                    }
                }
            },
            cx,
            cy,
        })
        .boxed()
}
pub fn persp() -> BoxedStrategy<PerspC> {
    persp_signed(15)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct OrthoC {
    pub sx: f64,
    pub sy: f64,
    pub cx: f64,
    pub cy: f64,
}
pub fn ortho() -> BoxedStrategy<OrthoC> {
    (focal(15), focal(15), ppoint(), ppoint(), 0u32..8)
        .prop_map(|(sx, sy, cx, cy, eq)| OrthoC {
            sx,
            sy: match eq {
                0 => sx,
                1 => sx.abs().copysign(sy),
                _ => sy,
            },
            cx,
            cy,
        })
        .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum IntrC {
    P(PerspC),
    O(OrthoC),
}
pub fn intr() -> BoxedStrategy<IntrC> {
    prop_oneof![3 => persp().prop_map(IntrC::P), 2 => ortho().prop_map(IntrC::O)].boxed()
}

pub fn slope() -> BoxedStrategy<f64> {
    prop_oneof![
        7 => -3.0..3.0f64,
        2 => Just(0.0),
        1 => signed(logmag(-8.0, 2.0), 50),
        1 => signed(harvested(1e-8, 1e2), 50),
    ]
    .boxed()
}
pub fn depth(neg: u32) -> BoxedStrategy<f64> {
    signed(
        prop_oneof![
            5 => 0.1..50.0f64,
            2 => logmag(-3.0, 5.0),
            2 => (1i32..=5).prop_map(f64::from),
            1 => harvested(1e-5, 1e5),
        ]
        .boxed(),
        neg,
    )
}

/// A point, given either by slopes and depth in the camera frame, or by raw coordinates.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PtC {
    /// slopes X/Z, Y/Z and depth Z
    Cam([f64; 3]),
    Raw([f64; 3]),
}
impl PtC {
    /// k-th tile copy, slightly moved
    pub fn nth(&self, k: usize) -> PtC {
        let s = 1.0 + 0.01 * k as f64;
        match self {
            PtC::Cam([a, b, z]) => PtC::Cam([*a, *b / s, *z * s]),
            PtC::Raw([a, b, c]) => PtC::Raw([*a * s, *b, *c * s]),
        }
    }
}
pub fn pt() -> BoxedStrategy<PtC> {
    prop_oneof![
        4 => [slope(), slope(), depth(25)].prop_map(PtC::Cam),
        1 => vec3(coord).prop_map(PtC::Raw),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PixC {
    /// offset from the principal point in units of focal length (or scale)
    Rel([f64; 2]),
    Raw([f64; 2]),
}
impl PixC {
    pub fn nth(&self, k: usize) -> PixC {
        let s = 0.01 * k as f64;
        match self {
            PixC::Rel([a, b]) => PixC::Rel([*a + s, *b - s * 0.5]),
            PixC::Raw([a, b]) => PixC::Raw([*a + s * 100.0, *b - s * 50.0]),
        }
    }
}
pub fn pix() -> BoxedStrategy<PixC> {
    prop_oneof![
        3 => [slope(), slope()].prop_map(PixC::Rel),
        2 => [-100.0..2500.0f64, -100.0..2500.0f64].prop_map(PixC::Raw),
        1 => [(-3i32..1000).prop_map(f64::from), (-3i32..1000).prop_map(f64::from)].prop_map(PixC::Raw),
        1 => [coord(), coord()].prop_map(PixC::Raw),
    ]
    .boxed()
}

/// Batch: `base` rows repeated (slightly moved) up to `n` rows.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Batch<T> {
    pub base: Vec<T>,
    pub n: usize,
}
pub fn nrows() -> BoxedStrategy<usize> {
    let sizes: Vec<usize> = pool().sizes.iter().copied().filter(|n| *n <= 3000).collect();
    let sizes = if sizes.is_empty() { vec![1] } else { sizes };
    prop_oneof![
        800 => 1usize..=5,
        240 => 6usize..=20,
        80 => 21usize..=70,
        20 => 71usize..=300,
        1 => 301usize..=3000,
        60 => select(sizes.iter().copied().filter(|n| *n <= 140).collect::<Vec<_>>()),
        2 => select(sizes),
    ]
    .boxed()
}
/// occasionally very large or empty
pub fn nrows_wide() -> BoxedStrategy<usize> {
    let sizes: Vec<usize> = pool().sizes.clone();
    let sizes = if sizes.is_empty() { vec![1] } else { sizes };
    let mut small: Vec<usize> = sizes.iter().copied().filter(|n| *n <= 3000).collect();
    small.push(1);
    prop_oneof![
        2000 => nrows(),
        80 => Just(0usize),
        20 => 300usize..=3000,
        20 => select(small),
        8 => select(sizes),
        1 => 3000usize..=20_000,
        1 => prop_oneof![65_530usize..=65_545, 20_000usize..=70_000],
    ]
    .boxed()
}
pub fn batch<T: Clone + std::fmt::Debug + 'static>(
    e: fn() -> BoxedStrategy<T>,
    n: BoxedStrategy<usize>,
) -> BoxedStrategy<Batch<T>> {
    (proptest::collection::vec(e(), 1..=6), n).prop_map(|(base, n)| Batch { base, n }).boxed()
}
impl Batch<PtC> {
    pub fn rows(&self) -> Vec<PtC> {
        let l = self.base.len().max(1);
        (0..self.n).filter_map(|i| self.base.get(i % l).map(|b| b.nth(i / l))).collect()
    }
}
impl Batch<PixC> {
    pub fn rows(&self) -> Vec<PixC> {
        let l = self.base.len().max(1);
        (0..self.n).filter_map(|i| self.base.get(i % l).map(|b| b.nth(i / l))).collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Layout {
    /// owned, dynamically sized
    Dyn,
    /// owned, statically sized (falls back to Dyn for sizes not instantiated)
    Static,
    /// every other row and column of a larger matrix
    Strided,
    /// row-major data viewed with strides (a transposed view)
    Transposed,
    /// contiguous rows of a larger matrix
    Rows,
}
pub fn layout() -> BoxedStrategy<Layout> {
    prop_oneof![
        2 => Just(Layout::Dyn),
        4 => Just(Layout::Static),
        1 => Just(Layout::Strided),
        1 => Just(Layout::Transposed),
        1 => Just(Layout::Rows),
    ]
    .boxed()
}
pub fn distance() -> BoxedStrategy<f64> {
    signed(
        prop_oneof![
            5 => 0.01..20.0f64,
            2 => logmag(-3.0, 4.0),
            2 => (1i32..=5).prop_map(f64::from),
            1 => harvested(1e-5, 1e4),
        ]
        .boxed(),
        35,
    )
}

/// A set of rays as a user meets them.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RaysC {
    /// rays through (about) a common point: per ray direction, start distance, offset, length
    Through { at: [f64; 3], rays: Vec<([f64; 3], f64, [f64; 3], f64)>, noise: f64 },
    /// nearly parallel: common direction plus small deviations
    Narrow { at: [f64; 3], dir: [f64; 3], angle: f64, rays: Vec<([f64; 3], f64, [f64; 3], f64)> },
    /// arbitrary
    Free(Vec<([f64; 3], [f64; 3])>),
    /// n rays, going round the given ones
    Round { base: Box<RaysC>, n: usize },
}
pub fn raylen() -> BoxedStrategy<f64> {
    signed(prop_oneof![3 => Just(1.0), 2 => 0.1..10.0f64, 1 => logmag(-6.0, 6.0), 1 => harvested(1e-6, 1e6)].boxed(), 30)
}
pub fn nray() -> BoxedStrategy<usize> {
    let sizes: Vec<usize> = pool().sizes.iter().copied().filter(|n| *n >= 2 && *n <= 1500).collect();
    let sizes = if sizes.is_empty() { vec![2] } else { sizes };
    prop_oneof![
        300 => Just(2usize),
        200 => Just(3),
        300 => 4usize..=8,
        100 => 9usize..=40,
        50 => 41usize..=130,
        3 => select(sizes),
        1 => 131usize..=1500,
    ]
    .boxed()
}
pub fn rays() -> BoxedStrategy<RaysC> {
    let sizes: Vec<usize> = pool().sizes.iter().copied().filter(|n| *n >= 2).chain([257]).collect();
    let n = prop_oneof![2 => select(sizes), 2 => 1000usize..=6000, 1 => 65_530usize..=65_545, 1 => 6000usize..=70_000];
    prop_oneof![
        3000 => few_rays(),
        1 => (few_rays(), n).prop_map(|(b, n)| RaysC::Round { base: Box::new(b), n }),
    ]
    .boxed()
}
pub fn few_rays() -> BoxedStrategy<RaysC> {
    let one = || (dirvec(), distance(), [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64], raylen());
    let many = move || nray().prop_flat_map(move |n| proptest::collection::vec(one(), n));
    let noise = prop_oneof![2 => Just(0.0), 1 => logmag(-6.0, 0.0)];
    prop_oneof![
        4 => (center(), many(), noise).prop_map(|(at, rays, noise)| RaysC::Through { at, rays, noise }),
        2 => (center(), dirvec(), logmag(-4.0, -0.5), many())
            .prop_map(|(at, dir, angle, rays)| RaysC::Narrow { at, dir, angle, rays }),
        2 => nray()
            .prop_flat_map(|n| proptest::collection::vec((center(), dirvec()), n))
            .prop_map(RaysC::Free),
    ]
    .boxed()
}
impl RaysC {
    /// (start, direction) of each ray
    pub fn list(&self) -> Vec<([f64; 3], [f64; 3])> {
        let nrm = |d: [f64; 3]| (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
        match self {
            RaysC::Free(v) => v.clone(),
            RaysC::Round { base, n } => {
                let v = base.list();
                (0..*n).map(|i| v[i % v.len().max(1)]).collect()
            }
            RaysC::Through { at, rays, noise } => rays
                .iter()
                .map(|(d, t, off, l)| {
                    let n = nrm(*d);
                    let u = d.map(|x| x / n);
                    ([0, 1, 2].map(|j| at[j] - u[j] * t + off[j] * noise), u.map(|x| x * l))
                })
                .collect(),
            RaysC::Narrow { at, dir, angle, rays } => {
                let n = nrm(*dir);
                rays.iter()
                    .map(|(d, t, off, l)| {
                        let m = nrm(*d);
                        let u = [0, 1, 2].map(|j| dir[j] / n + angle * d[j] / m);
                        let un = nrm(u).max(1e-3);
                        let u = u.map(|x| x / un);
                        ([0, 1, 2].map(|j| at[j] - u[j] * t + off[j] * angle), u.map(|x| x * l))
                    })
                    .collect()
            }
        }
    }
}
