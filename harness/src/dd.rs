//! Double-double arithmetic (about 106 significant bits), used only by the
//! oracles. Independent of nalgebra.
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    let t = 134_217_729.0 * a; // 2^27 + 1
    let hi = t - (t - a);
    (hi, a - hi)
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

impl Dd {
    pub const ZERO: Dd = Dd { hi: 0.0, lo: 0.0 };
    pub const ONE: Dd = Dd { hi: 1.0, lo: 0.0 };
    #[inline]
    pub fn new(x: f64) -> Dd {
        Dd { hi: x, lo: 0.0 }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    #[inline]
    pub fn abs(self) -> Dd {
        if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn sqrt(self) -> Dd {
        if self.hi <= 0.0 {
            return Dd::ZERO;
        }
        let x = Dd::new(1.0 / self.hi.sqrt());
        let ax = self * x;
        let r = self - ax * ax;
        ax + Dd::new(r.hi * x.hi * 0.5)
    }
    pub fn max(self, o: Dd) -> Dd {
        if self < o {
            o
        } else {
            self
        }
    }
}
impl From<f64> for Dd {
    fn from(x: f64) -> Dd {
        Dd::new(x)
    }
}
impl Add for Dd {
    type Output = Dd;
    #[inline]
    fn add(self, o: Dd) -> Dd {
        let (s1, s2) = two_sum(self.hi, o.hi);
        let (t1, t2) = two_sum(self.lo, o.lo);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (hi, lo) = quick_two_sum(s1, s2 + t2);
        Dd { hi, lo }
    }
}
impl Neg for Dd {
    type Output = Dd;
    #[inline]
    fn neg(self) -> Dd {
        Dd { hi: -self.hi, lo: -self.lo }
    }
}
impl Sub for Dd {
    type Output = Dd;
    #[inline]
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, o: Dd) -> Dd {
        let (p1, p2) = two_prod(self.hi, o.hi);
        let (hi, lo) = quick_two_sum(p1, p2 + (self.hi * o.lo + self.lo * o.hi));
        Dd { hi, lo }
    }
}
impl Div for Dd {
    type Output = Dd;
    #[inline]
    fn div(self, o: Dd) -> Dd {
        let q1 = self.hi / o.hi;
        let r = self - o * Dd::new(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * Dd::new(q2);
        let q3 = r.hi / o.hi;
        let (hi, lo) = quick_two_sum(q1, q2);
        Dd { hi, lo } + Dd::new(q3)
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<Ordering> {
        match self.hi.partial_cmp(&o.hi) {
            Some(Ordering::Equal) => self.lo.partial_cmp(&o.lo),
            x => x,
        }
    }
}

pub type V3 = [Dd; 3];
pub type M3 = [[Dd; 3]; 3];

pub fn v3(a: [f64; 3]) -> V3 {
    [Dd::new(a[0]), Dd::new(a[1]), Dd::new(a[2])]
}
pub fn fl3(a: V3) -> [f64; 3] {
    [a[0].f(), a[1].f(), a[2].f()]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, s: Dd) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: V3, b: V3) -> Dd {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn norm(a: V3) -> Dd {
    dot(a, a).sqrt()
}
pub fn unit(a: V3) -> V3 {
    let n = norm(a);
    [a[0] / n, a[1] / n, a[2] / n]
}
pub fn mv(m: &M3, v: V3) -> V3 {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}
pub fn mtv(m: &M3, v: V3) -> V3 {
    let mut r = [Dd::ZERO; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[j] = r[j] + m[i][j] * v[i];
        }
    }
    r
}
pub fn mm(a: &M3, b: &M3) -> M3 {
    let mut r = [[Dd::ZERO; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                r[i][j] = r[i][j] + a[i][k] * b[k][j];
            }
        }
    }
    r
}
pub fn det(m: &M3) -> Dd {
    dot(m[0], cross(m[1], m[2]))
}
/// Solve m x = b (adjugate; m nonsingular).
pub fn solve(m: &M3, b: V3) -> V3 {
    let d = det(m);
    let c0 = cross(m[1], m[2]);
    let c1 = cross(m[2], m[0]);
    let c2 = cross(m[0], m[1]);
    let mut r = [Dd::ZERO; 3];
    for j in 0..3 {
        r[j] = (c0[j] * b[0] + c1[j] * b[1] + c2[j] * b[2]) / d;
    }
    r
}
/// Rotation matrix of a (not necessarily unit) quaternion w,i,j,k.
pub fn rotmat(q: [f64; 4]) -> M3 {
    let [w, x, y, z] = [Dd::new(q[0]), Dd::new(q[1]), Dd::new(q[2]), Dd::new(q[3])];
    let n = w * w + x * x + y * y + z * z;
    let two = Dd::new(2.0);
    let d = |a: Dd| a / n;
    [
        [d(w * w + x * x - y * y - z * z), d(two * (x * y - w * z)), d(two * (x * z + w * y))],
        [d(two * (x * y + w * z)), d(w * w - x * x + y * y - z * z), d(two * (y * z - w * x))],
        [d(two * (x * z - w * y)), d(two * (y * z + w * x)), d(w * w - x * x - y * y + z * z)],
    ]
}
/// Eigenvalues of a symmetric 3x3 matrix (cyclic Jacobi), ascending.
pub fn sym_eigvals(m: [[f64; 3]; 3]) -> [f64; 3] {
    let mut a = m;
    for _ in 0..40 {
        let off = a[0][1].abs() + a[0][2].abs() + a[1][2].abs();
        if off == 0.0 {
            break;
        }
        for (p, q) in [(0usize, 1usize), (0, 2), (1, 2)] {
            if a[p][q] == 0.0 {
                continue;
            }
            let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
            let t = if th.is_finite() {
                th.signum() / (th.abs() + (th * th + 1.0).sqrt())
            } else {
                0.0
            };
            let c = 1.0 / (t * t + 1.0).sqrt();
            let s = t * c;
            let mut b = a;
            for k in 0..3 {
                b[p][k] = c * a[p][k] - s * a[q][k];
                b[q][k] = s * a[p][k] + c * a[q][k];
            }
            let b2 = b;
            for k in 0..3 {
                b[k][p] = c * b2[k][p] - s * b2[k][q];
                b[k][q] = s * b2[k][p] + c * b2[k][q];
            }
            a = b;
            a[p][q] = 0.0;
            a[q][p] = 0.0;
        }
    }
    let mut e = [a[0][0], a[1][1], a[2][2]];
    e.sort_by(|x, y| x.partial_cmp(y).unwrap_or(Ordering::Equal));
    e
}
