use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::SMatrix;
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mat {
    /// K [R | -R c]
    Cam(PerspC, PoseC),
    /// arbitrary entries
    Raw([[f64; 4]; 3]),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    m: Mat,
    /// log10 of the scale applied (f64; divided by 8 for f32), and its sign
    scale: f64,
    neg: bool,
    /// second scale for the invariance check
    scale2: f64,
    neg2: bool,
    pts: Vec<[f64; 3]>,
}
struct C12;

struct Ref {
    fx: f64,
    fy: f64,
    skew: f64,
    cx: f64,
    cy: f64,
    r: dd::M3,
    c: dd::V3,
    /// row norms of the left block over that of the last row
    rel: [f64; 2],
    kh: f64,
    /// largest over smallest of these norms: a solution for the centre that pays no
    /// attention to the size of the rows has errors in proportion
    spread: f64,
}
/// exact decomposition (Gram-Schmidt from the last row, in double-double)
fn reference(m: &[[f64; 4]; 3]) -> Option<Ref> {
    let a: dd::M3 = [0, 1, 2].map(|i| dd::v3([m[i][0], m[i][1], m[i][2]]));
    let b = dd::v3([m[0][3], m[1][3], m[2][3]]);
    let n = [dd::norm(a[0]), dd::norm(a[1]), dd::norm(a[2])];
    if n.iter().any(|x| !(x.f() > 0.0)) {
        return None;
    }
    // normalise rows first: no overflow, and row scaling does not change the geometry
    let ah: dd::M3 = [0, 1, 2].map(|i| [a[i][0] / n[i], a[i][1] / n[i], a[i][2] / n[i]]);
    let d = dd::det(&ah);
    if d.f() == 0.0 {
        return None;
    }
    let kh = 1.0 / d.abs().f();
    let r2 = ah[2];
    let r2 = dd::scale(r2, Dd::ONE / dd::norm(r2));
    let k12 = dd::dot(ah[1], r2);
    let v = dd::sub(ah[1], dd::scale(r2, k12));
    let k11 = dd::norm(v);
    let r1 = dd::scale(v, Dd::ONE / k11);
    let k02 = dd::dot(ah[0], r2);
    let k01 = dd::dot(ah[0], r1);
    let w = dd::sub(dd::sub(ah[0], dd::scale(r2, k02)), dd::scale(r1, k01));
    let k00 = dd::norm(w);
    let r0 = dd::scale(w, Dd::ONE / k00);
    let mut r = [r0, r1, r2];
    if dd::det(&r).f() < 0.0 {
        r = r.map(|x| dd::scale(x, Dd::new(-1.0)));
    }
    let (q0, q1) = (n[0] / n[2], n[1] / n[2]);
    let bh = [b[0] / n[0], b[1] / n[1], b[2] / n[2]];
    let c = dd::scale(dd::solve(&ah, bh), Dd::new(-1.0));
    Some(Ref {
        fx: (k00 * q0).f(),
        fy: (k11 * q1).f(),
        skew: (k01 * q0).f(),
        cx: (k02 * q0).f(),
        cy: (k12 * q1).f(),
        r,
        c,
        rel: [q0.f(), q1.f()],
        kh,
        spread: n.map(|x| x.f()).iter().fold(0.0, |a: f64, x| a.max(*x)) / n.map(|x| x.f()).iter().fold(f64::MAX, |a, x| a.min(*x)),
    })
}

fn matrix<R: Real>(m: &Mat, scale: f64, neg: bool) -> [[f64; 4]; 3] {
    let s = 10f64.powf(if R::EPS > 1e-10 { scale / 8.0 } else { scale }) * if neg { -1.0 } else { 1.0 };
    let mut a = match m {
        Mat::Raw(a) => *a,
        Mat::Cam(k, p) => {
            let r = dd::rotmat(p.q);
            let t = dd::scale(dd::mv(&r, dd::v3(p.c)), Dd::new(-1.0));
            let km = [[k.fx, k.skew, k.cx], [0.0, k.fy, k.cy], [0.0, 0.0, 1.0]];
            let mut a = [[0.0; 4]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    for l in 0..3 {
                        a[i][j] += km[i][l] * r[l][j].f();
                    }
                    a[i][3] += km[i][j] * t[j].f();
                }
            }
            a
        }
    };
    for x in a.iter_mut().flatten() {
        *x = rnd::<R>(*x * s);
    }
    a
}
fn build<R: Real>(m: &[[f64; 4]; 3]) -> Result<Camera<R, IntrinsicParametersPerspective<R>>, Error> {
    Camera::from_perspective_matrix(&SMatrix::<R, 3, 4>::from_fn(|i, j| R::of(m[i][j])))
}
/// camera against the exact decomposition
fn compare<R: Real>(o: &mut Obs, what: &str, cam: &Camera<R, IntrinsicParametersPerspective<R>>, f: &Ref, kk: f64) -> Res {
    let i = cam.intrinsics();
    o.group("intrinsics");
    for (n, g, w, s) in [
        ("fx", i.fx().f(), f.fx, f.rel[0]),
        ("skew", i.skew().f(), f.skew, f.rel[0]),
        ("cx", i.cx().f(), f.cx, f.rel[0]),
        ("fy", i.fy().f(), f.fy, f.rel[1]),
        ("cy", i.cy().f(), f.cy, f.rel[1]),
    ] {
        o.close(&|| format!("{} {what} {n}", R::NAME), g, w, kk * s)?;
    }
    let r = m3_of(cam.extrinsics().rotation().matrix());
    o.group("rotation");
    o.small(&|| format!("{} {what} rotation {r:?} expected {:?}", R::NAME, f.r), mat_diff(&r, &f.r), kk)?;
    o.group("centre");
    let cn = vn(f.c);
    close3(o, &|| format!("{} {what} camera centre", R::NAME), p3_of(cam.extrinsics().camcenter()), f.c, kk * cn * (1.0 + f.spread / 8.0))
}

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let m = matrix::<R>(&c.m, c.scale, c.neg);
    let Some((mn, f)) = usable::<R>(&m).and_then(|mn| reference(&mn).map(|f| (mn, f))) else {
        o.skipped += 1;
        return Ok(());
    };
    let kk = K * eps * f.kh;
    if !(kk < 1.0 / 64.0) {
        o.skipped += 1;
        return Ok(());
    }
    let cam = build::<R>(&m).map_err(|e| format!("{} construction from {m:?} failed: {e}", R::NAME))?;
    let i = cam.intrinsics();
    ensure(i.fx().f() > 0.0 && i.fy().f() > 0.0, || {
        format!("{} focal lengths {:?}, {:?} not positive for {m:?}", R::NAME, i.fx(), i.fy())
    })?;
    let r = m3_of(cam.extrinsics().rotation().matrix());
    o.group("proper rotation");
    let rrt = dd::mm(&r, &[0, 1, 2].map(|a| [0, 1, 2].map(|b| r[b][a])));
    let id = dd::rotmat([1.0, 0.0, 0.0, 0.0]);
    o.small(&|| format!("{} rotation {r:?} not orthonormal", R::NAME), mat_diff(&rrt, &id), 4.0 * K * eps)?;
    o.close(&|| format!("{} rotation determinant", R::NAME), dd::det(&r).f(), 1.0, 4.0 * K * eps)?;
    compare(o, "decomposition", &cam, &f, kk)?;
    // projection
    let km = KM { ortho: false, fx: i.fx().f(), fy: i.fy().f(), skew: i.skew().f(), cx: i.cx().f(), cy: i.cy().f() };
    let cn = vn(f.c);
    for p in &c.pts {
        let p = rnd3::<R>(*p);
        let rel = dd::sub(dd::v3(p), f.c);
        let a: dd::M3 = [0, 1, 2].map(|i| dd::v3([mn[i][0], mn[i][1], mn[i][2]]));
        let h = dd::mv(&a, rel);
        let want = [(h[0] / h[2]).f(), (h[1] / h[2]).f()];
        // camera coordinates, up to rotation error
        let pc = dd::mv(&f.r, rel);
        let e = eps * f.kh * (n3(p) + (2.0 + f.spread / 8.0) * cn);
        let Some(mut pm) = km.project(pc, e, eps) else {
            o.skipped += 2;
            continue;
        };
        for j in 0..2 {
            pm.u[j] = want[j];
            pm.tol[j] += kk * (f.rel[j] * (1.0 + vn(rel) / pc[2].f().abs()) + want[j].abs());
        }
        let px = world_to_pix(&cam, &[p], Layout::Static)[0];
        o.group("projection");
        close2(o, &|| format!("{} projection of {p:?} by the camera of {m:?}", R::NAME), px, &pm)?;
        o.nontrivial |= pm.tol[0] < 1e-2 * f.rel[0];
    }
    // another factor, same camera
    let m2 = matrix::<R>(&c.m, c.scale2, c.neg2);
    if let Some(f2) = usable::<R>(&m2).and_then(|m| reference(&m)) {
        let cam2 = build::<R>(&m2).map_err(|e| format!("{} construction from {m2:?} failed: {e}", R::NAME))?;
        if K * eps * f2.kh < 1.0 / 64.0 {
            // entries were rounded again, so allow for that
            compare(o, "rescaled matrix", &cam2, &f, 4.0 * kk)?;
            o.lab_if(c.neg != c.neg2, "opposite sign");
        }
    }
    o.label(R::NAME);
    o.label(match c.m {
        Mat::Cam(..) => "from camera",
        Mat::Raw(..) => "arbitrary entries",
    });
    o.lab_if(m[1][0] == 0.0 && m[2][0] == 0.0 && m[2][1] == 0.0, "upper triangular");
    o.lab_if(f.kh > 100.0, "Hadamard ratio > 100");
    Ok(())
}

/// which entries are zero (bit 4*row + column): triangular, diagonal, permuted and other sparse matrices
fn mask() -> BoxedStrategy<u16> {
    let of = |rows: [u16; 3]| rows[0] | rows[1] << 4 | rows[2] << 8;
    let mut sparse = vec![];
    // keep one entry of each row: diagonal and permutations
    for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
        sparse.push(of([7 & !(1 << p[0]), 7 & !(1 << p[1]), 7 & !(1 << p[2])]));
    }
    let upper = of([0, 1, 3]);
    let lower = of([6, 4, 0]);
    let shapes = vec![
        upper,
        lower,
        of([2, 1, 3]), // no skew
        of([0, 0, 3]), // last row along z
        of([0, 0, 5]),
        of([0, 0, 6]),
        of([0, 1, 0]),
        of([1, 0, 0]),
        of([4, 4, 0]), // principal point at the origin of an unrotated camera
        of([0, 0, 1]),
        of([0, 0, 2]),
        of([0, 0, 4]),
    ];
    let t = prop_oneof![2 => Just(0u16), 1 => Just(0x888u16), 1 => Just(0x800u16), 1 => (0u16..8).prop_map(|b| (b & 1) << 3 | (b & 2) << 6 | (b & 4) << 9)];
    let m = prop_oneof![
        6 => Just(0u16),
        2 => Just(upper),
        1 => proptest::sample::select(sparse),
        2 => proptest::sample::select(shapes),
        1 => 0u16..4096,
    ];
    (m, t).prop_map(|(m, t)| m | t).boxed()
}
impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "3x4 matrices composed from a random camera or with arbitrary entries (also sparse: triangular, diagonal, permuted, zero translation), scaled by 10^±290 (f64) or 10^±36 (f32) of either sign; compared with an exact decomposition, and with the camera of the same matrix under another factor; skipped when the row-normalised determinant is too small for the scalar type; non-trivial: a projection compared with a bound below 1% of the focal scale";
    const ASSUME: &'static [&'static str] = &["well-conditioned means 64 eps / |det of the row-normalised 3x3 block| < 1/64"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let e = || prop_oneof![4 => -2.0..2.0f64, 1 => Just(0.0), 2 => (-3i32..=3).prop_map(f64::from), 1 => coord()];
        let raw = [[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]];
        let m = prop_oneof![
            3 => (persp_signed(25), pose()).prop_map(|(k, p)| Mat::Cam(k, p)),
            2 => (raw, mask()).prop_map(|(mut m, z)| {
                for k in 0..12 {
                    if z >> k & 1 == 1 {
                        m[k / 4][k % 4] = 0.0;
                    }
                }
                Mat::Raw(m)
            }),
        ];
        let sc = || prop_oneof![2 => Just(0.0), 2 => -3.0..3.0f64, 1 => -40.0..40.0f64, 1 => -290.0..290.0f64];
        in_units((prec(), m, sc(), any::<bool>(), sc(), any::<bool>(), proptest::collection::vec(vec3(coord), 1..4))
            .prop_map(|(prec, m, scale, neg, scale2, neg2, pts)| Case { prec, m, scale, neg, scale2, neg2, pts }), |c| c.prec, |c, s| {
            // a raw matrix is as good in any unit; its centre is rescaled
            match &mut c.m {
                Mat::Cam(_, p) => p.rescale(s),
                Mat::Raw(m) => m.iter_mut().for_each(|r| r[3].rescale(s)),
            }
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C12>()
}
