//! Self-contained calls into the library, each with its own arguments: every
//! operation, and also the ways in which operations fail. What a call returns
//! may depend on nothing but its arguments.
use crate::gen::*;
use crate::model::*;
use crate::sig::Sig;
use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use nalgebra::{Dyn, OMatrix, Point3, SMatrix, Unit, Vector3, U3};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// stand-ins for values that JSON (replay files) cannot hold
const NAN: f64 = 1.25e300;
const INF: f64 = 1.5e300;
fn num<R: Real>(x: f64) -> R {
    if x == NAN {
        R::of(f64::NAN)
    } else if x == INF {
        R::of(f64::INFINITY)
    } else {
        R::of(x)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Intersect(Vec<([f64; 3], [f64; 3])>),
    Decompose([[f64; 4]; 3]),
    Normalised([[f64; 4]; 3]),
    Project { k: IntrC, pose: PoseC, pts: Vec<[f64; 3]>, fixed: bool },
    Unproject { k: IntrC, pose: PoseC, pix: Vec<[f64; 2]>, dist: f64, fixed: bool },
    Frames { pose: PoseC, pts: Vec<[f64; 3]>, fixed: bool },
    Views(PoseC),
    FromPose { q: [f64; 4], t: [f64; 3] },
    FromView { c: [f64; 3], at: [f64; 3], up: [f64; 3] },
    Matrix(PerspC, PoseC),
    Linear { k: PerspC, pose: PoseC, pts: Vec<[f64; 3]> },
    /// write a camera as text, break it at a position, read it
    Text { k: IntrC, pose: PoseC, cut: Option<usize>, pretty: bool },
    Bytes { k: IntrC, pose: PoseC, cut: Option<usize> },
    Rays { origin: bool, shared: [f64; 3], rows: Vec<[f64; 3]>, dist: f64, pose: PoseC },
    Conform { k: IntrC, size: [usize; 2], step: usize, border: usize, tol: f64 },
    /// equality and clones
    Same { a: IntrC, b: IntrC, p: PoseC, q: PoseC },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Call {
    pub prec: Prec,
    pub what: What,
}

fn err(e: &Error) -> u64 {
    e.to_string().bytes().fold(7, |h, b| h * 131 + b as u64)
}
fn text(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
fn ext<R: Real>(p: &PoseC) -> ExtrinsicParameters<R> {
    let c = p.c.map(num::<R>);
    ExtrinsicParameters::from_rotation_and_camcenter(mk_quat::<R>(p.q), Point3::new(c[0], c[1], c[2]))
}
fn m34<R: Real>(m: &[[f64; 4]; 3]) -> SMatrix<R, 3, 4> {
    SMatrix::<R, 3, 4>::from_fn(|i, j| num(m[i][j]))
}
/// both kinds of camera
macro_rules! cam {
    ($k:expr, $pose:expr, $c:ident => $b:expr) => {{
        let k = rnd_i::<R>($k);
        let e = ext::<R>($pose);
        if k.ortho {
            let $c = Camera::new(mk_ortho::<R>(&k), e);
            $b
        } else {
            let $c = Camera::new(mk_persp::<R>(&k), e);
            $b
        }
    }};
}
/// a batch of statically (if there is such a type) or dynamically sized rows
macro_rules! rows {
    ($v:expr, $fixed:expr, $cols:literal, $m:ident => $b:expr) => {{
        let v = $v;
        macro_rules! st {
            ($n:literal) => {{
                let $m = SMatrix::<R, $n, $cols>::from_fn(|i, j| num(v[i][j]));
                $b
            }};
        }
        match ($fixed, v.len()) {
            (true, 1) => st!(1),
            (true, 2) => st!(2),
            (true, 3) => st!(3),
            (true, 4) => st!(4),
            _ => {
                let $m = OMatrix::<R, Dyn, nalgebra::Const<$cols>>::from_fn(v.len(), |i, j| num(v[i][j]));
                $b
            }
        }
    }};
}
fn run<R: Real>(w: &What) -> Vec<u64> {
    let mut s = Sig::default();
    let mut out: Vec<u64> = vec![];
    match w {
        What::Intersect(v) => {
            let r: Vec<_> = v
                .iter()
                .map(|(c, d)| {
                    let (c, d) = (c.map(num::<R>), d.map(num::<R>));
                    Ray::<WorldFrame, R>::new(SMatrix::<R, 1, 3>::from(c.map(|x| [x])), SMatrix::<R, 1, 3>::from(d.map(|x| [x])))
                })
                .collect();
            match best_intersection_of_rays(&r) {
                Ok(p) => s.put("p", &p.data),
                Err(e) => out.push(err(&e)),
            }
        }
        What::Decompose(m) => match Camera::from_perspective_matrix(&m34::<R>(m)) {
            Ok(c) => s.persp_cam(&c, &[[1.0, 2.0, 3.0]], &[[10.0, 20.0]]),
            Err(e) => out.push(err(&e)),
        },
        What::Normalised(m) => match IntrinsicParametersPerspective::from_normalized_3x4_matrix(m34::<R>(m)) {
            Ok(k) => {
                s.intr(&k, &[[1.0, 2.0, 3.0]], &[[10.0, 20.0]]);
                s.persp_params(&k);
            }
            Err(e) => out.push(err(&e)),
        },
        What::Project { k, pose, pts, fixed } => cam!(k, pose, c => rows!(pts, *fixed, 3, m => {
            s.put("w", &c.world_to_pixel(&Points::new(m.clone())).data);
            s.put("c", &c.intrinsics().camera_to_pixel(&Points::new(m.clone())).data);
        })),
        What::Unproject { k, pose, pix, dist, fixed } => cam!(k, pose, c => rows!(pix, *fixed, 2, m => {
            let b = c.intrinsics().pixel_to_camera(&Pixels::new(m.clone()));
            s.put("c", &b.point_on_ray().data);
            s.put("cd", &b.point_on_ray_at_distance(num(*dist)).data);
            let b = c.pixel_to_world(&Pixels::new(m.clone()));
            s.put("w", &b.point_on_ray().data);
            s.put("wd", &b.point_on_ray_at_distance(num(*dist)).data);
        })),
        What::Frames { pose, pts, fixed } => {
            let e = ext::<R>(pose);
            rows!(pts, *fixed, 3, m => {
                s.put("w2c", &e.world_to_camera(&Points::new(m.clone())).data);
                s.put("c2w", &e.camera_to_world(&Points::new(m.clone())).data);
            })
        }
        What::Views(p) => s.ext(&ext::<R>(p), &[[1.0, 2.0, 3.0]]),
        What::FromPose { q, t } => {
            let t = t.map(num::<R>);
            let iso = nalgebra::Isometry3::from_parts(nalgebra::Translation3::new(t[0], t[1], t[2]), mk_quat::<R>(*q));
            s.ext(&ExtrinsicParameters::from_pose(&iso), &[[1.0, 2.0, 3.0]]);
        }
        What::FromView { c, at, up } => {
            let v = |x: &[f64; 3]| Vector3::from(x.map(num::<R>));
            let e = ExtrinsicParameters::from_view(&v(c), &v(at), &Unit::new_normalize(v(up)));
            s.ext(&e, &[[1.0, 2.0, 3.0]]);
        }
        What::Matrix(k, pose) => {
            let c = Camera::new(mk_persp::<R>(&rnd_p::<R>(k)), ext::<R>(pose));
            s.put("m", &c.as_camera_matrix());
        }
        What::Linear { k, pose, pts } => {
            let c = Camera::new(mk_persp::<R>(&rnd_p::<R>(k)), ext::<R>(pose));
            let j = JacobianPerspectiveCache::new(&c);
            for p in pts {
                let p = p.map(num::<R>);
                s.put("j", &j.linearize_at(&Points::new(SMatrix::<R, 1, 3>::new(p[0], p[1], p[2]))));
            }
        }
        What::Text { k, pose, cut, pretty } => cam!(k, pose, c => {
            fn back<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(c: &T, cut: Option<usize>, pretty: bool) -> Vec<u64> {
                let t = if pretty { serde_json::to_string_pretty(c) } else { serde_json::to_string(c) };
                let Ok(mut t) = t else { return vec![3] };
                let dbg = if pretty { format!("{c:#?}") } else { format!("{c:?}") };
                let mut out = vec![text(&t), text(&dbg)];
                if let Some(n) = cut {
                    t.truncate(n % t.len());
                }
                out.push(match serde_json::from_str::<T>(&t) {
                    Ok(d) => text(&format!("{d:?}")) ^ (d == *c) as u64,
                    Err(e) => text(&e.to_string()),
                });
                out
            }
            out.extend(back(&c, *cut, *pretty))
        }),
        What::Bytes { k, pose, cut } => cam!(k, pose, c => {
            fn back<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(c: &T, cut: Option<usize>) -> Vec<u64> {
                let mut b = bincode::serialize(c).unwrap();
                let mut out: Vec<u64> = b.iter().map(|x| *x as u64).collect();
                if let Some(n) = cut {
                    b.truncate(n % b.len());
                }
                out.push(match bincode::deserialize::<T>(&b) {
                    Ok(d) => text(&format!("{d:?}")) ^ (d == *c) as u64,
                    Err(e) => text(&e.to_string()),
                });
                out
            }
            out.extend(back(&c, *cut))
        }),
        What::Rays { origin, shared, rows, dist, pose } => {
            let e = ext::<R>(pose);
            let m = OMatrix::<R, Dyn, U3>::from_fn(rows.len(), |i, j| num(rows[i][j]));
            let sh = rnd3::<R>(*shared);
            let iso = e.pose().clone();
            macro_rules! go {
                ($b:expr) => {{
                    let b = $b;
                    s.btype(&b);
                    s.put("p", &b.point_on_ray::<_, _, WorldFrame>(&m).data);
                    s.put("d", &b.point_on_ray_at_distance::<_, _, WorldFrame>(&m, num(*dist)).data);
                    let t = b.to_pose::<_, _, WorldFrame>(iso, &m);
                    s.put("t", &t.point_on_ray_at_distance(num(*dist)).data);
                }};
            }
            if *origin {
                go!(mk_origin_bundle::<R>(sh))
            } else {
                go!(mk_direction_bundle::<R>(sh))
            }
        }
        What::Conform { k, size, step, border, tol } => {
            let k = rnd_i::<R>(k);
            let r = std::panic::catch_unwind(|| {
                let (w, h) = (size[0], size[1]);
                if k.ortho {
                    intrinsic_test_utils::roundtrip_intrinsics(&mk_ortho::<R>(&k), w, h, *step, *border, num::<R>(*tol))
                } else {
                    intrinsic_test_utils::roundtrip_intrinsics(&mk_persp::<R>(&k), w, h, *step, *border, num::<R>(*tol))
                }
            });
            out.push(r.is_ok() as u64);
        }
        What::Same { a, b, p, q } => {
            let (ka, kb) = (rnd_i::<R>(a), rnd_i::<R>(b));
            let (ea, eb) = (ext::<R>(p), ext::<R>(q));
            out.push((ea == eb) as u64);
            if ka.ortho {
                let (x, y) = (mk_ortho::<R>(&ka), mk_ortho::<R>(&kb));
                out.push((x == y) as u64 + 2 * (x.clone() == x) as u64);
            } else {
                let (x, y) = (mk_persp::<R>(&ka), mk_persp::<R>(&kb));
                out.push((x == y) as u64 + 2 * (x.clone() == x) as u64);
            }
        }
    }
    for (_, v) in s.0 {
        out.extend(v);
        out.push(0x5555);
    }
    out
}
impl Call {
    pub fn eval(&self) -> Vec<u64> {
        let r = std::panic::catch_unwind(|| match self.prec {
            Prec::F32 => run::<f32>(&self.what),
            Prec::F64 => run::<f64>(&self.what),
        });
        r.unwrap_or_else(|_| vec![0xdead])
    }
    pub fn kind(&self) -> &'static str {
        match self.what {
            What::Intersect(ref v) if v.len() < 2 => "intersection of too few rays",
            What::Intersect(_) => "intersection",
            What::Decompose(_) => "decomposition",
            What::Normalised(_) => "intrinsic matrix",
            What::Project { .. } => "projection",
            What::Unproject { .. } => "back-projection",
            What::Frames { .. } => "frame conversion",
            What::Views(_) => "pose",
            What::FromPose { .. } => "pose from isometry",
            What::FromView { .. } => "pose from view",
            What::Matrix(..) => "camera matrix",
            What::Linear { .. } => "linearisation",
            What::Text { .. } => "text",
            What::Bytes { .. } => "bytes",
            What::Rays { .. } => "ray bundle",
            What::Conform { .. } => "conformance utility",
            What::Same { .. } => "comparison",
        }
    }
}
/// now and then an entry that is not a finite number
fn wild() -> BoxedStrategy<f64> {
    prop_oneof![30 => coord(), 1 => Just(0.0), 1 => Just(NAN), 1 => Just(INF), 1 => Just(-0.0)].boxed()
}
fn mat() -> BoxedStrategy<[[f64; 4]; 3]> {
    let e = || prop_oneof![12 => -3.0..3.0f64, 4 => Just(0.0), 1 => wild()];
    prop_oneof![
        // a camera's
        2 => (persp(), pose()).prop_map(|(k, p)| {
            let (_, m) = mk_pose::<f64>(&p);
            let k = [[k.fx, k.skew, k.cx], [0.0, k.fy, k.cy], [0.0, 0.0, 1.0]];
            let t = m.t();
            [0, 1, 2].map(|i| {
                [0, 1, 2, 3].map(|j| (0..3).map(|l| k[i][l] * if j < 3 { m.r[l][j].f() } else { t[l].f() }).sum::<f64>())
            })
        }),
        2 => [[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]],
        // rank deficient
        1 => ([e(), e(), e(), e()], -2.0..2.0f64, -2.0..2.0f64).prop_map(|(r, a, b)| [r, r.map(|x| a * x), r.map(|x| b * x)]),
        1 => Just([[0.0; 4]; 3]),
    ]
    .boxed()
}
fn normalised() -> BoxedStrategy<[[f64; 4]; 3]> {
    (persp(), 0usize..12, prop_oneof![Just(0.0), Just(1e-17), Just(1e-9), Just(0.5), Just(NAN), Just(INF)])
        .prop_map(|(k, at, by)| {
            let mut m = [[k.fx, k.skew, k.cx, 0.0], [0.0, k.fy, k.cy, 0.0], [0.0, 0.0, 1.0, 0.0]];
            let e = &mut m[at / 4][at % 4];
            *e = if by >= NAN { by } else { *e + by };
            m
        })
        .boxed()
}
pub fn call() -> BoxedStrategy<Call> {
    let pts = || proptest::collection::vec(prop_oneof![9 => vec3(coord), 1 => vec3(wild)], 1..6);
    let pix = || {
        let u = || prop_oneof![20 => -100.0..2500.0f64, 1 => wild()];
        proptest::collection::vec([u(), u()], 1..6)
    };
    let cut = || prop_oneof![2 => Just(None), 1 => (0usize..4000).prop_map(Some)];
    let what = prop_oneof![
        6 => rays().prop_map(|r| What::Intersect(r.list())),
        3 => (vec3(coord), vec3(coord)).prop_map(|r| What::Intersect(vec![r])),
        1 => Just(What::Intersect(vec![])),
        2 => proptest::collection::vec((vec3(wild), vec3(wild)), 2..5).prop_map(What::Intersect),
        1 => (proptest::collection::vec(vec3(coord), 2..5), vec3(coord))
            .prop_map(|(v, d)| What::Intersect(v.into_iter().map(|c| (c, d)).collect())),
        4 => mat().prop_map(What::Decompose),
        3 => normalised().prop_map(What::Normalised),
        4 => (intr(), pose(), pts(), any::<bool>()).prop_map(|(k, pose, pts, fixed)| What::Project { k, pose, pts, fixed }),
        4 => (intr(), pose(), pix(), distance(), any::<bool>())
            .prop_map(|(k, pose, pix, dist, fixed)| What::Unproject { k, pose, pix, dist, fixed }),
        3 => (pose(), pts(), any::<bool>()).prop_map(|(pose, pts, fixed)| What::Frames { pose, pts, fixed }),
        2 => pose().prop_map(What::Views),
        2 => (quat(), vec3(wild)).prop_map(|(q, t)| What::FromPose { q, t }),
        3 => (vec3(coord), vec3(coord), dirvec(), 0u8..8).prop_map(|(c, at, up, deg)| match deg {
            0 => What::FromView { c, at: c, up },
            1 => What::FromView { c, at: [0, 1, 2].map(|j| c[j] + 2.0 * up[j]), up },
            _ => What::FromView { c, at, up },
        }),
        3 => (persp(), pose()).prop_map(|(k, p)| What::Matrix(k, p)),
        3 => (persp(), pose(), pts()).prop_map(|(k, pose, pts)| What::Linear { k, pose, pts }),
        2 => (intr(), pose(), cut(), any::<bool>()).prop_map(|(k, pose, cut, pretty)| What::Text { k, pose, cut, pretty }),
        2 => (intr(), pose(), cut()).prop_map(|(k, pose, cut)| What::Bytes { k, pose, cut }),
        3 => (any::<bool>(), vec3(coord), pts(), distance(), pose())
            .prop_map(|(origin, shared, rows, dist, pose)| What::Rays { origin, shared, rows, dist, pose }),
        1 => (intr(), 4usize..20, 4usize..20, 1usize..5, 0usize..2, prop_oneof![Just(1e-3), Just(1e-13), Just(0.0)])
            .prop_map(|(k, w, h, step, border, tol)| What::Conform { k, size: [w, h], step, border, tol }),
        1 => (intr(), intr(), pose(), pose(), any::<[bool; 2]>()).prop_map(|(a, b, p, q, e)| {
            let b = match (a, b) {
                (IntrC::P(_), IntrC::P(_)) | (IntrC::O(_), IntrC::O(_)) if !e[0] => b,
                _ => a,
            };
            What::Same { a, b, p, q: if e[1] { p } else { q } }
        }),
    ];
    (prec(), what).prop_map(|(prec, what)| Call { prec, what }).boxed()
}

/// Evaluates the calls in a process of their own, in the order given.
pub fn elsewhere(calls: &[Call]) -> Result<Vec<Vec<u64>>, String> {
    use crate::driver::INFRA;
    use std::io::Write;
    use std::process::{Command, Stdio};
    let e = |e: &dyn std::fmt::Display| format!("{INFRA}evaluation in another process: {e}");
    let exe = std::env::current_exe().map_err(|x| e(&x))?;
    let mut c = Command::new(exe)
        .arg("--eval")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|x| e(&x))?;
    let mut i = c.stdin.take().unwrap();
    i.write_all(&bincode::serialize(calls).map_err(|x| e(&x))?).map_err(|x| e(&x))?;
    drop(i);
    let o = c.wait_with_output().map_err(|x| e(&x))?;
    if !o.status.success() {
        return Err(format!("a process which only makes these calls ended abruptly ({})", o.status));
    }
    bincode::deserialize(&o.stdout).map_err(|x| e(&x))
}
/// the other end of `elsewhere`
pub fn serve() {
    use std::io::{Read, Write};
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    let calls: Vec<Call> = bincode::deserialize(&b).unwrap();
    let r: Vec<Vec<u64>> = calls.iter().map(|c| c.eval()).collect();
    std::io::stdout().write_all(&bincode::serialize(&r).unwrap()).unwrap();
}
