//! C23: generated client programs, type-checked by rustc, verdict compared
//! with a small type checker for frames and shapes.
#[path = "../../harness/src/driver.rs"]
#[allow(dead_code)]
mod driver;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
use driver::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum F {
    World,
    Camera,
    /// a frame defined by the client
    Other,
    /// a type parameter
    Param,
}
const FRAMES: [F; 4] = [F::World, F::Camera, F::Other, F::Param];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum N {
    One,
    Three,
    Dyn,
}
const SIZES: [N; 3] = [N::One, N::Three, N::Dyn];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    /// perspective, rays with a shared origin
    P,
    /// orthographic, rays with a shared direction
    O,
    /// any model
    G,
}
const KINDS: [K; 3] = [K::P, K::O, K::G];
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum T {
    Pts(F, N),
    Pix(N),
    Bun(F, K, N),
    Ray(F),
    /// matrix with that many rows and columns
    M(N, u8),
    Cam(K),
    Jac,
}
impl F {
    fn s(self) -> &'static str {
        match self {
            F::World => "WorldFrame",
            F::Camera => "CameraFrame",
            F::Other => "Other",
            F::Param => "F",
        }
    }
}
impl N {
    fn s(self) -> &'static str {
        match self {
            N::One => "U1",
            N::Three => "U3",
            N::Dyn => "Dyn",
        }
    }
}
impl T {
    fn s(self) -> String {
        let own = |n: N, c: u8| format!("Owned<f64, {}, U{c}>", n.s());
        match self {
            T::Pts(f, n) => format!("Points<{}, f64, {}, {}>", f.s(), n.s(), own(n, 3)),
            T::Pix(n) => format!("Pixels<f64, {}, {}>", n.s(), own(n, 2)),
            T::Bun(f, k, n) => {
                let b = match k {
                    K::P => "SharedOriginRayBundle<f64>",
                    K::O => "SharedDirectionRayBundle<f64>",
                    K::G => "<I as IntrinsicParameters<f64>>::BundleType",
                };
                format!("RayBundle<{}, {b}, f64, {}, {}>", f.s(), n.s(), own(n, 3))
            }
            T::Ray(f) => format!("Ray<{}, f64>", f.s()),
            T::M(n, c) => format!("OMatrix<f64, {}, U{c}>", n.s()),
            T::Cam(K::P) => "Camera<f64, IntrinsicParametersPerspective<f64>>".into(),
            T::Cam(K::O) => "Camera<f64, IntrinsicParametersOrthographic<f64>>".into(),
            T::Cam(K::G) => "Camera<f64, I>".into(),
            T::Jac => "JacobianPerspectiveCache<f64>".into(),
        }
    }
    fn class(self) -> u8 {
        match self {
            T::Pts(..) => 0,
            T::Pix(_) => 1,
            T::Bun(..) => 2,
            T::Ray(_) => 3,
            T::M(..) => 4,
            T::Cam(_) => 5,
            T::Jac => 6,
        }
    }
}
/// what every program starts with: (name, type)
fn base() -> Vec<(String, T)> {
    let mut t = vec![];
    for f in FRAMES {
        for n in SIZES {
            t.push(T::Pts(f, n));
            t.push(T::Bun(f, K::P, n));
        }
        t.push(T::Bun(f, K::O, N::One));
        t.push(T::Bun(f, K::O, N::Dyn));
        t.push(T::Bun(f, K::G, N::Three));
        t.push(T::Bun(f, K::G, N::One));
        t.push(T::Ray(f));
    }
    for n in SIZES {
        t.push(T::Pix(n));
        t.push(T::M(n, 3));
        t.push(T::M(n, 2));
    }
    t.push(T::M(N::Three, 4));
    for k in KINDS {
        t.push(T::Cam(k));
    }
    t.push(T::Jac);
    t.into_iter().enumerate().map(|(i, t)| (format!("e.x{i}"), t)).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pat {
    Pts(Option<F>, Option<N>),
    Pix(Option<N>),
    Bun(Option<F>, Option<N>),
    Ray(Option<F>),
    /// rows (None: any), columns
    M(Option<N>, u8),
    /// points, pixels or a bundle: anything with data
    Data,
    /// points, pixels, a bundle or a ray
    Geo,
    Cam,
    CamP,
    Jac,
}
impl Pat {
    fn ok(self, t: T) -> bool {
        fn m<X: PartialEq>(a: Option<X>, b: X) -> bool {
            a.is_none_or(|a| a == b)
        }
        match (self, t) {
            (Pat::Pts(f, n), T::Pts(g, k)) => m(f, g) && m(n, k),
            (Pat::Pix(n), T::Pix(k)) => m(n, k),
            (Pat::Bun(f, n), T::Bun(g, _, k)) => m(f, g) && m(n, k),
            (Pat::Ray(f), T::Ray(g)) => m(f, g),
            (Pat::M(n, c), T::M(k, d)) => m(n, k) && c == d,
            (Pat::Data, T::Pts(..) | T::Pix(_) | T::Bun(..)) => true,
            (Pat::Geo, T::Pts(..) | T::Pix(_) | T::Bun(..) | T::Ray(_)) => true,
            (Pat::Cam, T::Cam(_)) => true,
            (Pat::CamP, T::Cam(K::P)) => true,
            (Pat::Jac, T::Jac) => true,
            _ => false,
        }
    }
    /// things a program might put there by mistake
    fn mistake(self, t: T) -> bool {
        if self.ok(t) {
            return false;
        }
        match self {
            Pat::Pts(..) => matches!(t, T::Pts(..) | T::Pix(_) | T::Bun(..)),
            Pat::Pix(_) => matches!(t, T::Pts(..) | T::Bun(..)),
            Pat::Bun(..) => matches!(t, T::Bun(..) | T::Pts(..)),
            Pat::Ray(_) => matches!(t, T::Ray(_)),
            Pat::M(..) => matches!(t, T::M(..)),
            _ => false,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    WorldToPixel,
    PixelToWorld,
    CameraToPixel,
    PixelToCamera,
    WorldToCamera,
    CameraToWorld,
    RayToWorld,
    PointOnRay,
    PointAt,
    SingleRay,
    Centers,
    Directions,
    Intersect,
    Intersect3,
    IntersectSingle,
    Linearise,
    NewJacobian,
    NewPoints,
    NewPixels,
    NewOrigin,
    NewDirection,
    NewRay,
    FromMatrix,
    CameraMatrix,
    Data,
    /// conversion with From/Into
    Convert,
    /// comparison with ==
    Compare,
}
const OPS: [Op; 27] = [
    Op::WorldToPixel,
    Op::PixelToWorld,
    Op::CameraToPixel,
    Op::PixelToCamera,
    Op::WorldToCamera,
    Op::CameraToWorld,
    Op::RayToWorld,
    Op::PointOnRay,
    Op::PointAt,
    Op::SingleRay,
    Op::Centers,
    Op::Directions,
    Op::Intersect,
    Op::Intersect3,
    Op::IntersectSingle,
    Op::Linearise,
    Op::NewJacobian,
    Op::NewPoints,
    Op::NewPixels,
    Op::NewOrigin,
    Op::NewDirection,
    Op::NewRay,
    Op::FromMatrix,
    Op::CameraMatrix,
    Op::Data,
    Op::Convert,
    Op::Compare,
];
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Bad {
    No,
    /// the argument with this index does not fit
    Arg(u8),
    /// the result is used as another type
    Result,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Stmt {
    op: Op,
    picks: [u16; 3],
    frame: u8,
    bad: Bad,
    /// which of the wrong candidates
    wrong: u16,
}
pub type Func = Vec<Stmt>;

struct Program {
    body: String,
    /// why it must be rejected
    bad: Option<&'static str>,
    ops: Vec<Op>,
}
fn pick<X: Copy>(v: &[X], k: u16) -> Option<X> {
    if v.is_empty() { None } else { Some(v[k as usize * v.len() / 65536]) }
}
/// Write the program; stops at the first statement that must not compile.
fn program(f: &Func) -> Program {
    let mut vars = base();
    let nbase = vars.len();
    let mut body = String::new();
    let mut ops = vec![];
    let mut bad = None;
    for (i, s) in f.iter().enumerate() {
        let fr = FRAMES[s.frame as usize % 4];
        let any = None;
        // the arguments' patterns; those of later arguments may depend on the first
        let pats: Vec<Pat> = match s.op {
            Op::WorldToPixel | Op::WorldToCamera => vec![Pat::Cam, Pat::Pts(Some(F::World), any)],
            Op::CameraToPixel | Op::CameraToWorld => vec![Pat::Cam, Pat::Pts(Some(F::Camera), any)],
            Op::PixelToWorld | Op::PixelToCamera => vec![Pat::Cam, Pat::Pix(None)],
            Op::RayToWorld => vec![Pat::Cam, Pat::Bun(Some(F::Camera), None)],
            Op::PointOnRay | Op::PointAt => vec![Pat::Bun(None, None)],
            Op::SingleRay => vec![Pat::Bun(None, Some(N::One))],
            Op::Centers | Op::Directions => vec![Pat::Bun(None, Some(if s.frame & 4 == 0 { N::One } else { N::Three }))],
            Op::Intersect => vec![Pat::Ray(Some(fr)); 2],
            Op::Intersect3 => vec![Pat::Ray(Some(fr)); 3],
            Op::IntersectSingle => vec![Pat::Bun(Some(fr), Some(N::One)), Pat::Bun(Some(fr), Some(N::One))],
            Op::Linearise => vec![Pat::Jac, Pat::Pts(Some(F::World), Some(N::One))],
            Op::NewJacobian => vec![Pat::CamP],
            Op::NewPoints | Op::NewOrigin | Op::NewDirection => vec![Pat::M(None, 3)],
            Op::NewPixels => vec![Pat::M(None, 2)],
            Op::NewRay => vec![Pat::M(Some(N::One), 3); 2],
            Op::FromMatrix => vec![Pat::M(Some(N::Three), 4)],
            Op::CameraMatrix => vec![Pat::CamP],
            Op::Data => vec![Pat::Data],
            Op::Convert | Op::Compare => vec![Pat::Geo],
        };
        let mut args: Vec<(String, T)> = vec![];
        let mut mistake = None;
        for (j, p) in pats.iter().enumerate() {
            let wrong = matches!(s.bad, Bad::Arg(b) if b as usize % pats.len() == j);
            let right: Vec<usize> = (0..vars.len()).filter(|v| p.ok(vars[*v].1)).collect();
            // prefer what the program made itself
            let own: Vec<usize> = right.iter().copied().filter(|v| *v >= nbase).collect();
            let mut c = if own.is_empty() || s.picks[j] & 1 == 0 { &right } else { &own };
            let w: Vec<usize> = (0..vars.len()).filter(|v| p.mistake(vars[*v].1)).collect();
            let same: Vec<usize> = w
                .iter()
                .copied()
                .filter(|v| {
                    // near misses: the same kind of thing
                    right.first().is_some_and(|r| vars[*r].1.class() == vars[*v].1.class())
                })
                .collect();
            let mut k = s.picks[j];
            if wrong && !w.is_empty() {
                c = if same.is_empty() || s.wrong & 3 == 0 { &w } else { &same };
                k = s.wrong;
            }
            let Some(v) = pick(c, k) else { break };
            if wrong && !w.is_empty() {
                let (n, t) = &vars[v];
                mistake = Some(match (*p, *t) {
                    (Pat::Pts(Some(f), _), T::Pts(g, _)) if f != g => "points of another frame",
                    (Pat::Pts(..), T::Pts(..)) => "several points instead of one",
                    (Pat::Pts(..), T::Pix(_)) => "pixels instead of points",
                    (Pat::Pix(_), T::Pts(..)) => "points instead of pixels",
                    (Pat::Bun(Some(f), _), T::Bun(g, ..)) if f != g => "rays of another frame",
                    (Pat::Bun(_, Some(N::One)), T::Bun(..)) => "several rays instead of one",
                    (Pat::Bun(_, Some(_)), T::Bun(..)) => {
                        // centers and directions work for every static size
                        ""
                    }
                    (Pat::Ray(_), _) => "rays of different frames in one intersection",
                    (Pat::M(..), _) => "matrix of another shape",
                    _ => "another kind of object",
                });
                if matches!(s.op, Op::Centers | Op::Directions) && matches!(t, T::Bun(..)) {
                    mistake = None;
                }
                args.push((n.clone(), *t));
            } else {
                args.push(vars[v].clone());
            }
        }
        if args.len() < pats.len() {
            continue;
        }
        // centers() and directions() exist for statically sized bundles
        if matches!(s.op, Op::Centers | Op::Directions) && matches!(args[0].1, T::Bun(_, _, N::Dyn)) {
            continue;
        }
        let a = |j: usize| args[j].0.as_str();
        let n_of = |t: T| match t {
            T::Pts(_, n) | T::Pix(n) | T::Bun(_, _, n) | T::M(n, _) => n,
            _ => N::One,
        };
        let last = args[args.len() - 1].1;
        let n = n_of(last);
        let k_of = |t: T| if let T::Cam(k) = t { k } else { K::P };
        let f_of = |t: T| match t {
            T::Pts(f, _) | T::Bun(f, ..) | T::Ray(f) => f,
            _ => F::World,
        };
        let (expr, t) = match s.op {
            Op::WorldToPixel => (format!("{}.world_to_pixel(&{})", a(0), a(1)), T::Pix(n)),
            Op::PixelToWorld => {
                (format!("{}.pixel_to_world(&{})", a(0), a(1)), T::Bun(F::World, k_of(args[0].1), n))
            }
            Op::CameraToPixel => (format!("{}.intrinsics().camera_to_pixel(&{})", a(0), a(1)), T::Pix(n)),
            Op::PixelToCamera => (
                format!("{}.intrinsics().pixel_to_camera(&{})", a(0), a(1)),
                T::Bun(F::Camera, k_of(args[0].1), n),
            ),
            Op::WorldToCamera => {
                (format!("{}.extrinsics().world_to_camera(&{})", a(0), a(1)), T::Pts(F::Camera, n))
            }
            Op::CameraToWorld => {
                (format!("{}.extrinsics().camera_to_world(&{})", a(0), a(1)), T::Pts(F::World, n))
            }
            Op::RayToWorld => {
                let k = if let T::Bun(_, k, _) = last { k } else { K::P };
                (format!("{}.extrinsics().ray_camera_to_world(&{})", a(0), a(1)), T::Bun(F::World, k, n))
            }
            Op::PointOnRay => (format!("{}.point_on_ray()", a(0)), T::Pts(f_of(last), n)),
            Op::PointAt => (format!("{}.point_on_ray_at_distance(2.0)", a(0)), T::Pts(f_of(last), n)),
            Op::SingleRay => (format!("{}.to_single_ray()", a(0)), T::Ray(f_of(last))),
            Op::Centers => (format!("{}.centers()", a(0)), T::M(n, 3)),
            Op::Directions => (format!("{}.directions()", a(0)), T::M(n, 3)),
            Op::Intersect => {
                (format!("best_intersection_of_rays(&[dup(&{}), dup(&{})]).unwrap()", a(0), a(1)), T::Pts(fr, N::One))
            }
            Op::Intersect3 => (
                format!("best_intersection_of_rays(&[dup(&{}), dup(&{}), dup(&{})]).unwrap()", a(0), a(1), a(2)),
                T::Pts(fr, N::One),
            ),
            Op::IntersectSingle => (
                format!(
                    "best_intersection_of_rays(&[{}.to_single_ray(), {}.to_single_ray()]).unwrap()",
                    a(0),
                    a(1)
                ),
                T::Pts(fr, N::One),
            ),
            Op::Linearise => (format!("Mat23({}.linearize_at(&{}))", a(0), a(1)), T::Jac),
            Op::NewJacobian => (format!("JacobianPerspectiveCache::new(&{})", a(0)), T::Jac),
            Op::NewPoints => {
                (format!("Points::<{}, _, _, _>::new({}.clone())", fr.s(), a(0)), T::Pts(fr, n))
            }
            Op::NewPixels => (format!("Pixels::new({}.clone())", a(0)), T::Pix(n)),
            Op::NewOrigin => (
                format!("RayBundle::<{}, _, _, _, _>::new_shared_zero_origin({}.clone())", fr.s(), a(0)),
                T::Bun(fr, K::P, n),
            ),
            Op::NewDirection => (
                format!("RayBundle::<{}, _, _, _, _>::new_shared_plusz_direction({}.clone())", fr.s(), a(0)),
                T::Bun(fr, K::O, n),
            ),
            Op::NewRay => {
                (format!("Ray::<{}, _>::new({}.clone(), {}.clone())", fr.s(), a(0), a(1)), T::Ray(fr))
            }
            Op::FromMatrix => (format!("Camera::from_perspective_matrix(&{}).unwrap()", a(0)), T::Cam(K::P)),
            Op::CameraMatrix => (format!("{}.as_camera_matrix()", a(0)), T::M(N::Three, 4)),
            Op::Data => {
                let c = if matches!(last, T::Pix(_)) { 2 } else { 3 };
                (format!("{}.data.clone()", a(0)), T::M(n, c))
            }
            Op::Convert | Op::Compare => (String::new(), last),
        };
        let mut ann = if s.op == Op::Linearise { "Mat23".to_string() } else { t.s() };
        let swap = matches!(s.bad, Bad::Result) || matches!((s.bad, s.op), (Bad::Arg(_), Op::Convert | Op::Compare));
        if swap && mistake.is_none() {
            let o = other(t, s.wrong);
            if let Some((o, why)) = o {
                ann = o.s();
                mistake = Some(why);
            }
        }
        match s.op {
            Op::Convert => {
                let _ = writeln!(body, "    convert::<{}, {ann}>();", t.s());
            }
            Op::Compare => {
                // equality is there for bundles of the crate's frames
                if mistake.is_none() && !matches!(t, T::Bun(F::World | F::Camera, K::P | K::O, _)) {
                    continue;
                }
                let _ = writeln!(body, "    compare::<{}, {ann}>();", t.s());
            }
            _ => {
                let _ = writeln!(body, "    let v{i}: {ann} = {expr};");
            }
        }
        ops.push(s.op);
        if mistake == Some("") {
            mistake = None;
        }
        if let Some(w) = mistake {
            bad = Some(w);
            break;
        }
        if !matches!(s.op, Op::Linearise | Op::Convert | Op::Compare) {
            vars.push((format!("v{i}"), t));
        }
    }
    Program { body, bad, ops }
}
/// another type of the same class
fn other(t: T, k: u16) -> Option<(T, &'static str)> {
    let fr = |f: F| pick(&FRAMES.into_iter().filter(|g| *g != f).collect::<Vec<_>>(), k).unwrap();
    let sz = |n: N| pick(&SIZES.into_iter().filter(|g| *g != n).collect::<Vec<_>>(), k).unwrap();
    const WF: &str = "result taken for another frame";
    const WN: &str = "result taken for another shape";
    Some(match t {
        T::Pts(f, n) if k & 1 == 0 => (T::Pts(fr(f), n), WF),
        T::Pts(f, n) if k & 2 == 0 => (T::Pts(f, sz(n)), WN),
        T::Pts(_, n) => (T::Pix(n), "points taken for pixels"),
        T::Pix(n) if k & 1 == 0 => (T::Pix(sz(n)), WN),
        T::Pix(n) => (T::Pts(FRAMES[k as usize / 4 % 4], n), "pixels taken for points"),
        T::Bun(f, kd, n) if k & 3 != 0 => (T::Bun(fr(f), kd, n), WF),
        T::Bun(f, kd, n) => (T::Bun(f, kd, sz(n)), WN),
        T::Ray(f) => (T::Ray(fr(f)), WF),
        T::M(n, c) if c < 4 => (T::M(sz(n), c), WN),
        _ => return None,
    })
}
const PRELUDE: &str = "\
#![allow(warnings)]
use cam_geom::{linearize::JacobianPerspectiveCache, ray_bundle_types::*, *};
use nalgebra::{storage::Owned, Dyn, OMatrix, SMatrix, U1, U2, U3, U4};
pub struct Other;
impl CoordinateSystem for Other {}
pub struct Mat23(pub SMatrix<f64, 2, 3>);
fn convert<A: Into<B>, B>() {}
fn compare<A: PartialEq<B>, B>() {}
fn dup<F>(r: &Ray<F, f64>) -> Ray<F, f64> { Ray::new(r.center, r.direction) }
";
/// source text and the line ranges of the functions
fn source(funcs: &[Func]) -> (String, Vec<(usize, usize)>, Vec<Program>) {
    let mut s = PRELUDE.to_string();
    s.push_str("pub struct E<F: CoordinateSystem, I: IntrinsicParameters<f64>> where I::BundleType: Bundle<f64> {\n");
    for (n, t) in base() {
        let _ = writeln!(s, "    {}: {},", &n[2..], t.s());
    }
    s.push_str("}\n");
    let mut lines = vec![];
    let mut progs = vec![];
    let mut at = s.lines().count();
    for (i, f) in funcs.iter().enumerate() {
        let p = program(f);
        let text = format!(
            "pub fn f{i}<F: CoordinateSystem, I: IntrinsicParameters<f64>>(e: &E<F, I>) where I::BundleType: Bundle<f64> {{\n{}}}\n",
            p.body
        );
        let n = text.lines().count();
        lines.push((at + 1, at + n));
        at += n;
        s.push_str(&text);
        progs.push(p);
    }
    (s, lines, progs)
}

struct Rustc {
    deps: PathBuf,
    externs: Vec<String>,
}
fn rustc() -> &'static Result<Rustc, String> {
    static R: OnceLock<Result<Rustc, String>> = OnceLock::new();
    R.get_or_init(|| {
        let target = verif_dir().join("target/stub");
        let run = |args: &[&str]| {
            Command::new("cargo")
                .current_dir(verif_dir().join("typecheck/stub"))
                .env("CARGO_TARGET_DIR", &target)
                .args(args)
                .stdin(Stdio::null())
                .output()
                .map_err(|e| format!("{INFRA}cargo: {e}"))
        };
        run(&["clean", "--offline", "-p", "cam-geom"])?;
        let o = run(&["check", "--offline", "--message-format=json"])?;
        if !o.status.success() {
            return Err(format!("{INFRA}building the library: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let mut externs = vec![];
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if v["reason"] == "compiler-artifact" && (name == "cam_geom" || name == "nalgebra") {
                for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                    if f.ends_with(".rmeta") {
                        externs.push(format!("{name}={f}"));
                    }
                }
            }
        }
        if externs.len() != 2 {
            return Err(format!("{INFRA}no metadata of the library: {externs:?}"));
        }
        Ok(Rustc { deps: target.join("debug/deps"), externs })
    })
}
/// the first error of each function that has one
fn compile(src: &str, lines: &[(usize, usize)]) -> Result<BTreeMap<usize, String>, String> {
    use std::io::Write as _;
    let r = rustc().as_ref().map_err(|e| e.clone())?;
    let mut c = Command::new("rustc");
    c.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "generated", "--emit=metadata", "--error-format=json", "-o"]);
    // rustc also writes long type names into files beside its output
    let dir = std::env::temp_dir().join(format!("c23-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).map_err(|e| format!("{INFRA}{e}"))?;
    c.arg(dir.join("out.rmeta")).arg("-L").arg(format!("dependency={}", r.deps.display()));
    for e in &r.externs {
        c.arg("--extern").arg(e);
    }
    c.arg("-").stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped());
    let mut ch = c.spawn().map_err(|e| format!("{INFRA}rustc: {e}"))?;
    let mut inp = ch.stdin.take().unwrap();
    inp.write_all(src.as_bytes()).map_err(|e| format!("{INFRA}rustc: {e}"))?;
    drop(inp);
    let o = ch.wait_with_output().map_err(|e| format!("{INFRA}rustc: {e}"))?;
    let _ = std::fs::remove_dir_all(&dir);
    let mut errs = BTreeMap::new();
    for l in String::from_utf8_lossy(&o.stderr).lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else {
            if l.contains("internal compiler error") || l.contains("error:") {
                return Err(format!("{INFRA}rustc: {l}"));
            }
            continue;
        };
        if v["level"] != "error" {
            continue;
        }
        let Some(spans) = v["spans"].as_array().filter(|s| !s.is_empty()) else { continue };
        let line = spans.iter().find(|s| s["is_primary"] == true).and_then(|s| s["line_start"].as_u64()).unwrap_or(0) as usize;
        match lines.iter().position(|(a, b)| *a <= line && line <= *b) {
            Some(i) => {
                errs.entry(i).or_insert_with(|| v["message"].as_str().unwrap_or("").to_string());
            }
            None => return Err(format!("the declarations every program starts with are rejected: {}", v["message"])),
        }
    }
    if o.status.success() != errs.is_empty() {
        return Err(format!("{INFRA}rustc ended with {} and {} errors", o.status, errs.len()));
    }
    Ok(errs)
}
/// functions with the wrong verdict
fn wrong(funcs: &[Func]) -> Result<(Vec<(usize, String)>, Vec<Program>), String> {
    let (src, lines, progs) = source(funcs);
    let errs = compile(&src, &lines)?;
    let mut out = vec![];
    for (i, p) in progs.iter().enumerate() {
        match (p.bad, errs.get(&i)) {
            (None, Some(e)) => out.push((i, format!("a program which respects frames and shapes is rejected ({e}):\n{}", p.body))),
            (Some(w), None) => out.push((i, format!("a program is accepted although its last line has {w}:\n{}", p.body))),
            _ => {}
        }
    }
    Ok((out, progs))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    funcs: Vec<Func>,
}
struct C23;
impl Prop for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str = "batches of 60 generated straight-line client functions over points, pixels, ray bundles, rays and matrices (4 frames including a client-defined one and a type parameter, 1/3/dynamic rows, 3 kinds of camera), every intermediate result annotated with its type, at most the last statement made ill-typed (wrong frame, shape, pixel/point confusion, wrong result type); rustc's verdict on every function must be the one of a small type checker; one comparison per function; non-trivial: the batch has functions of both verdicts";
    const ASSUME: &'static [&'static str] = &["rustc reports at least one error inside every function it rejects"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 600,
            Tier::Thorough => 20_000,
        }
    }
    fn max_shrink() -> u32 {
        0
    }
    fn hang_secs() -> u64 {
        300
    }
    fn setup() -> Result<(), String> {
        rustc().as_ref().map(|_| ()).map_err(|e| e.clone())
    }
    fn strategy() -> BoxedStrategy<Case> {
        let op = prop_oneof![
            3 => (0usize..OPS.len()).prop_map(|k| OPS[k]),
            2 => (0usize..15).prop_map(|k| OPS[k]),
            2 => proptest::sample::select(vec![Op::Convert, Op::Compare, Op::Linearise, Op::SingleRay, Op::Intersect, Op::IntersectSingle, Op::RayToWorld]),
        ];
        let stmt = |bad: bool| {
            let b = if bad {
                prop_oneof![3 => (0u8..3).prop_map(Bad::Arg), 3 => Just(Bad::Arg(1)), 2 => Just(Bad::Result)].boxed()
            } else {
                Just(Bad::No).boxed()
            };
            (op.clone(), any::<[u16; 3]>(), any::<u8>(), b, any::<u16>())
                .prop_map(|(op, picks, frame, bad, wrong)| Stmt { op, picks, frame, bad, wrong })
        };
        let good = proptest::collection::vec(stmt(false), 1..7);
        let bad = (proptest::collection::vec(stmt(false), 0..5), stmt(true)).prop_map(|(mut v, s)| {
            v.push(s);
            v
        });
        proptest::collection::vec(prop_oneof![2 => good, 3 => bad], 60).prop_map(|funcs| Case { funcs }).boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        let (w, progs) = wrong(&c.funcs)?;
        o.compared += progs.len() as u64;
        for p in &progs {
            o.label(p.bad.unwrap_or("well-typed program"));
            for op in &p.ops {
                o.label(op_name(*op));
            }
        }
        o.nontrivial = progs.iter().any(|p| p.bad.is_some()) && progs.iter().any(|p| p.bad.is_none());
        match w.into_iter().next() {
            None => Ok(()),
            Some((_, m)) => Err(m),
        }
    }
    /// only the offending function, without the statements it does not need
    fn reduce(c: &Case) -> Option<Case> {
        let (w, _) = wrong(&c.funcs).ok()?;
        let mut f = c.funcs[w.first()?.0].clone();
        loop {
            let smaller: Vec<Func> = (0..f.len())
                .map(|i| {
                    let mut g = f.clone();
                    g.remove(i);
                    g
                })
                .filter(|g| !g.is_empty())
                .collect();
            match wrong(&smaller) {
                Ok((w, _)) if !w.is_empty() => f = smaller[w[0].0].clone(),
                _ => return Some(Case { funcs: vec![f] }),
            }
        }
    }
}
fn op_name(op: Op) -> &'static str {
    match op {
        Op::WorldToPixel => "op world_to_pixel",
        Op::PixelToWorld => "op pixel_to_world",
        Op::CameraToPixel => "op camera_to_pixel",
        Op::PixelToCamera => "op pixel_to_camera",
        Op::WorldToCamera => "op world_to_camera",
        Op::CameraToWorld => "op camera_to_world",
        Op::RayToWorld => "op ray_camera_to_world",
        Op::PointOnRay => "op point_on_ray",
        Op::PointAt => "op point_on_ray_at_distance",
        Op::SingleRay => "op to_single_ray",
        Op::Centers => "op centers",
        Op::Directions => "op directions",
        Op::Intersect | Op::Intersect3 | Op::IntersectSingle => "op best_intersection_of_rays",
        Op::Linearise => "op linearize_at",
        Op::NewJacobian => "op JacobianPerspectiveCache::new",
        Op::NewPoints => "op Points::new",
        Op::NewPixels => "op Pixels::new",
        Op::NewOrigin => "op new_shared_zero_origin",
        Op::NewDirection => "op new_shared_plusz_direction",
        Op::NewRay => "op Ray::new",
        Op::FromMatrix => "op from_perspective_matrix",
        Op::CameraMatrix => "op as_camera_matrix",
        Op::Data => "op data",
        Op::Convert => "op into",
        Op::Compare => "op ==",
    }
}
fn main() {
    main_for::<C23>()
}
