use camcheck::{by_prec, dd, driver::*, feat::*, model::*, pool};
use pool::{proto::*, Config};
use proptest::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::OnceLock;

struct C22;

static BROKEN: OnceLock<Option<String>> = OnceLock::new();
fn configs() -> &'static [Config] {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        &pool::ALL
    } else {
        &pool::QUICK
    }
}
thread_local! {
    static POOL: RefCell<pool::Pool> = RefCell::new(pool::Pool::default());
}
/// tolerances per section: how far two correct results may be apart
#[derive(Default)]
struct Tol(BTreeMap<String, Vec<f64>>);
impl Tol {
    fn put(&mut self, n: impl Into<String>, v: Vec<f64>) {
        self.0.insert(n.into(), v.iter().map(|x| x * 2.0).collect());
    }
    /// rotation, translation and centre errors
    fn pose(&mut self, n: &str, rot: f64, tr: f64, c: f64) {
        let mut v = vec![rot; 27];
        v.extend([tr; 6]);
        v.extend([c; 3]);
        self.put(n, v);
    }
}
fn tolerances<R: Real>(i: &Input, pose: &PoseM, mat_k: &KM, mat_pose: &PoseM) -> Tol {
    let eps = R::EPS;
    let ke = K * eps;
    let mut t = Tol::default();
    let cn = pose.cn;
    t.pose("from_rotation_and_camcenter", ke, ke * cn, 0.0);
    t.pose("deserialised pose", ke, ke * cn, 0.0);
    t.pose("from_pose", ke, ke * cn, ke * cn);
    let d = dd::sub(dd::v3(i.lookat), pose.c);
    if vn(d) > 0.0 && n3(i.up) > 0.0 {
        let sin = vn(dd::cross(dd::unit(d), dd::unit(dd::v3(i.up))));
        let v = ke / sin;
        if v < 1.0 / 16.0 {
            t.pose("from_view", v, v * cn, 0.0);
        }
    }
    t.put("accessors", vec![0.0; 10]);
    let n = i.pts.len();
    let kp = KM { ortho: false, fx: i.k[0], fy: i.k[1], skew: i.k[2], cx: i.k[3], cy: i.k[4] };
    let ko = KM { ortho: true, fx: i.o[0], fy: i.o[1], skew: 0.0, cx: i.o[2], cy: i.o[3] };
    let far = i.dist.abs();
    for tag in ["fixed", "dynamic"] {
        let conv: Vec<f64> = i.pts.iter().flat_map(|p| [ke * (n3(*p) + cn); 3]).collect();
        t.put(format!("{tag} world_to_camera"), conv.clone());
        t.put(format!("{tag} camera_to_world"), conv);
        for (name, k) in [("perspective", &kp), ("orthographic", &ko)] {
            let pixtol = |frame: bool| -> Vec<f64> {
                i.pts
                    .iter()
                    .flat_map(|p| {
                        let (x, e) = if frame { (pose.to_cam(dd::v3(*p)), e_frame(*p, pose, eps)) } else { (dd::v3(*p), 0.0) };
                        k.project(x, e, eps).map_or([f64::INFINITY; 2], |m| m.tol)
                    })
                    .collect()
            };
            t.put(format!("{tag} {name} camera_to_pixel"), pixtol(false));
            t.put(format!("{tag} {name} world_to_pixel"), pixtol(true));
            let (mut data_c, mut at0_c, mut at_c) = (vec![], vec![], vec![]);
            let (mut data_w, mut at0_w, mut at_w) = (vec![], vec![], vec![]);
            let (mut cen, mut dir) = (vec![], vec![]);
            for r in 0..n {
                let px = i.pix[r % i.pix.len()];
                let (x, e) = k.unproject(px, eps);
                let es = e[0] + e[1];
                let xn = vn(x);
                if k.ortho {
                    let w = es + ke * (xn + cn);
                    data_c.extend([e[0], e[1], 0.0]);
                    cen.extend([e[0], e[1], 0.0]);
                    dir.extend([0.0; 3]);
                    at0_c.extend([es; 3]);
                    at_c.extend([es + ke * far; 3]);
                    data_w.extend([w; 3]);
                    at0_w.extend([w; 3]);
                    at_w.extend([w + ke * far; 3]);
                } else {
                    let turn = 2.0 * es / xn + ke;
                    data_c.extend([e[0], e[1], 0.0]);
                    cen.extend([0.0; 3]);
                    dir.extend([e[0], e[1], 0.0]);
                    at0_c.extend([0.0; 3]);
                    at_c.extend([far * turn; 3]);
                    data_w.extend([es + ke * xn; 3]);
                    at0_w.extend([ke * cn; 3]);
                    at_w.extend([ke * cn + far * turn; 3]);
                }
                if r == 0 {
                    let (c, d) = if k.ortho { (data_w.clone(), vec![ke; 3]) } else { (vec![ke * cn; 3], data_w.clone()) };
                    t.put(format!("{name} ray centre"), c);
                    t.put(format!("{name} ray direction"), d);
                }
            }
            for (s, v) in [
                ("pixel_to_camera data", data_c),
                ("pixel_to_camera at 0", at0_c),
                ("pixel_to_camera at d", at_c),
                ("pixel_to_world data", data_w),
                ("pixel_to_world at 0", at0_w),
                ("pixel_to_world at d", at_w),
                ("centers", cen),
                ("directions", dir),
            ] {
                t.put(format!("{tag} {name} {s}"), v);
            }
        }
    }
    // camera matrix
    let z0 = pose.t()[2].f().abs();
    if z0 > 8.0 * ke * cn && z0 > 0.0 {
        let tn = cn;
        let rows = [kp.fx.abs() + kp.skew.abs() + kp.cx.abs(), kp.fy.abs() + kp.cy.abs(), 1.0];
        let mut v = vec![];
        for r in rows {
            for j in 0..4 {
                let mag = r * if j == 3 { tn } else { 1.0 } / z0;
                v.push(4.0 * ke * mag * (1.0 + cn / z0));
            }
        }
        t.put("as_camera_matrix", v);
    }
    for (q, p) in i.pts.iter().take(3).enumerate() {
        let x = pose.to_cam(dd::v3(*p));
        let z = x[2].f().abs();
        let e = e_frame(*p, pose, eps);
        if K * e < z / 8.0 {
            let u = |f: f64, s: f64, c: f64| (f * x[0].f()).abs().max((f * x[1].f()).abs()) / z + (s * x[1].f()).abs() / z + 2.0 * c.abs();
            let mag = [
                kp.fx.abs() + kp.skew.abs() + u(kp.fx, kp.skew, kp.cx),
                kp.fy.abs() + u(kp.fy, 0.0, kp.cy),
            ];
            let v: Vec<f64> = mag.iter().flat_map(|m| [K * (eps * m / z + 2.0 * m * e / (z * z)); 3]).collect();
            t.put(format!("linearize_at {q}"), v);
        }
    }
    // decomposition
    let nr = [
        (mat_k.fx.powi(2) + mat_k.skew.powi(2) + mat_k.cx.powi(2)).sqrt(),
        (mat_k.fy.powi(2) + mat_k.cy.powi(2)).sqrt(),
    ];
    let kh = nr[0] * nr[1] / (mat_k.fx * mat_k.fy).abs();
    if ke * kh < 1.0 / 64.0 && mat_k.fx > 0.0 && mat_k.fy > 0.0 {
        let e = 4.0 * ke * kh;
        let mc = mat_pose.cn;
        t.put("from_perspective_matrix intrinsics", vec![e * nr[0], e * nr[0], e * nr[0], e * nr[1], e * nr[1]]);
        t.pose("from_perspective_matrix pose", e, 2.0 * e * mc, e * mc);
    }
    t.put("from_normalized_3x4_matrix", vec![0.0; 5]);
    t.put("equality", vec![0.0, f64::INFINITY, 0.0]);
    t.put("best_intersection_of_rays of one", vec![0.0]);
    t.put("roundtrip_intrinsics passes", vec![0.0]);
    for k in 0..4 {
        t.put(format!("error text {k}"), vec![0.0; 400]);
    }
    t.put("serialised camera", vec![0.0; 12]);
    t.put("deserialised camera is equal", vec![0.0]);
    let rays: Vec<RayC> = i.rays.iter().map(|r| RayC { c: [r[0], r[1], r[2]], d: [r[3], r[4], r[5]] }).collect();
    if rays.len() >= 2 && rays.iter().all(|r| n3(r.d) > 1e-12) {
        let l = lsq(&rays);
        if l.sigma >= 1e-6 && K * eps * l.n < l.sigma / 64.0 {
            t.put("best_intersection_of_rays", vec![K * l.err(eps); 3]);
        }
    }
    t
}
fn same(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol || tol == f64::INFINITY
}
fn run<R: Real>(c: &FeatC, o: &mut Obs) -> Res {
    if let Some(Some(b)) = BROKEN.get() {
        return Err(b.clone());
    }
    let (i, pose, km, mp) = input::<R>(c);
    let tol = tolerances::<R>(&i, &pose, &km, &mp);
    let cfgs = configs();
    let res = POOL.with(|p| p.borrow_mut().ask(cfgs, &i))?;
    // every configuration against the first one that offers the operation
    let mut first: BTreeMap<&str, (usize, &Vec<f64>)> = BTreeMap::new();
    let mut bitwise = true;
    let mut nonfinite = 0;
    for (k, r) in res.iter().enumerate() {
        for (name, v) in r {
            if name.starts_with("alloc ") {
                continue; // (judged by C21)
            }
            if name.starts_with("panic") {
                return Err(format!("{} in configuration \"{}\": {name}", R::NAME, cfgs[k].name));
            }
            let Some((w, want)) = first.get(name.as_str()).copied() else {
                first.insert(name, (k, v));
                continue;
            };
            let Some(t) = tol.0.get(name.as_str()) else {
                o.skipped += 1;
                continue;
            };
            ensure(v.len() == want.len(), || {
                format!("{} {name}: {v:?} with \"{}\", {want:?} with \"{}\"", R::NAME, cfgs[k].name, cfgs[w].name)
            })?;
            for (j, (a, b)) in v.iter().zip(want).enumerate() {
                o.compared += 1;
                let t = t.get(j).copied().unwrap_or(0.0);
                nonfinite += !b.is_finite() as u64;
                ensure(same(*a, *b, t), || {
                    format!(
                        "{} {name}: {v:?} with features \"{}\", {want:?} with \"{}\" (entry {j}, tolerance {t:e})",
                        R::NAME, cfgs[k].name, cfgs[w].name
                    )
                })?;
                bitwise &= a.to_bits() == b.to_bits();
                if t > 0.0 && t.is_finite() {
                    let r = (a - b).abs() / t;
                    if r > o.ratio {
                        o.ratio = r;
                    }
                }
            }
        }
    }
    // what is offered where
    let has = |k: usize, n: &str| res[k].iter().any(|s| s.0 == n);
    for (k, f) in cfgs.iter().enumerate() {
        let feats: Vec<&str> = f.features.split(' ').collect();
        let (std, serde) = (feats.contains(&"std"), feats.contains(&"serde"));
        let alloc = std || feats.contains(&"alloc");
        let isect = has(k, "best_intersection_of_rays") || has(k, "best_intersection_of_rays error");
        ensure(
            isect == alloc && has(k, "roundtrip_intrinsics passes") == std && has(k, "serialised camera") == serde,
            || format!("configuration \"{}\" does not offer what it should", f.name),
        )?;
    }
    // errors that only some configurations report
    let count = |n: &str| res.iter().filter(|r| r.iter().any(|s| s.0 == n)).count();
    for (n, n2) in [
        ("from_perspective_matrix intrinsics", "from_perspective_matrix error"),
        ("best_intersection_of_rays", "best_intersection_of_rays error"),
    ] {
        if tol.0.contains_key(n) {
            ensure(count(n) == 0 || count(n2) == 0, || format!("{} {n} fails in {} configurations only", R::NAME, count(n2)))?;
        }
    }
    o.label(R::NAME);
    o.lab_if(bitwise, "bitwise identical everywhere");
    o.lab_if(nonfinite > 0, "with non-finite results");
    o.nontrivial = tol.0.contains_key("best_intersection_of_rays") && tol.0.contains_key("as_camera_matrix");
    Ok(())
}
impl Prop for C22 {
    type Case = FeatC;
    const ID: &'static str = "C22";
    const RULE: &'static str = "random inputs for the whole interface, evaluated by one process per feature configuration (none, alloc, std, serde, std+serde in release; none and std+serde in debug; thorough: alloc, std and serde in debug too) and compared; non-trivial: the camera matrix and the ray intersection are well-conditioned, so that they are compared as well";
    const ASSUME: &'static [&'static str] =
        &["alloc plus serde-serialize without std is left out: nalgebra 0.33 itself does not compile with those features"];
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn max_shrink() -> u32 {
        3000
    }
    fn setup() -> Result<(), String> {
        let (w, b) = std::thread::scope(|s| {
            let b = s.spawn(pool::build_bare);
            (pool::build(configs()), b.join().unwrap())
        });
        match w.and(b) {
            Ok(()) => BROKEN.set(None).ok(),
            Err(pool::BuildError::Library(n, e)) => {
                BROKEN.set(Some(format!("the library cannot be built for configuration \"{n}\": {e}"))).ok()
            }
            Err(pool::BuildError::Other(e)) => return Err(e),
        };
        Ok(())
    }
    fn strategy() -> BoxedStrategy<FeatC> {
        feat()
    }
    fn check(c: &FeatC, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C22>()
}
