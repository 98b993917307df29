use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::SMatrix;
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: PerspC,
    pose: PoseC,
    pts: Vec<PtC>,
}
struct C11;

/// pixel of a homogeneous 3x4 matrix, evaluated exactly
fn apply(m: &[[f64; 4]; 3], p: [f64; 3]) -> [Dd; 3] {
    let mut r = [Dd::ZERO; 3];
    for i in 0..3 {
        r[i] = Dd::new(m[i][0]) * Dd::new(p[0])
            + Dd::new(m[i][1]) * Dd::new(p[1])
            + Dd::new(m[i][2]) * Dd::new(p[2])
            + Dd::new(m[i][3]);
    }
    r
}
fn read<R: Real>(m: &SMatrix<R, 3, 4>) -> [[f64; 4]; 3] {
    let mut a = [[0.0; 4]; 3];
    for i in 0..3 {
        for j in 0..4 {
            a[i][j] = m[(i, j)].f();
        }
    }
    a
}

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let k = rnd_p::<R>(&c.k);
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let cam = Camera::new(mk_persp::<R>(&k), ext);
    let mat = cam.as_camera_matrix();
    let m = read(&mat);
    ensure(m.iter().flatten().all(|x| x.is_finite()), || format!("{} camera matrix is not finite: {m:?}", R::NAME))?;
    // the world origin's depth
    let z0 = pose.t()[2].f().abs();
    if z0 > K * eps * pose.cn {
        o.group("entry (2,3)");
        o.close(&|| format!("{} entry (2,3)", R::NAME), m[2][3], 1.0, 8.0 * eps)?;
    } else {
        o.label("world origin on principal plane");
    }
    // conditioning of the decomposition: Hadamard ratio of K (rotation factors out)
    let nr = [
        (k.fx * k.fx + k.skew * k.skew + k.cx * k.cx).sqrt(),
        (k.fy * k.fy + k.cy * k.cy).sqrt(),
        1.0,
    ];
    let kh = nr[0] * nr[1] / (k.fx * k.fy).abs();
    // the centre is the solution of a system whose rows differ in size; an elimination that
    // pays no attention to that has errors in proportion
    let spread = nr[0].max(nr[1]).max(1.0) / nr[0].min(nr[1]).min(1.0);
    let decomposable = K * eps * kh < 1.0 / 32.0 && usable::<R>(&m).is_some();
    let cam2 = match Camera::from_perspective_matrix(&mat) {
        Ok(c) => c,
        Err(_) if !decomposable => Camera::new(mk_persp::<R>(&k), cam.extrinsics().clone()),
        Err(e) => return Err(format!("{} from_perspective_matrix of the camera's own matrix failed: {e}", R::NAME)),
    };
    for (i, p) in c.pts.iter().enumerate() {
        let p = world_pt::<R>(p, &pose);
        let pc = pose.to_cam(dd::v3(p));
        let ef = e_frame(p, &pose, eps);
        let Some(pm) = k.project(pc, ef, eps) else {
            o.skipped += 2;
            continue;
        };
        let h = apply(&m, p);
        let got = [(h[0] / h[2]).f(), (h[1] / h[2]).f()];
        o.group("matrix projection");
        close2(o, &|| format!("{} camera matrix applied to {p:?} (row {i}), matrix {m:?}", R::NAME), got, &pm)?;
        o.nontrivial |= pm.tol[0] < 1.0 && pm.tol[1] < 1.0;
        // the camera's own projection agrees as well
        let px = world_to_pix(&cam, &[p], Layout::Static)[0];
        close2(o, &|| format!("{} world_to_pixel of {p:?}", R::NAME), px, &pm)?;
        if decomposable {
            let mut pm2 = k.project(pc, kh * (4.0 * ef + eps * spread / 8.0 * pose.cn), eps);
            if let Some(pm2) = pm2.as_mut() {
                for j in 0..2 {
                    pm2.tol[j] += K * eps * kh * (nr[j] + pm2.u[j].abs());
                }
                let px = world_to_pix(&cam2, &[p], Layout::Static)[0];
                o.group("rebuilt projection");
                close2(o, &|| format!("{} camera rebuilt from its matrix, projecting {p:?}", R::NAME), px, pm2)?;
            } else {
                o.skipped += 2;
            }
        } else {
            o.skipped += 2;
        }
    }
    if decomposable && k.fx > 0.0 && k.fy > 0.0 {
        let i2 = cam2.intrinsics();
        let t = 4.0 * K * eps * kh;
        o.group("rebuilt parameters");
        for (n, g, w, s) in [
            ("fx", i2.fx().f(), k.fx, nr[0]),
            ("skew", i2.skew().f(), k.skew, nr[0]),
            ("cx", i2.cx().f(), k.cx, nr[0]),
            ("fy", i2.fy().f(), k.fy, nr[1]),
            ("cy", i2.cy().f(), k.cy, nr[1]),
        ] {
            o.close(&|| format!("{} rebuilt {n}", R::NAME), g, w, t * s)?;
        }
        let r2 = m3_of(cam2.extrinsics().rotation().matrix());
        o.small(&|| format!("{} rebuilt rotation {r2:?}", R::NAME), mat_diff(&r2, &pose.r), t)?;
        close3(o, &|| format!("{} rebuilt centre", R::NAME), p3_of(cam2.extrinsics().camcenter()), pose.c, t * pose.cn * (1.0 + spread / 8.0))?;
        o.label("parameters rebuilt");
    }
    o.label(R::NAME);
    o.lab_if(pose.cn == 0.0, "camera at origin");
    o.lab_if(k.fx < 0.0, "fx < 0");
    Ok(())
}

/// poses, some with the world origin on the principal plane
pub fn pose_pp() -> BoxedStrategy<PoseC> {
    prop_oneof![
        4 => pose(),
        1 => (quat(), coord(), coord()).prop_map(|(q, a, b)| {
            // centre orthogonal to the viewing direction (exact for axis-aligned rotations)
            let r = dd::rotmat(q);
            let c = dd::mtv(&r, dd::v3([a, b, 0.0]));
            PoseC { q, c: dd::fl3(c) }
        }),
        1 => (0usize..3, coord(), coord(), 0usize..4).prop_map(|(ax, a, b, k)| {
            // quarter turns about an axis, centre in the plane of the other two coordinates
            let h = std::f64::consts::FRAC_PI_4 * k as f64;
            let mut q = [h.cos(), 0.0, 0.0, 0.0];
            q[1 + ax] = h.sin();
            PoseC { q, c: [a, b, 0.0] }
        }),
    ]
    .boxed()
}

impl Prop for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "random perspective camera, incl. ones with the world origin on the principal plane and at the origin; camera matrix applied exactly to points, decomposed and compared; non-trivial: a point whose bound is below one pixel";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 40_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        in_units((prec(), persp_signed(20), pose_pp(), proptest::collection::vec(pt(), 1..4))
            .prop_map(|(prec, k, pose, pts)| Case { prec, k, pose, pts }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C11>()
}
