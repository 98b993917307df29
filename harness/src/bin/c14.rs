use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::SMatrix;
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    k: PerspC,
    pose: PoseC,
    pts: Vec<PtC>,
    strided: bool,
}
struct C14;

fn jac<R: Real>(j: &JacobianPerspectiveCache<R>, p: [f64; 3], strided: bool) -> [[f64; 3]; 2] {
    let m: SMatrix<R, 2, 3> = if strided {
        let nan = R::of(f64::NAN);
        let big = SMatrix::<R, 3, 6>::from_fn(|i, c| if i == 1 && c % 2 == 1 { R::of(p[c / 2]) } else { nan });
        j.linearize_at(&Points::new(big.fixed_view_with_steps::<1, 3>((1, 1), (0, 1))))
    } else {
        j.linearize_at(&Points::new(SMatrix::<R, 1, 3>::new(R::of(p[0]), R::of(p[1]), R::of(p[2]))))
    };
    [0, 1].map(|i| [0, 1, 2].map(|c| m[(i, c)].f()))
}

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let k = rnd_p::<R>(&c.k);
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let cam = Camera::new(mk_persp::<R>(&k), ext);
    let j = JacobianPerspectiveCache::new(&cam);
    let mut first = vec![];
    for round in 0..2 {
        for (i, p) in c.pts.iter().enumerate() {
            let p = world_pt::<R>(p, &pose);
            let pc = pose.to_cam(dd::v3(p));
            let z = pc[2].f().abs();
            let e = e_frame(p, &pose, eps);
            let got = jac(&j, p, c.strided);
            if !(K * e < z / 8.0) || z == 0.0 {
                o.skipped += 6;
                first.push(got);
                continue;
            }
            if round == 1 {
                // evaluating again gives the same answer
                ensure(got == first[i], || format!("{} second evaluation at {p:?}: {got:?}, first {:?}", R::NAME, first[i]))?;
                continue;
            }
            first.push(got);
            let z2 = pc[2] * pc[2];
            let num = [
                Dd::new(k.fx) * pc[0] + Dd::new(k.skew) * pc[1],
                Dd::new(k.fy) * pc[1],
            ];
            let u = [(num[0] / pc[2]).f() + k.cx, (num[1] / pc[2]).f() + k.cy];
            let kr = [
                dd::add(dd::scale(pose.r[0], Dd::new(k.fx)), dd::scale(pose.r[1], Dd::new(k.skew))),
                dd::scale(pose.r[1], Dd::new(k.fy)),
            ];
            let mag = [
                k.fx.abs() + k.skew.abs() + k.cx.abs() + u[0].abs(),
                k.fy.abs() + k.cy.abs() + u[1].abs(),
            ];
            for a in 0..2 {
                for b in 0..3 {
                    let want = (kr[a][b] * pc[2] - num[a] * pose.r[2][b]) / z2;
                    let tol = K * (eps * mag[a] / z + 2.0 * mag[a] * e / (z * z));
                    o.group("derivative");
                    o.close(
                        &|| format!("{} d{}/d{} at {p:?} (depth {:e})", R::NAME, ["u", "v"][a], ["x", "y", "z"][b], pc[2].f()),
                        got[a][b],
                        want.f(),
                        tol,
                    )?;
                    o.nontrivial |= tol < 1e-2 * mag[a] / z;
                }
            }
            o.lab_if(pc[2].f() < 0.0, "behind camera");
        }
    }
    o.label(R::NAME);
    o.lab_if(pose.cn == 0.0, "camera at origin");
    o.lab_if(pose.t()[2].f().abs() <= K * eps * pose.cn, "world origin on principal plane");
    o.lab_if(k.fx < 0.0, "fx < 0");
    Ok(())
}

fn pose_pp() -> BoxedStrategy<PoseC> {
    prop_oneof![
        4 => pose(),
        1 => (quat(), coord(), coord()).prop_map(|(q, a, b)| {
            let r = dd::rotmat(q);
            PoseC { q, c: dd::fl3(dd::mtv(&r, dd::v3([a, b, 0.0]))) }
        }),
        1 => (0usize..3, coord(), coord(), 0usize..4).prop_map(|(ax, a, b, k)| {
            let h = std::f64::consts::FRAC_PI_4 * k as f64;
            let mut q = [h.cos(), 0.0, 0.0, 0.0];
            q[1 + ax] = h.sin();
            PoseC { q, c: [a, b, 0.0] }
        }),
    ]
    .boxed()
}

impl Prop for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "random perspective camera (incl. at the origin, and with the origin on its principal plane), one prepared linearisation evaluated twice at 1..4 points; compared with the exact derivative; non-trivial: bound below 1% of the derivative's scale";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 3_000_000,
            Tier::Thorough => 60_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        in_units((prec(), persp_signed(20), pose_pp(), proptest::collection::vec(pt(), 1..4), proptest::bool::weighted(0.2))
            .prop_map(|(prec, k, pose, pts, strided)| Case { prec, k, pose, pts, strided }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.pts.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C14>()
}
