use cam_geom::ExtrinsicParameters;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{Unit, Vector3};
use proptest::prelude::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Build {
    RotCenter,
    Iso,
    /// look-at offset and up are taken from the pose's rotation-independent data
    View([f64; 3], [f64; 3]),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    pose: PoseC,
    build: Build,
}
struct C04;

/// all reported views of `e` agree with rotation r and centre c
fn views<R: Real>(o: &mut Obs, e: &ExtrinsicParameters<R>, m: &PoseM, cond: f64, why: &str) -> Res {
    // `cond`: how far the rotation the pose was built with is known to be orthonormal
    let k = K * R::EPS * cond;
    let tc = k * m.cn;
    let t = m.t();
    o.group("centre");
    close3(o, &|| format!("{why}: camcenter()"), p3_of(e.camcenter()), m.c, tc)?;
    o.group("rotation");
    let rq = dd::rotmat(quat_of(&e.pose().rotation));
    o.small(&|| format!("{why}: pose().rotation against the rotation {:?}", m.r), mat_diff(&rq, &m.r), k)?;
    let q = e.pose().rotation.quaternion();
    let qn = (q.w.f() * q.w.f() + q.i.f() * q.i.f() + q.j.f() * q.j.f() + q.k.f() * q.k.f()).sqrt();
    o.close(&|| format!("{why}: pose() quaternion norm"), qn, 1.0, k)?;
    let r3 = m3_of(e.rotation().matrix());
    o.small(&|| format!("{why}: rotation() {r3:?}"), mat_diff(&r3, &m.r), k)?;
    let mat = e.matrix();
    let m33 = m3_of(&mat.fixed_view::<3, 3>(0, 0));
    o.small(&|| format!("{why}: matrix() {mat:?}"), mat_diff(&m33, &m.r), k)?;
    o.group("translation");
    let tv = e.pose().translation.vector;
    close3(o, &|| format!("{why}: pose().translation"), [tv.x.f(), tv.y.f(), tv.z.f()], t, tc)?;
    close3(o, &|| format!("{why}: translation()"), p3_of(e.translation()), t, tc)?;
    close3(o, &|| format!("{why}: matrix() column 3"), [mat[(0, 3)].f(), mat[(1, 3)].f(), mat[(2, 3)].f()], t, tc)?;
    o.group("axes");
    let f = |v: Unit<Vector3<R>>| [v.x.f(), v.y.f(), v.z.f()];
    let (fw, up, ri) = (f(e.forward()), f(e.up()), f(e.right()));
    close3(o, &|| format!("{why}: forward()"), fw, m.r[2], k)?;
    close3(o, &|| format!("{why}: up()"), up, dd::scale(m.r[1], Dd::new(-1.0)), k)?;
    close3(o, &|| format!("{why}: right()"), ri, m.r[0], k)?;
    for (n, v) in [("forward", fw), ("up", up), ("right", ri)] {
        o.close(&|| format!("{why}: |{n}|"), vn(dd::v3(v)), 1.0, k)?;
    }
    for (n, a, b) in [("forward.up", fw, up), ("forward.right", fw, ri), ("up.right", up, ri)] {
        o.small(&|| format!("{why}: {n}"), dd::dot(dd::v3(a), dd::v3(b)).f().abs(), k)?;
    }
    Ok(())
}

fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let mut cond = 1.0;
    let (e, m) = match c.build {
        Build::RotCenter => {
            let (e, m) = mk_pose::<R>(&c.pose);
            ensure(p3_of(e.camcenter()) == dd::fl3(m.c), || "camcenter() is not the centre given".into())?;
            (e, m)
        }
        Build::Iso => {
            let (iso, r, t) = mk_iso::<R>(c.pose.q, c.pose.c);
            let e = ExtrinsicParameters::from_pose(&iso);
            let m = PoseM::new(r, dd::scale(dd::mtv(&r, t), Dd::new(-1.0)));
            // the isometry is reported back
            o.group("isometry back");
            let tv = e.pose().translation.vector;
            close3(o, &|| "from_pose: pose().translation".into(), [tv.x.f(), tv.y.f(), tv.z.f()], t, K * R::EPS * vn(t))?;
            (e, m)
        }
        Build::View(d, u) => {
            let cc = rnd3::<R>(c.pose.c);
            let mut la = rnd3::<R>([cc[0] + d[0], cc[1] + d[1], cc[2] + d[2]]);
            if la == cc {
                la[0] = rnd::<R>(la[0] + 1.0 + la[0].abs());
            }
            let v = |a: [f64; 3]| Vector3::new(R::of(a[0]), R::of(a[1]), R::of(a[2]));
            let e = ExtrinsicParameters::from_view(&v(cc), &v(la), &Unit::new_normalize(v(u)));
            // whatever rotation it has, the views must agree with one another
            let q = quat_of(&e.pose().rotation);
            let (d, u) = (dd::sub(dd::v3(la), dd::v3(cc)), dd::v3(rnd3::<R>(u)));
            let sin = (dd::norm(dd::cross(d, u)) / (dd::norm(d) * dd::norm(u))).f();
            if !(sin > 1e-2) {
                o.skipped += 1; // look direction parallel to up: no such view
                return Ok(());
            }
            cond = 1.0 / sin;
            ensure(p3_of(e.camcenter()) == cc, || "camcenter() is not the centre given".into())?;
            o.label("from view");
            (e, PoseM::new(dd::rotmat(q), dd::v3(cc)))
        }
    };
    views(o, &e, &m, cond, "built pose")?;
    // rebuild from the reported isometry
    let e2 = ExtrinsicParameters::from_pose(e.pose());
    views(o, &e2, &m, cond, "pose rebuilt from pose()")?;
    o.label(R::NAME);
    o.lab_if(m.cn > 1e4, "far camera");
    o.lab_if(matches!(c.build, Build::Iso), "from isometry");
    o.nontrivial = mat_diff(&m.r, &dd::rotmat([1.0, 0.0, 0.0, 0.0])) > 1e-3 && m.cn > 0.0;
    Ok(())
}

impl Prop for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "random pose built from rotation and centre, isometry, or view, then rebuilt from the isometry it reports; non-trivial: rotation differs from identity and centre from zero";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 4_000_000,
            Tier::Thorough => 80_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let b = prop_oneof![
            2 => Just(Build::RotCenter),
            2 => Just(Build::Iso),
            1 => (dirvec(), dirvec()).prop_map(|(d, u)| Build::View(d, u)),
        ];
        in_units((prec(), pose(), b).prop_map(|(prec, pose, build)| Case { prec, pose, build }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C04>()
}
