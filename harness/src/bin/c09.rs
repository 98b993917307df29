use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, Isometry3, Matrix, SMatrix, Storage, U2, U3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    shared_origin: bool,
    shared: [f64; 3],
    rows: Vec<[f64; 3]>,
    n: usize,
    dist: [f64; 2],
    /// quaternion and translation (explicit isometry) or centre (camera pose)
    pose: PoseC,
    /// move through a camera pose into the world frame
    via_camera: bool,
    layout: Layout,
}
struct C09;
type P = Vec<[f64; 3]>;

struct Op<'a, R: Real, B> {
    bt: &'a B,
    iso: Isometry3<R>,
    ext: &'a ExtrinsicParameters<R>,
    via: bool,
    dist: [f64; 2],
}
/// moved data, and moved points at distances (0, d0, d1) and point_on_ray
struct Out {
    data: P,
    at: [P; 3],
    on: P,
}
impl<'a, R: Real, B: Bundle<R>> Fn3<R> for Op<'a, R, B> {
    type Out = Out;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        let at = [0.0, self.dist[0], self.dist[1]];
        let rb: RayBundle<WorldFrame, B, R, N, _> = if self.via {
            let mut cam = self.bt.to_pose::<_, _, CameraFrame>(Isometry3::identity(), &m);
            for i in 0..m.nrows() {
                for j in 0..3 {
                    cam.data[(i, j)] = m[(i, j)];
                }
            }
            self.ext.ray_camera_to_world(&cam)
        } else {
            self.bt.to_pose(self.iso, &m)
        };
        Out {
            data: rows3(&rb.data),
            at: at.map(|d| rows3(&rb.point_on_ray_at_distance(R::of(d)).data)),
            on: rows3(&rb.point_on_ray().data),
        }
    }
}

fn go<R: Real, B: Bundle<R>>(c: &Case, bt: &B, o: &mut Obs) -> Res {
    let eps = R::EPS;
    let base: P = c.rows.iter().map(|r| rnd3::<R>(*r)).collect();
    let rows: P = (0..c.n).map(|i| base[i % base.len()]).collect();
    let shared = rnd3::<R>(c.shared);
    let dist = c.dist.map(rnd::<R>);
    // reference motion p -> M p + t
    let (iso, r, t) = mk_iso::<R>(c.pose.q, c.pose.c);
    let (ext, pm) = mk_pose::<R>(&c.pose);
    let (m, t) = if c.via_camera {
        let mut tr = pm.r;
        for i in 0..3 {
            for j in 0..3 {
                tr[i][j] = pm.r[j][i];
            }
        }
        (tr, pm.c)
    } else {
        (r, t)
    };
    let tn = vn(t);
    let ray = |i: usize| if c.shared_origin { (shared, rows[i]) } else { (rows[i], shared) };
    let out = with3(&rows, c.layout, &mut Op { bt, iso, ext: &ext, via: c.via_camera, dist });
    ensure(out.data.len() == c.n && out.on.len() == c.n && out.at.iter().all(|a| a.len() == c.n), || "row count".into())?;
    let how = if c.via_camera { "ray_camera_to_world" } else { "to_pose" };
    for i in 0..c.n {
        let (org, dir) = ray(i);
        let (no, nd) = (dd::add(dd::mv(&m, dd::v3(org)), t), dd::mv(&m, dd::v3(dir)));
        let (to, td) = (K * eps * (n3(org) + 2.0 * tn), K * eps * n3(dir));
        let ctx = |s: &str| format!("{} {how}: {s} of ray {org:?} {dir:?}, row {i}", R::NAME);
        o.group("data");
        if c.shared_origin {
            close3(o, &|| ctx("moved direction"), out.data[i], nd, td)?;
        } else {
            close3(o, &|| ctx("moved origin"), out.data[i], no, to)?;
        }
        o.group("points");
        for (w, d) in [0.0, dist[0], dist[1]].iter().enumerate() {
            let p = dd::add(dd::v3(org), dd::scale(dd::v3(dir), Dd::new(*d) / dd::norm(dd::v3(dir))));
            let want = dd::add(dd::mv(&m, p), t);
            close3(o, &|| ctx(&format!("point at distance {d}")), out.at[w][i], want, to + K * eps * d.abs())?;
        }
        // one-ray form: origin and direction (with its length) explicitly
        if i < 4 {
            let one = SMatrix::<R, 1, 3>::new(R::of(rows[i][0]), R::of(rows[i][1]), R::of(rows[i][2]));
            let rb: RayBundle<WorldFrame, B, R, _, _> = if c.via_camera {
                let mut cam = bt.to_pose::<_, _, CameraFrame>(Isometry3::identity(), &one);
                cam.data = one;
                ext.ray_camera_to_world(&cam)
            } else {
                bt.to_pose(iso, &one)
            };
            o.group("single ray");
            close3(o, &|| ctx("single ray origin"), rows3(&rb.centers())[0], no, to)?;
            close3(o, &|| ctx("single ray direction"), rows3(&rb.directions())[0], nd, td)?;
            let s = rb.to_single_ray();
            close3(o, &|| ctx("to_single_ray origin"), rows3(&s.center)[0], no, to)?;
            close3(o, &|| ctx("to_single_ray direction"), rows3(&s.direction)[0], nd, td)?;
        }
    }
    o.nontrivial = (c.shared_origin && n3(shared) > 1e-6 || !c.shared_origin && (shared[0], shared[1]) != (0.0, 0.0))
        && mat_diff(&m, &dd::rotmat([1.0, 0.0, 0.0, 0.0])) > 1e-3
        && tn > 1e-6;
    o.label(R::NAME);
    o.label(if c.shared_origin { "shared origin" } else { "shared direction" });
    o.label(how_label(c.via_camera));
    Ok(())
}
fn how_label(via: bool) -> &'static str {
    if via {
        "camera pose"
    } else {
        "isometry"
    }
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    if c.shared_origin {
        go(c, &mk_origin_bundle::<R>(rnd3::<R>(c.shared)), o)
    } else {
        go(c, &mk_direction_bundle::<R>(rnd3::<R>(c.shared)), o)
    }
}
fn anydir() -> BoxedStrategy<[f64; 3]> {
    (dirvec(), prop_oneof![3 => Just(1.0), 2 => logmag(-8.0, 8.0), 1 => harvested(1e-6, 1e6)])
        .prop_map(|(d, s)| [d[0] * s, d[1] * s, d[2] * s])
        .boxed()
}

impl Prop for C09 {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "bundle of either kind with arbitrary shared origin/direction, moved by an explicit isometry or through a camera pose, random storage; non-trivial: shared value not the default, rotation not the identity, translation not zero";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let origin = (Just(true), center(), proptest::collection::vec(anydir(), 1..6));
        let direction = (Just(false), anydir(), proptest::collection::vec(center(), 1..6));
        in_units((prec(), prop_oneof![origin, direction], nrows(), [distance(), distance()], pose(), any::<bool>(), layout())
            .prop_map(|(prec, (shared_origin, shared, rows), n, dist, pose, via_camera, layout)| Case {
                prec,
                shared_origin,
                shared,
                rows,
                n,
                dist,
                pose,
                via_camera,
                layout,
            }), |c| c.prec, |c, s| {
            if c.shared_origin {
                c.shared.rescale(s);
            } else {
                c.rows.rescale(s);
            }
            c.dist.rescale(s);
            c.pose.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C09>()
}
