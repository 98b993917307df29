use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, Isometry3, Matrix, Storage, U2, U3};
use proptest::prelude::*;

/// A row: a regular one, or a poison row that must not influence the others.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Row {
    Pt(PtC),
    Px(PixC),
    Poison(u8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    WorldToCamera,
    CameraToWorld,
    CameraToPixel,
    WorldToPixel,
    PixelToCamera,
    PixelToWorld,
    /// shared origin or direction, distance, rigid motion
    RayPoint(bool),
    RayAt(bool, f64),
    RayPose(bool, f64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    op: Op,
    k: IntrC,
    pose: PoseC,
    rows: Vec<Row>,
    /// which coordinates a row shares with the row before it (bit set), as on a grid
    share: Vec<u8>,
    n: usize,
    /// rotation of the row order for the reordered run
    shift: usize,
    reverse: bool,
    layouts: [Layout; 2],
}
struct C10;
type P = Vec<[f64; 3]>;

struct Run3<'a, R: Real, I: IntrinsicParameters<R>> {
    cam: &'a Camera<R, I>,
    op: Op,
    shared: [f64; 3],
}
fn p2(v: Vec<[f64; 2]>) -> P {
    v.into_iter().map(|a| [a[0], a[1], 0.0]).collect()
}
impl<'a, R: Real, I: IntrinsicParameters<R>> Run3<'a, R, I> {
    fn bundle<B: Bundle<R>, N: Dim, S: Storage<R, N, U3>>(&self, bt: &B, m: &Matrix<R, N, U3, S>) -> P
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        match self.op {
            Op::RayPoint(_) => rows3(&bt.point_on_ray::<_, _, WorldFrame>(m).data),
            Op::RayAt(_, d) => rows3(&bt.point_on_ray_at_distance::<_, _, WorldFrame>(m, R::of(d)).data),
            Op::RayPose(_, d) => {
                let iso: Isometry3<R> = *self.cam.extrinsics().pose();
                let rb = bt.to_pose::<_, _, WorldFrame>(iso, m);
                let mut v = rows3(&rb.data);
                v.extend(rows3(&rb.point_on_ray_at_distance(R::of(d)).data));
                v
            }
            _ => unreachable!(),
        }
    }
}
impl<'a, R: Real, I: IntrinsicParameters<R>> Fn3<R> for Run3<'a, R, I> {
    type Out = P;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> P
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        match self.op {
            Op::WorldToCamera => rows3(&self.cam.extrinsics().world_to_camera(&Points::new(m)).data),
            Op::CameraToWorld => rows3(&self.cam.extrinsics().camera_to_world(&Points::new(m)).data),
            Op::CameraToPixel => p2(rows2(&self.cam.intrinsics().camera_to_pixel(&Points::new(m)).data)),
            Op::WorldToPixel => p2(rows2(&self.cam.world_to_pixel(&Points::new(m)).data)),
            Op::RayPoint(true) | Op::RayAt(true, _) | Op::RayPose(true, _) => {
                self.bundle(&mk_origin_bundle::<R>(self.shared), &m)
            }
            _ => self.bundle(&mk_direction_bundle::<R>(self.shared), &m),
        }
    }
}
struct Run2<'a, R: Real, I: IntrinsicParameters<R>> {
    cam: &'a Camera<R, I>,
    world: bool,
}
impl<'a, R: Real, I: IntrinsicParameters<R>> Fn2<R> for Run2<'a, R, I>
where
    I::BundleType: Bundle<R>,
{
    type Out = P;
    fn call<N: Dim, S: Storage<R, N, U2>>(&mut self, m: Matrix<R, N, U2, S>) -> P
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        let px = Pixels::new(m);
        if self.world {
            let rb = self.cam.pixel_to_world(&px);
            let mut v = rows3(&rb.data);
            v.extend(rows3(&rb.point_on_ray_at_distance(R::of(1.5)).data));
            v
        } else {
            rows3(&self.cam.intrinsics().pixel_to_camera(&px).data)
        }
    }
}
fn poison(k: u8) -> [f64; 3] {
    match k % 8 {
        0 => [f64::NAN; 3],
        1 => [f64::INFINITY, 1.0, 2.0],
        2 => [0.0, 0.0, 0.0],
        3 => [1.0, f64::NEG_INFINITY, 0.0],
        4 => [1e30, -1e30, 1e30],
        5 => [1.0, 2.0, 0.0],
        6 => [-0.0, 1e-30, f64::NAN],
        _ => [f64::INFINITY, f64::NEG_INFINITY, f64::NAN],
    }
}

fn model<R: Real, I: IntrinsicParameters<R>>(c: &Case, k: &KM, intr: I, o: &mut Obs) -> Res
where
    I::BundleType: Bundle<R>,
{
    let eps = R::EPS;
    let (ext, pose) = mk_pose::<R>(&c.pose);
    let shared = rnd3::<R>([c.pose.c[0] * 0.5 + 0.25, 1.5 - c.pose.c[1], c.pose.c[2]]);
    let cam = Camera::new(intr, ext);
    let two = matches!(c.op, Op::PixelToCamera | Op::PixelToWorld);
    let camera_in = matches!(c.op, Op::CameraToWorld | Op::CameraToPixel);
    let row = |r: &Row| -> [f64; 3] {
        match r {
            Row::Poison(x) => poison(*x).map(rnd::<R>),
            Row::Pt(p) if camera_in => rnd3::<R>(cam_pt(p)),
            Row::Pt(p) => world_pt::<R>(p, &pose),
            Row::Px(p) => {
                let q = k.pix_of(p);
                rnd3::<R>([q[0], q[1], 1.0])
            }
        }
    };
    // the rows repeat with this period
    let l = c.rows.len();
    let mut base: Vec<([f64; 3], bool)> = c.rows.iter().map(|r| (row(r), matches!(r, Row::Poison(_)))).collect();
    for i in 1..l {
        let m = c.share.get(i).copied().unwrap_or(0);
        for j in 0..3 {
            if m >> j & 1 == 1 && !base[i].1 && !base[i - 1].1 {
                base[i].0[j] = base[i - 1].0[j];
                o.label("row shares coordinates with the one before");
            }
        }
    }
    let rows: Vec<([f64; 3], bool)> = (0..c.n).map(|i| base[i % l]).collect();
    // outputs of an operation: `per` numbers-of-rows blocks
    let exec = |rows: &[[f64; 3]], l: Layout| -> P {
        if two {
            let r2: Vec<[f64; 2]> = rows.iter().map(|r| [r[0], r[1]]).collect();
            with2(&r2, l, &mut Run2 { cam: &cam, world: c.op == Op::PixelToWorld })
        } else {
            with3(rows, l, &mut Run3 { cam: &cam, op: c.op, shared })
        }
    };
    let per = if matches!(c.op, Op::PixelToWorld | Op::RayPose(..)) { 2 } else { 1 };
    // bound on the rounding of each output (per block), on the row alone
    let bound = |r: [f64; 3], got: &[[f64; 3]]| -> Option<Vec<f64>> {
        let e = e_frame(r, &pose, eps);
        let m = n3(r) + 2.0 * pose.cn;
        match c.op {
            Op::WorldToCamera | Op::CameraToWorld => Some(vec![K * eps * m]),
            Op::CameraToPixel => k.project(dd::v3(r), 0.0, eps).map(|p| vec![p.tol[0].max(p.tol[1])]),
            Op::WorldToPixel => k.project(pose.to_cam(dd::v3(r)), e, eps).map(|p| vec![p.tol[0].max(p.tol[1])]),
            Op::PixelToCamera => {
                let (_, e) = k.unproject([r[0], r[1]], eps);
                Some(vec![e[0].max(e[1])])
            }
            Op::PixelToWorld => {
                let (v, e) = k.unproject([r[0], r[1]], eps);
                let e = e[0].max(e[1]) * 2.0 + K * eps * (vn(v) + 2.0 * pose.cn);
                Some(vec![e, 2.0 * e])
            }
            Op::RayPoint(_) | Op::RayAt(..) => {
                let d = if let Op::RayAt(_, d) = c.op { d.abs() } else { 0.0 };
                Some(vec![K * eps * (n3(shared) + n3(r) + d)])
            }
            Op::RayPose(_, d) => {
                let b = K * eps * (n3(shared) + n3(r) + 2.0 * pose.cn + d.abs() + n3(got[0]));
                Some(vec![b, b])
            }
        }
    };
    let plain: P = rows.iter().map(|r| r.0).collect();
    let all = exec(&plain, c.layouts[0]);
    ensure(all.len() == per * c.n, || format!("{:?}: {} output rows for {} rows", c.op, all.len() / per, c.n))?;
    // a different order and storage
    let mut perm: Vec<usize> = (0..c.n).map(|i| (i + c.shift) % c.n.max(1)).collect();
    if c.reverse {
        perm.reverse();
    }
    let other = exec(&perm.iter().map(|i| plain[*i]).collect::<Vec<_>>(), c.layouts[1]);
    ensure(other.len() == per * c.n, || format!("{:?}: {} output rows for {} rows (reordered)", c.op, other.len() / per, c.n))?;
    let mut at = vec![0; c.n];
    for (pos, i) in perm.iter().enumerate() {
        at[*i] = pos;
    }
    let mut single = vec![];
    for (r, _) in base.iter().take(c.n) {
        let alone = exec(&[*r], Layout::Static);
        ensure(alone.len() == per, || format!("{:?}: {} output rows for one row", c.op, alone.len()))?;
        let b = bound(*r, &alone);
        single.push((alone, b));
    }
    for i in 0..c.n {
        if rows[i].1 {
            o.label("poison row");
            continue;
        }
        let r = rows[i].0;
        let (alone, Some(b)) = &single[i % l] else {
            o.skipped += 1;
            continue;
        };
        let pos = at[i];
        for blk in 0..per {
            for (nm, got) in [("batch", all[blk * c.n + i]), ("reordered batch", other[blk * c.n + pos])] {
                for j in 0..3 {
                    let (g, w) = (got[j], alone[blk][j]);
                    if g.to_bits() == w.to_bits() {
                        o.compared += 1;
                        continue;
                    }
                    o.group("row vs alone");
                    o.close(
                        &|| {
                            format!(
                                "{} {:?}: row {i} of {} ({r:?}) component {j} in {nm} ({:?}/{:?}) against the row alone",
                                R::NAME, c.op, c.n, c.layouts[0], c.layouts[1]
                            )
                        },
                        g,
                        w,
                        2.0 * b[blk],
                    )?;
                }
            }
        }
        o.nontrivial |= c.n > 1;
    }
    o.nontrivial |= c.n == 0;
    o.lab_if(c.n == 0, "no rows");
    o.lab_if(c.n > 150, "more than 150 rows");
    o.lab_if(c.n > 4096, "more than 4096 rows");
    o.lab_if(c.n > 65_536, "more than 65536 rows");
    o.label(R::NAME);
    o.label(match c.op {
        Op::WorldToCamera => "world_to_camera",
        Op::CameraToWorld => "camera_to_world",
        Op::CameraToPixel => "camera_to_pixel",
        Op::WorldToPixel => "world_to_pixel",
        Op::PixelToCamera => "pixel_to_camera",
        Op::PixelToWorld => "pixel_to_world",
        Op::RayPoint(_) => "point_on_ray",
        Op::RayAt(..) => "point_on_ray_at_distance",
        Op::RayPose(..) => "to_pose",
    });
    Ok(())
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    let _ = Dd::ZERO;
    let k = rnd_i::<R>(&c.k);
    if k.ortho {
        model(c, &k, mk_ortho::<R>(&k), o)
    } else {
        model(c, &k, mk_persp::<R>(&k), o)
    }
}

fn share() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u8..8, 7)].boxed()
}
impl Prop for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "one bulk operation on 0..70000 rows (regular rows, and NaN/infinite/zero poison rows; rows sharing some coordinates with the row before them), in two storages and two orders; every regular row is compared with the same row processed alone; non-trivial: at least two rows, or none";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 2_000_000,
            Tier::Thorough => 24_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let op3 = prop_oneof![
            Just(Op::WorldToCamera),
            Just(Op::CameraToWorld),
            Just(Op::CameraToPixel),
            Just(Op::WorldToPixel),
            any::<bool>().prop_map(Op::RayPoint),
            (any::<bool>(), distance()).prop_map(|(b, d)| Op::RayAt(b, d)),
            (any::<bool>(), distance()).prop_map(|(b, d)| Op::RayPose(b, d)),
        ];
        let op2 = prop_oneof![Just(Op::PixelToCamera), Just(Op::PixelToWorld)];
        let r3 = prop_oneof![4 => pt().prop_map(Row::Pt), 1 => (0u8..8).prop_map(Row::Poison)];
        let r2 = prop_oneof![4 => pix().prop_map(Row::Px), 1 => (0u8..8).prop_map(Row::Poison)];
        let a = (op3, proptest::collection::vec(r3, 1..=7));
        let b = (op2, proptest::collection::vec(r2, 1..=7));
        in_units((prec(), prop_oneof![4 => a, 1 => b], intr(), pose(), share(), nrows_wide(), 0usize..40, any::<bool>(), [layout(), layout()])
            .prop_map(|(prec, (op, rows), k, pose, share, n, shift, reverse, layouts)| Case {
                prec,
                op,
                k,
                pose,
                rows,
                share,
                n,
                shift,
                reverse,
                layouts,
            }), |c| c.prec, |c, s| {
            c.pose.rescale(s);
            c.rows.iter_mut().for_each(|r| if let Row::Pt(p) = r { p.rescale(s) });
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C10>()
}
