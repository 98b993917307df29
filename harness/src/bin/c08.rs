use cam_geom::*;
use camcheck::{by_prec, dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{allocator::Allocator, DefaultAllocator, Dim, DimName, Isometry3, Matrix, SMatrix, Storage, U2, U3};
use proptest::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prec: Prec,
    shared_origin: bool,
    /// the shared origin or direction; None: use the zero-origin / plus-z constructor
    shared: Option<[f64; 3]>,
    rows: Vec<[f64; 3]>,
    n: usize,
    /// index into SIZES
    ns: usize,
    dist: [f64; 3],
    layout: Layout,
}
/// Row counts known at compile time.
const SIZES: [usize; 24] =
    [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 24, 32, 33, 48, 64, 65, 100, 128, 200, 256, 300];
struct C08;

type P = Vec<[f64; 3]>;
/// evaluations of a bundle through RayBundle and through Bundle directly
struct Op<'a, B> {
    bt: &'a B,
    plain: bool,
    origin: bool,
    dist: [f64; 3],
}
struct Out {
    data: P,
    on: [P; 2],
    at: Vec<[P; 2]>,
}
impl<'a, R: Real, B: Bundle<R>> Fn3<R> for Op<'a, B> {
    type Out = Out;
    fn call<N: Dim, S: Storage<R, N, U3>>(&mut self, m: Matrix<R, N, U3, S>) -> Out
    where
        DefaultAllocator: Allocator<N, U3> + Allocator<N, U2>,
    {
        let on1 = rows3(&self.bt.point_on_ray::<_, _, WorldFrame>(&m).data);
        let at1: Vec<P> = self
            .dist
            .iter()
            .map(|d| rows3(&self.bt.point_on_ray_at_distance::<_, _, WorldFrame>(&m, R::of(*d)).data))
            .collect();
        let (data, on2, at2);
        if self.plain && self.origin {
            let rb = RayBundle::<WorldFrame, _, R, _, _>::new_shared_zero_origin(m);
            data = rows3(&rb.data);
            on2 = rows3(&rb.point_on_ray().data);
            at2 = self.dist.map(|d| rows3(&rb.point_on_ray_at_distance(R::of(d)).data)).to_vec();
        } else if self.plain {
            let rb = RayBundle::<WorldFrame, _, R, _, _>::new_shared_plusz_direction(m);
            data = rows3(&rb.data);
            on2 = rows3(&rb.point_on_ray().data);
            at2 = self.dist.map(|d| rows3(&rb.point_on_ray_at_distance(R::of(d)).data)).to_vec();
        } else {
            let mut rb = self.bt.to_pose::<_, _, WorldFrame>(Isometry3::identity(), &m);
            for i in 0..m.nrows() {
                for j in 0..3 {
                    rb.data[(i, j)] = m[(i, j)];
                }
            }
            data = rows3(&rb.data);
            on2 = rows3(&rb.point_on_ray().data);
            at2 = self.dist.map(|d| rows3(&rb.point_on_ray_at_distance(R::of(d)).data)).to_vec();
        }
        Out { data, on: [on1, on2], at: at1.into_iter().zip(at2).map(|(a, b)| [a, b]).collect() }
    }
}
/// centers() and directions() need a statically known row count
fn statics<R: Real, B: Bundle<R>, N: DimName>(bt: &B, rows: &[[f64; 3]]) -> [P; 4]
where
    DefaultAllocator: Allocator<N, U3>,
{
    let m = nalgebra::OMatrix::<R, N, U3>::from_fn(|i, j| R::of(rows[i][j]));
    let rb = bt.to_pose::<_, _, WorldFrame>(Isometry3::identity(), &m);
    [rows3(&bt.centers(&m)), rows3(&bt.directions(&m)), rows3(&rb.centers()), rows3(&rb.directions())]
}

fn go<R: Real, B: Bundle<R>>(c: &Case, bt: &B, shared: [f64; 3], o: &mut Obs) -> Res {
    let eps = R::EPS;
    let base: P = c.rows.iter().map(|r| rnd3::<R>(*r)).collect();
    let rows: P = (0..c.n).map(|i| base[i % base.len()]).collect();
    let dist = c.dist.map(rnd::<R>);
    let ray = |i: usize| -> ([f64; 3], [f64; 3]) {
        if c.shared_origin {
            (shared, rows[i])
        } else {
            (rows[i], shared)
        }
    };
    let out = with3(&rows, c.layout, &mut Op { bt, plain: c.shared.is_none(), origin: c.shared_origin, dist });
    o.group("data");
    ensure(out.data == rows, || format!("bundle data {:?} instead of {rows:?}", out.data))?;
    for via in 0..2 {
        let name = ["Bundle", "RayBundle"][via];
        ensure(out.on[via].len() == c.n && out.at.iter().all(|a| a[via].len() == c.n), || "row count".into())?;
        for i in 0..c.n {
            let (org, dir) = ray(i);
            let (od, ddir) = (dd::v3(org), dd::v3(dir));
            let dn = vn(ddir);
            for (w, d) in dist.iter().enumerate() {
                let want = dd::add(od, dd::scale(ddir, Dd::new(*d) / dd::norm(ddir)));
                o.group("at distance");
                close3(
                    o,
                    &|| format!("{} {name}::point_on_ray_at_distance({d}) of ray {org:?} {dir:?}", R::NAME),
                    out.at[w][via][i],
                    want,
                    K * eps * (n3(org) + d.abs()),
                )?;
                o.lab_if(*d < 0.0, "negative distance");
            }
            // some point on the positive half
            let p = dd::sub(dd::v3(out.on[via][i]), od);
            let off = (dd::norm(dd::cross(p, ddir)) / dd::norm(ddir)).f();
            let along = (dd::dot(p, ddir) / dd::norm(ddir)).f();
            let slack = K * eps * (n3(org) + n3(out.on[via][i]));
            o.group("point on ray");
            o.small(&|| format!("{} {name}::point_on_ray of ray {org:?} {dir:?} off the line", R::NAME), off, slack)?;
            ensure(along > -slack, || format!("{name}::point_on_ray of {org:?} {dir:?} is {along:e} along the ray"))?;
            if dn > 4.0 * slack && dn > 1e-3 * n3(org) {
                // (a point closer than rounding to the origin is not a point on the positive half)
                ensure(along > 0.0, || format!("{name}::point_on_ray of {org:?} {dir:?} is {along:e} along the ray"))?;
                o.nontrivial = true;
            }
        }
    }
    o.group("centers and directions");
    // with a row count of its own, as these need it at compile time
    let srows: P = (0..SIZES[c.ns % SIZES.len()]).map(|i| base[i % base.len()]).collect();
    macro_rules! sized {
        ($($n:literal)*) => {
            match srows.len() {
                $($n => statics::<R, B, nalgebra::Const<$n>>(bt, &srows),)*
                _ => unreachable!(),
            }
        };
    }
    let st = sized!(1 2 3 4 5 6 7 8 9 12 16 17 20 24 32 33 48 64 65 100 128 200 256 300);
    for (k, got) in st.iter().enumerate() {
        let nm = ["Bundle::centers", "Bundle::directions", "RayBundle::centers", "RayBundle::directions"][k];
        ensure(got.len() == srows.len(), || format!("{nm}: row count"))?;
        for i in 0..srows.len() {
            let (org, dir) = if c.shared_origin { (shared, srows[i]) } else { (srows[i], shared) };
            let want = if k % 2 == 0 { org } else { dir };
            // RayBundle srows went through an identity transformation
            close3(o, &|| format!("{nm} row {i} of {}", srows.len()), got[i], dd::v3(want), K * eps * n3(want))?;
        }
    }
    // single rays
    o.group("single ray");
    for i in 0..c.n.min(3) {
        let m = SMatrix::<R, 1, 3>::new(R::of(rows[i][0]), R::of(rows[i][1]), R::of(rows[i][2]));
        let (org, dir) = ray(i);
        let mut rb = bt.to_pose::<_, _, CameraFrame>(Isometry3::identity(), &m);
        rb.data = m;
        for (nm, s) in [("Bundle", bt.to_single_ray::<CameraFrame>(&m)), ("RayBundle", rb.to_single_ray())] {
            close3(o, &|| format!("{nm}::to_single_ray centre"), rows3(&s.center)[0], dd::v3(org), K * eps * n3(org))?;
            close3(o, &|| format!("{nm}::to_single_ray direction"), rows3(&s.direction)[0], dd::v3(dir), K * eps * n3(dir))?;
        }
    }
    o.label(R::NAME);
    o.label(if c.shared_origin { "shared origin" } else { "shared direction" });
    o.lab_if(c.shared.is_some(), "arbitrary shared value");
    Ok(())
}
fn run<R: Real>(c: &Case, o: &mut Obs) -> Res {
    if c.shared_origin {
        let s = c.shared.map(rnd3::<R>);
        let plain = ray_bundle_types::SharedOriginRayBundle::<R>::new_shared_zero_origin();
        let bt = s.map(mk_origin_bundle::<R>).unwrap_or(plain);
        go(c, &bt, s.unwrap_or([0.0; 3]), o)
    } else {
        let s = c.shared.map(rnd3::<R>);
        let plain = ray_bundle_types::SharedDirectionRayBundle::<R>::new_plusz_shared_direction();
        let bt = s.map(mk_direction_bundle::<R>).unwrap_or(plain);
        go(c, &bt, s.unwrap_or([0.0, 0.0, 1.0]), o)
    }
}

/// direction of any length
pub fn anydir() -> BoxedStrategy<[f64; 3]> {
    (dirvec(), prop_oneof![3 => Just(1.0), 2 => logmag(-8.0, 8.0), 1 => harvested(1e-6, 1e6)])
        .prop_map(|(d, s)| [d[0] * s, d[1] * s, d[2] * s])
        .boxed()
}

impl Prop for C08 {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "bundle of either kind, made by the special constructors or with an arbitrary shared origin/direction (any length), 1..300 rays in random storage, three signed distances; non-trivial: a ray whose point_on_ray is resolvably away from its origin";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_000_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let origin = (
            Just(true),
            proptest::option::weighted(0.8, center()),
            proptest::collection::vec(anydir(), 1..6),
        );
        let direction = (
            Just(false),
            proptest::option::weighted(0.8, anydir()),
            proptest::collection::vec(center(), 1..6),
        );
        in_units((
            prec(),
            prop_oneof![origin, direction],
            (nrows(), prop_oneof![8 => 0..SIZES.len() / 2, 1 => 0..SIZES.len()]),
            [distance(), distance(), prop_oneof![Just(0.0).boxed(), distance()].boxed()],
            layout(),
        )
            .prop_map(|(prec, (shared_origin, shared, rows), (n, ns), dist, layout)| Case {
                prec,
                shared_origin,
                shared,
                rows,
                n,
                ns,
                dist,
                layout,
            }), |c| c.prec, |c, s| {
            // the lengths of directions stay as they are
            if c.shared_origin {
                c.shared.rescale(s);
            } else {
                c.rows.rescale(s);
            }
            c.dist.rescale(s);
        })
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        by_prec!(c.prec, run(c, o))
    }
}
fn main() {
    main_for::<C08>()
}
