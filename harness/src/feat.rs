//! Inputs for the whole interface, as the workers take them.
use crate::gen::*;
use crate::model::*;
use crate::pool::proto::Input;
use proptest::prelude::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum NormEdit {
    None,
    Add(usize, f64),
    Nan(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FeatC {
    pub prec: Prec,
    pub k: PerspC,
    pub o: OrthoC,
    pub pose: PoseC,
    pub lookat: [f64; 3],
    pub up: [f64; 3],
    pub dist: f64,
    pub n: usize,
    pub pts: Vec<PtC>,
    pub pix: Vec<PixC>,
    pub rays: RaysC,
    pub mat_pose: PoseC,
    pub mat_scale: f64,
    pub norm: NormEdit,
    pub grid: [usize; 4],
    pub tight: bool,
}
pub fn input<R: Real>(c: &FeatC) -> (Input, PoseM, KM, PoseM) {
    let kp = rnd_p::<R>(&c.k);
    let ko = rnd_o::<R>(&c.o);
    let (_, pose) = mk_pose::<R>(&c.pose);
    let (_, mp) = mk_pose::<R>(&c.mat_pose);
    let n = *[1usize, 2, 3, 5, 17].iter().find(|x| **x >= c.n).unwrap_or(&17);
    let l = c.pts.len();
    let pts = (0..n).map(|j| world_pt::<R>(&c.pts[j % l].nth(j / l), &pose)).collect();
    let l = c.pix.len();
    let pix = (0..n).map(|j| kp.pix_of(&c.pix[j % l].nth(j / l)).map(rnd::<R>)).collect();
    let mut mat = [0.0; 12];
    let km = [[kp.fx, kp.skew, kp.cx], [0.0, kp.fy, kp.cy], [0.0, 0.0, 1.0]];
    let t = mp.t();
    for a in 0..3 {
        for b in 0..4 {
            for (l, k) in km[a].iter().enumerate() {
                mat[4 * a + b] += k * if b < 3 { mp.r[l][b].f() } else { t[l].f() };
            }
            mat[4 * a + b] = rnd::<R>(mat[4 * a + b] * c.mat_scale);
        }
    }
    let mut norm = [kp.fx, kp.skew, kp.cx, 0.0, 0.0, kp.fy, kp.cy, 0.0, 0.0, 0.0, 1.0, 0.0];
    match c.norm {
        NormEdit::None => {}
        NormEdit::Add(k, x) => norm[k % 12] = rnd::<R>(norm[k % 12] + x),
        NormEdit::Nan(k) => norm[k % 12] = f64::NAN,
    }
    let rays = c
        .rays
        .list()
        .into_iter()
        .map(|(a, b)| {
            let (a, b) = (rnd3::<R>(a), rnd3::<R>(b));
            [a[0], a[1], a[2], b[0], b[1], b[2]]
        })
        .collect();
    let [w, h, s, b] = c.grid;
    let (w, h) = (w + 2 * b, h + 2 * b);
    // how well the model round-trips on the grid, amply
    let big = (w + h) as f64 + kp.cx.abs() + kp.cy.abs() + kp.skew.abs() * (h as f64 + kp.cy.abs()) / kp.fy.abs();
    let eps = 16.0 * K * R::EPS * big;
    let i = Input {
        f32: c.prec == Prec::F32,
        k: [kp.fx, kp.fy, kp.skew, kp.cx, kp.cy],
        o: [ko.fx, ko.fy, ko.cx, ko.cy],
        q: {
            let q = mk_quat::<R>(c.pose.q);
            quat_of(&q)
        },
        c: rnd3::<R>(c.pose.c),
        lookat: rnd3::<R>(c.lookat),
        up: rnd3::<R>(c.up),
        dist: rnd::<R>(c.dist),
        mat,
        norm,
        pts,
        pix,
        rays,
        // (a negative tolerance can never be met)
        grid: [w as f64, h as f64, s as f64, b as f64, if c.tight { -1.0 } else { eps }],
    };
    (i, pose, kp, mp)
}
pub fn feat() -> BoxedStrategy<FeatC> {
        let norm = prop_oneof![
            2 => Just(NormEdit::None),
            2 => (0usize..12, prop_oneof![Just(1.0), Just(-0.5), Just(1e-3)]).prop_map(|(k, x)| NormEdit::Add(k, x)),
            1 => (0usize..12).prop_map(NormEdit::Nan),
        ];
        (
            (prec(), persp_signed(10), ortho(), pose(), vec3(coord), dirvec(), distance()),
            (
                prop_oneof![3 => 1usize..=5, 1 => Just(17usize)],
                proptest::collection::vec(pt(), 1..4),
                proptest::collection::vec(pix(), 1..4),
                rays(),
                pose(),
                signed(logmag(-2.0, 2.0), 40),
            ),
            (norm, [1usize..60, 1usize..60, 1usize..20, 0usize..12], proptest::bool::weighted(0.2)),
        )
            .prop_map(|((prec, k, o, pose, lookat, up, dist), (n, pts, pix, rays, mat_pose, mat_scale), (norm, grid, tight))| FeatC {
                prec,
                k,
                o,
                pose,
                lookat,
                up,
                dist,
                n,
                pts,
                pix,
                rays,
                mat_pose,
                mat_scale,
                norm,
                grid,
                tight,
            })
            .boxed()
}
