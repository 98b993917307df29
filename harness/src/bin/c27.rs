use cam_geom::linearize::JacobianPerspectiveCache;
use cam_geom::*;
use camcheck::scalars::{En, Heap, Jet, Sc, Wide};
use camcheck::{dd, dd::Dd, driver::*, gen::*, model::*};
use nalgebra::{
    Dyn, Isometry3, OMatrix, Point3, Quaternion, RealField, SMatrix, Translation3, Unit, UnitQuaternion, Vector3,
};
use proptest::prelude::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Heap,
    Wide,
    Jet,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    k: IntrC,
    pose: PoseC,
    /// built from an isometry with translation `pose.c`
    from_iso: bool,
    pts: Vec<PtC>,
    pix: PixC,
    dist: f64,
    view: ([f64; 3], [f64; 3], [f64; 3]),
    rays: Vec<([f64; 3], [f64; 3])>,
    /// derivatives (Jet) or further digits (Wide) of the inputs
    tangent: Vec<f64>,
}
struct C27;

type E3 = [En; 3];
fn edot(a: &E3, b: &E3) -> En {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn ecross(a: &E3, b: &E3) -> E3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn eunit(a: &E3) -> E3 {
    let n = edot(a, a).sqrt();
    a.map(|x| x / n)
}

/// Scalars with their reference numbers.
struct In<'a> {
    t: &'a [f64],
    i: usize,
}
impl<'a> In<'a> {
    fn next_t(&mut self) -> f64 {
        self.i += 1;
        if self.t.is_empty() { 0.0 } else { self.t[(self.i - 1) % self.t.len()] }
    }
    fn sc<S: Sc>(&mut self, x: f64) -> (S, En) {
        let t = self.next_t();
        let tail = if S::EPS < 1e-20 { x * t * (0.5f64).powi(54) } else { 0.0 };
        let d = if x == 0.0 { t } else { x * t };
        let s = S::make(Dd::new(x) + Dd::new(tail), Dd::new(d));
        let e = En { v: s.v(), d: s.d(), ev: 0.0, ed: 0.0 };
        (s, e)
    }
    fn sc3<S: Sc>(&mut self, x: [f64; 3]) -> ([S; 3], E3) {
        let [(a, ea), (b, eb), (c, ec)] = [self.sc(x[0]), self.sc(x[1]), self.sc(x[2])];
        ([a, b, c], [ea, eb, ec])
    }
    fn quat<S: Sc>(&mut self, q: [f64; 4]) -> ([S; 4], [En; 4]) {
        let q = q.map(Dd::new);
        let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
        let q = q.map(|x| x / n);
        let t = [0; 4].map(|_| Dd::new(self.next_t()));
        // a derivative along the unit sphere
        let p = q[0] * t[0] + q[1] * t[1] + q[2] * t[2] + q[3] * t[3];
        let s: [S; 4] = [0, 1, 2, 3].map(|i| S::make(q[i], t[i] - p * q[i]));
        let e = [0, 1, 2, 3].map(|i| En { v: s[i].v(), d: s[i].d(), ev: 1.0, ed: 2.0 });
        (s, e)
    }
}
fn rot(q: &[En; 4]) -> [E3; 3] {
    let [w, x, y, z] = *q;
    let two = En::exact(2.0);
    [
        [w * w + x * x - y * y - z * z, two * (x * y - w * z), two * (x * z + w * y)],
        [two * (x * y + w * z), w * w - x * x + y * y - z * z, two * (y * z - w * x)],
        [two * (x * z - w * y), two * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}
fn mv(m: &[E3; 3], v: &E3) -> E3 {
    [edot(&m[0], v), edot(&m[1], v), edot(&m[2], v)]
}
fn tr(m: &[E3; 3]) -> [E3; 3] {
    [0, 1, 2].map(|i| [0, 1, 2].map(|j| m[j][i]))
}
fn add3(a: &E3, b: &E3) -> E3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn neg3(a: &E3) -> E3 {
    a.map(|x| -x)
}

/// Compare value and derivative.
fn chk<S: Sc>(o: &mut Obs, what: &str, got: &S, want: &En) -> Res {
    chk_at(o, what, got, want, S::EPS)
}
fn chk_at<S: Sc>(o: &mut Obs, what: &str, got: &S, want: &En, eps: f64) -> Res {
    let tol = K * eps * want.ev + 1e-280;
    if !(tol.is_finite() && want.v.f().is_finite()) {
        o.skipped += 1;
        return Ok(());
    }
    let name = |d: &str| format!("{}: {what}{d}: got {:?}, reference {:?}", S::NAME, (got.v(), got.d()), (want.v, want.d));
    o.close(&|| name(""), (got.v() - want.v).f(), 0.0, tol)?;
    o.nontrivial |= tol < want.v.f().abs() * eps * 1e4;
    if S::NAME == Jet::NAME {
        let tol = K * eps * want.ed + 1e-280;
        o.close(&|| name(" (derivative)"), (got.d() - want.d).f(), 0.0, tol)?;
    }
    Ok(())
}
fn same<S: Sc>(what: &str, got: &S, want: &S) -> Res {
    ensure(got.v() == want.v() && got.d() == want.d(), || {
        format!("{}: {what} is {:?}, was given {:?}", S::NAME, (got.v(), got.d()), (want.v(), want.d()))
    })
}
fn rows<S: RealField, const C: usize>(m: &[[S; C]]) -> OMatrix<S, Dyn, nalgebra::Const<C>> {
    OMatrix::from_fn_generic(Dyn(m.len()), nalgebra::Const::<C>, |i, j| m[i][j].clone())
}

/// intrinsic parameters in common form
struct KE {
    ortho: bool,
    fx: En,
    fy: En,
    s: En,
    cx: En,
    cy: En,
}
impl KE {
    fn project(&self, p: &E3, eps: f64) -> Option<[En; 2]> {
        if self.ortho {
            return Some([self.fx * p[0] + self.cx, self.fy * p[1] + self.cy]);
        }
        let z = p[2];
        let bad = |e: f64| K * eps * e > z.v.f().abs() / 16.0;
        if z.v == Dd::ZERO || bad(z.ev) {
            return None;
        }
        Some([(self.fx * p[0] + self.s * p[1] + self.cx * z) / z, (self.fy * p[1] + self.cy * z) / z])
    }
    /// camera-frame origin and direction of the ray of a pixel
    fn unproject(&self, u: &[En; 2]) -> (E3, E3) {
        let (zero, one) = (En::exact(0.0), En::exact(1.0));
        let y = (u[1] - self.cy) / self.fy;
        let x = (u[0] - self.s * y - self.cx) / self.fx;
        if self.ortho {
            ([x, y, zero], [zero, zero, one])
        } else {
            ([zero; 3], [x, y, one])
        }
    }
}
trait Scalar: Sc + RealField + Serialize + DeserializeOwned {}
impl<S: Sc + RealField + Serialize + DeserializeOwned> Scalar for S {}

struct Ref {
    k: KE,
    r: [E3; 3],
    c: E3,
    /// -R c
    t: E3,
}

fn pt3<S: Scalar>(p: &[S; 3]) -> Point3<S> {
    Point3::new(p[0].clone(), p[1].clone(), p[2].clone())
}
fn row3<S: Scalar>(p: &[S; 3]) -> SMatrix<S, 1, 3> {
    SMatrix::<S, 1, 3>::new(p[0].clone(), p[1].clone(), p[2].clone())
}

/// What both models share.
fn common<S: Scalar, I: IntrinsicParameters<S> + Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned>(
    c: &Case,
    cam: &Camera<S, I>,
    m: &Ref,
    pts: &[([S; 3], E3)],
    pix: &([S; 2], [En; 2]),
    dist: &(S, En),
    o: &mut Obs,
) -> Res
where
    I::BundleType: Bundle<S>,
{
    let ext = cam.extrinsics();
    let eps = S::EPS;
    // the centre, with the error of recovering it from the isometry
    let c2 = neg3(&mv(&tr(&m.r), &m.t));
    let centre = [0, 1, 2].map(|i| En { v: m.c[i].v, d: m.c[i].d, ..c2[i] });
    // points
    let world = Points::<WorldFrame, _, _, _>::new(rows(&pts.iter().map(|p| p.0.clone()).collect::<Vec<_>>()));
    let as_cam = Points::<CameraFrame, _, _, _>::new(world.data.clone());
    let in_cam = ext.world_to_camera(&world);
    let in_world = ext.camera_to_world(&as_cam);
    let u1 = cam.world_to_pixel(&world);
    let u2 = cam.intrinsics().camera_to_pixel(&as_cam);
    ensure([in_cam.data.nrows(), in_world.data.nrows(), u1.data.nrows(), u2.data.nrows()] == [pts.len(); 4], || "row count".into())?;
    for (i, (_, p)) in pts.iter().enumerate() {
        let pc = add3(&mv(&m.r, p), &m.t);
        let pw = add3(&mv(&tr(&m.r), p), &centre);
        for j in 0..3 {
            o.group("world_to_camera");
            chk(o, "world_to_camera", &in_cam.data[(i, j)], &pc[j])?;
            o.group("camera_to_world");
            chk(o, "camera_to_world", &in_world.data[(i, j)], &pw[j])?;
        }
        for (what, got, p) in [("world_to_pixel", &u1, &pc), ("camera_to_pixel", &u2, p)] {
            o.group(what);
            match m.k.project(p, eps) {
                Some(u) => (0..2).try_for_each(|j| chk(o, what, &got.data[(i, j)], &u[j]))?,
                None => o.skipped += 2,
            }
        }
    }
    // rays
    let px = Pixels::new(SMatrix::<S, 2, 2>::from_fn(|_, j| pix.0[j].clone()));
    let (oc, dc) = m.k.unproject(&pix.1);
    let dl = edot(&dc, &dc).sqrt();
    let (ow, dw) = (add3(&mv(&tr(&m.r), &oc), &centre), mv(&tr(&m.r), &dc));
    let rc = cam.intrinsics().pixel_to_camera(&px);
    let rw = cam.pixel_to_world(&px);
    let one = Pixels::new(SMatrix::<S, 1, 2>::new(pix.0[0].clone(), pix.0[1].clone()));
    let single = cam.pixel_to_world(&one).to_single_ray();
    let (pc, pw) = (rc.point_on_ray_at_distance(dist.0.clone()), rw.point_on_ray_at_distance(dist.0.clone()));
    let some = rw.point_on_ray();
    let back = cam.world_to_pixel(&pw);
    let back2 = cam.world_to_pixel(&some);
    let step = dist.1 / dl;
    // the direction may be normalised before or after the rotation
    let at = |o: &E3, d: &E3| add3(o, &d.map(|x| x * step));
    let (wc, ww) = (at(&oc, &dc), at(&ow, &dw));
    for i in 0..2 {
        for j in 0..3 {
            o.group("rays");
            chk(o, "camera ray origin", &rc.centers()[(i, j)], &oc[j])?;
            chk(o, "camera ray direction", &rc.directions()[(i, j)], &dc[j])?;
            chk(o, "world ray origin", &rw.centers()[(i, j)], &ow[j])?;
            chk(o, "world ray direction", &rw.directions()[(i, j)], &dw[j])?;
            if i == 0 {
                chk(o, "single ray origin", &single.center[(0, j)], &ow[j])?;
                chk(o, "single ray direction", &single.direction[(0, j)], &dw[j])?;
            }
            o.group("points on rays");
            chk(o, "camera point at distance", &pc.data[(i, j)], &wc[j])?;
            chk(o, "world point at distance", &pw.data[(i, j)], &ww[j])?;
        }
        o.group("round trip");
        for (b, p) in [(&back, ww), (&back2, [0, 1, 2].map(|j| {
            // a point of the ray's own choosing
            let x: &S = &some.data[(i, j)];
            En { v: x.v(), d: x.d(), ..ww[j] }
        }))] {
            let (u, exact) = (m.k.project(&add3(&mv(&m.r, &p), &m.t), eps), &pix.1);
            match u {
                Some(u) => (0..2).try_for_each(|j| {
                    // the pixel itself, with the error of computing it
                    chk(o, "pixel of its own ray", &b.data[(i, j)], &En { v: exact[j].v, d: exact[j].d, ..u[j] })
                })?,
                None => o.skipped += 2,
            }
        }
    }
    // values
    let copy = cam.clone();
    ensure(copy == *cam && !format!("{cam:?}").is_empty(), || "clone differs".into())?;
    let text = serde_json::to_string(cam).map_err(|e| format!("{}: not serialised: {e}", S::NAME))?;
    let again: Camera<S, I> = serde_json::from_str(&text).map_err(|e| format!("{}: not deserialised: {e}", S::NAME))?;
    let u3 = again.world_to_pixel(&world);
    for i in 0..pts.len() {
        for j in 0..2 {
            let (a, b) = (&u3.data[(i, j)], &u1.data[(i, j)]);
            if a.fl().is_finite() && b.fl().is_finite() {
                same("pixel of the deserialised camera", a, b)?;
            }
        }
    }
    ensure(again == *cam, || format!("{}: deserialised camera differs", S::NAME))?;
    let _ = c;
    Ok(())
}

fn pose_checks<S: Scalar>(ext: &ExtrinsicParameters<S>, m: &Ref, o: &mut Obs) -> Res {
    o.group("pose");
    let (fwd, up, right) = (ext.forward(), ext.up(), ext.right());
    for j in 0..3 {
        chk(o, "camcenter", &ext.camcenter()[j], &m.c[j])?;
        chk(o, "translation", &ext.translation()[j], &m.t[j])?;
        chk(o, "isometry translation", &ext.pose().translation.vector[j], &m.t[j])?;
        chk(o, "matrix column 3", &ext.matrix()[(j, 3)], &m.t[j])?;
        for i in 0..3 {
            chk(o, "rotation", &ext.rotation()[(i, j)], &m.r[i][j])?;
            chk(o, "matrix", &ext.matrix()[(i, j)], &m.r[i][j])?;
        }
        // the axes may be normalised
        let wide = |e: En| En { ev: e.ev + 4.0, ed: e.ed + 4.0 * (1.0 + e.d.f().abs()), ..e };
        chk(o, "forward", &fwd[j], &wide(m.r[2][j]))?;
        chk(o, "up", &up[j], &wide(-m.r[1][j]))?;
        chk(o, "right", &right[j], &wide(m.r[0][j]))?;
    }
    Ok(())
}

fn perspective<S: Scalar>(cam: &Camera<S, IntrinsicParametersPerspective<S>>, m: &Ref, pts: &[([S; 3], E3)], o: &mut Obs) -> Res {
    let eps = S::EPS;
    // derivative of the projection
    let j = JacobianPerspectiveCache::new(cam);
    o.group("linearisation");
    for (p, e) in pts {
        let pc = add3(&mv(&m.r, e), &m.t);
        let z = pc[2];
        if z.v == Dd::ZERO || K * eps * z.ev > z.v.f().abs() / 16.0 {
            o.skipped += 6;
            continue;
        }
        let got = j.linearize_at(&Points::new(row3(p)));
        // numerators with the principal point, as with a full 3x4 matrix
        let k = &m.k;
        let num = [k.fx * pc[0] + k.s * pc[1] + k.cx * z, k.fy * pc[1] + k.cy * z];
        for b in 0..3 {
            let dn = [k.fx * m.r[0][b] + k.s * m.r[1][b] + k.cx * m.r[2][b], k.fy * m.r[1][b] + k.cy * m.r[2][b]];
            for a in 0..2 {
                chk(o, "derivative of the projection", &got[(a, b)], &(dn[a] / z - num[a] * m.r[2][b] / (z * z)))?;
            }
        }
    }
    // camera matrix
    o.group("camera matrix");
    let k = &m.k;
    let tz = m.t[2];
    let dist = edot(&m.c, &m.c).v.sqrt().f();
    let pm = cam.as_camera_matrix();
    let normal = tz.v.f().abs() > K * eps * (dist + tz.ev);
    if normal && K * eps * tz.ev < tz.v.f().abs() / 16.0 {
        for b in 0..4 {
            let col = |i: usize| if b < 3 { m.r[i][b] } else { m.t[i] };
            let w = [k.fx * col(0) + k.s * col(1) + k.cx * col(2), k.fy * col(1) + k.cy * col(2), col(2)];
            for a in 0..3 {
                // twice the error, as numerator and denominator are related
                chk(o, "camera matrix", &pm[(a, b)], &(w[a] / tz))?;
            }
        }
        // and back
        let kk = [
            [k.fx.v, k.s.v, k.cx.v],
            [Dd::ZERO, k.fy.v, k.cy.v],
            [Dd::ZERO, Dd::ZERO, Dd::ONE],
        ];
        let f = kk.map(|r| r.map(|x| x.f()));
        let big = f.iter().flatten().fold(0.0f64, |a, x| a.max(x.abs()));
        let kappa = big / f[0][0].abs().min(f[1][1].abs()).min(1.0) * (1.0 + f[0][1].abs() / f[0][0].abs());
        if f[0][0] > 0.0 && f[1][1] > 0.0 && kappa < 1e4 && dist < 1e6 && tz.v.f().abs() > 1e-3 * dist {
            o.group("decomposition");
            o.lab_if(true, "camera from its matrix");
            let b = Camera::from_perspective_matrix(&pm).map_err(|e| format!("{}: own camera matrix rejected: {e:?}", S::NAME))?;
            let q = b.intrinsics();
            let slack = big * kappa * (tz.ev / tz.v.f().abs() + 1.0);
            for (what, got, want) in
                [("fx", q.fx(), k.fx), ("fy", q.fy(), k.fy), ("skew", q.skew(), k.s), ("cx", q.cx(), k.cx), ("cy", q.cy(), k.cy)]
            {
                let dslack = (big + want.d.f().abs() + tz.ed / tz.v.f().abs() + (tz.d / tz.v).f().abs() + dist) * kappa * kappa * 16.0;
                chk(o, what, &got, &En { ev: slack, ed: dslack * (tz.ev / tz.v.f().abs() + 1.0), ..want })?;
            }
            for i in 0..3 {
                let want = m.c[i];
                let ds = dist + want.d.f().abs() + tz.ed + tz.d.f().abs() + 1.0;
                chk(o, "centre", &b.extrinsics().camcenter()[i], &En { ev: kappa * kappa * (dist + m.t[i].ev), ed: ds * kappa * kappa * 64.0 * (tz.ev / tz.v.f().abs() + 1.0), ..want })?;
            }
        }
    }
    Ok(())
}

fn run<S: Scalar>(c: &Case, o: &mut Obs) -> Res {
    let mut inp = In { t: &c.tangent, i: 0 };
    let (q, qe) = inp.quat::<S>(c.pose.q);
    let (x, xe) = inp.sc3::<S>(c.pose.c);
    let r = rot(&qe);
    let uq = UnitQuaternion::new_unchecked(Quaternion::new(q[0].clone(), q[1].clone(), q[2].clone(), q[3].clone()));
    let (ext, cc, t) = if c.from_iso {
        let iso = Isometry3::from_parts(Translation3::new(x[0].clone(), x[1].clone(), x[2].clone()), uq);
        let cc = neg3(&mv(&tr(&r), &xe));
        let t = neg3(&mv(&r, &cc));
        (ExtrinsicParameters::from_pose(&iso), cc, [0, 1, 2].map(|i| En { v: xe[i].v, d: xe[i].d, ..t[i] }))
    } else {
        (ExtrinsicParameters::from_rotation_and_camcenter(uq, pt3(&x)), xe, neg3(&mv(&r, &xe)))
    };
    let pose64 = PoseM::new(dd::rotmat(c.pose.q), cc.map(|x| x.v));
    let pts: Vec<([S; 3], E3)> = c
        .pts
        .iter()
        .map(|p| {
            let w = match p {
                PtC::Raw(r) => *r,
                PtC::Cam(_) => dd::fl3(pose64.to_world(dd::v3(cam_pt(p)))),
            };
            inp.sc3::<S>(w)
        })
        .collect();
    let km = rnd_i::<f64>(&c.k);
    let (fx, fxe) = inp.sc::<S>(km.fx);
    let (fy, fye) = inp.sc::<S>(km.fy);
    let (sk, ske) = if km.ortho { (S::con(0.0), En::exact(0.0)) } else { inp.sc::<S>(km.skew) };
    let (cx, cxe) = inp.sc::<S>(km.cx);
    let (cy, cye) = inp.sc::<S>(km.cy);
    let u = km.pix_of(&c.pix);
    let (u0, u0e) = inp.sc::<S>(u[0]);
    let (u1, u1e) = inp.sc::<S>(u[1]);
    let pix = ([u0, u1], [u0e, u1e]);
    let dist = inp.sc::<S>(c.dist);
    let m = Ref { k: KE { ortho: km.ortho, fx: fxe, fy: fye, s: ske, cx: cxe, cy: cye }, r, c: cc, t };
    pose_checks(&ext, &m, o)?;
    if km.ortho {
        let i: IntrinsicParametersOrthographic<S> = OrthographicParams { sx: fx, sy: fy, cx, cy }.into();
        common(c, &Camera::new(i, ext), &m, &pts, &pix, &dist, o)?;
        o.label("orthographic");
    } else {
        let p = PerspectiveParams { fx, fy, skew: sk, cx, cy };
        let i: IntrinsicParametersPerspective<S> = p.clone().into();
        for (w, a, b) in [("fx", i.fx(), &p.fx), ("fy", i.fy(), &p.fy), ("skew", i.skew(), &p.skew), ("cx", i.cx(), &p.cx), ("cy", i.cy(), &p.cy)] {
            same(w, &a, b)?;
        }
        let zero = || S::con(0.0);
        let pm = SMatrix::<S, 3, 4>::from_fn(|a, b| match (a, b) {
            (0, 0) => p.fx.clone(),
            (0, 1) => p.skew.clone(),
            (0, 2) => p.cx.clone(),
            (1, 1) => p.fy.clone(),
            (1, 2) => p.cy.clone(),
            (2, 2) => S::con(1.0),
            _ => zero(),
        });
        let b = IntrinsicParametersPerspective::from_normalized_3x4_matrix(pm)
            .map_err(|e| format!("{}: intrinsic matrix rejected: {e:?}", S::NAME))?;
        for (w, a, b) in [("fx", b.fx(), &p.fx), ("fy", b.fy(), &p.fy), ("skew", b.skew(), &p.skew), ("cx", b.cx(), &p.cx), ("cy", b.cy(), &p.cy)] {
            same(w, &a, b)?;
        }
        let ok = |x: f64, lo: f64| x.abs() >= lo && x.abs() <= 1e5;
        if ok(km.fx, 1.0) && ok(km.fy, 1.0) && ok(km.skew, 0.0) && ok(km.cx, 0.0) && ok(km.cy, 0.0) && c.rays.len() == 3 {
            intrinsic_test_utils::roundtrip_intrinsics(&i, 64, 48, 16, 5, S::con(1e-4));
        }
        let cam = Camera::new(i, ext);
        common(c, &cam, &m, &pts, &pix, &dist, o)?;
        perspective(&cam, &m, &pts, o)?;
        o.label("perspective");
    }

    // a pose from a view: at least f64's precision
    let eps64 = S::EPS.max(f64::EPSILON);
    let ((vc, vce), (va, vae), (vu, vue)) = (inp.sc3::<S>(c.view.0), inp.sc3::<S>(c.view.1), inp.sc3::<S>(c.view.2));
    let v3 = |x: &[S; 3]| Vector3::new(x[0].clone(), x[1].clone(), x[2].clone());
    let look = add3(&vae, &neg3(&vce));
    let side = ecross(&eunit(&look), &eunit(&vue));
    let sin = edot(&side, &side).v.sqrt().f();
    let ln = edot(&look, &look).v.sqrt().f();
    if sin > 0.05 && look.iter().all(|x| x.ev * 1e-12 < ln) {
        o.group("view");
        let ext = ExtrinsicParameters::from_view(&v3(&vc), &v3(&va), &Unit::new_normalize(v3(&vu)));
        let f = eunit(&look);
        let rt = eunit(&side);
        let up = ecross(&rt, &f);
        // error of going through a quaternion
        let dmax = f.iter().chain(&rt).chain(&up).fold(1.0f64, |a, x| a.max(x.d.f().abs()));
        let wide = |e: En| En { ev: e.ev + 64.0, ed: e.ed + 64.0 * dmax, ..e };
        for j in 0..3 {
            chk_at(o, "forward of a view", &ext.forward()[j], &wide(f[j]), eps64)?;
            chk_at(o, "right of a view", &ext.right()[j], &wide(rt[j]), eps64)?;
            chk_at(o, "up of a view", &ext.up()[j], &wide(up[j]), eps64)?;
            same("centre of a view", &ext.camcenter()[j], &vc[j])?;
        }
    }

    // intersection: the value, to at least f64's precision
    let rays: Vec<RayC> = c.rays.iter().map(|(p, d)| RayC { c: *p, d: *d }).collect();
    let l = lsq(&rays);
    if rays.len() >= 2 && l.sigma > 0.02 {
        o.group("intersection");
        let rs: Vec<Ray<WorldFrame, S>> = c
            .rays
            .iter()
            .map(|(p, d)| Ray::new(row3(&p.map(|x| S::con(x))), row3(&d.map(|x| S::con(x)))))
            .collect();
        let x = best_intersection_of_rays(&rs).map_err(|e| format!("{}: intersection failed: {e:?}", S::NAME))?;
        for j in 0..3 {
            o.close(&|| format!("{}: intersection [{j}]", S::NAME), x.data[(0, j)].fl(), l.x[j].f(), K * l.err(f64::EPSILON))?;
        }
        o.lab_if(true, "intersection");
    }
    o.label(S::NAME);
    Ok(())
}

impl Prop for C27 {
    type Case = Case;
    const ID: &'static str = "C27";
    const RULE: &'static str = "the whole generic interface instantiated with a scalar that is not Copy, with a double-double and with a differentiating scalar, on random cameras, poses, points, pixels, views and rays; non-trivial: a comparison whose tolerance is below 1e4 units of the scalar's precision";
    fn cases(t: Tier) -> u64 {
        match t {
            Tier::Quick => 400_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn strategy() -> BoxedStrategy<Case> {
        let kind = prop_oneof![Just(Kind::Wide), Just(Kind::Jet), Just(Kind::Heap)];
        let dir = || [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64].prop_filter("nonzero", |d| n3(*d) > 0.05);
        (
            (kind, intr(), pose(), any::<bool>(), proptest::collection::vec(pt(), 1..4), pix(), distance()),
            ([coord(), coord(), coord()], dir(), logmag(-1.0, 2.0), dir()),
            proptest::collection::vec(([coord(), coord(), coord()], dir()), 0..4),
            proptest::collection::vec(prop_oneof![1 => Just(0.0), 4 => -1.0..1.0f64], 1..48),
        )
            .prop_map(|((kind, k, pose, from_iso, pts, pix, dist), (c, d, s, up), rays, tangent)| Case {
                kind,
                k,
                pose,
                from_iso,
                pts,
                pix,
                dist,
                view: (c, [0, 1, 2].map(|i| c[i] + s * d[i]), up),
                rays,
                tangent,
            })
            .boxed()
    }
    fn check(c: &Case, o: &mut Obs) -> Res {
        match c.kind {
            Kind::Heap => run::<Heap>(c, o),
            Kind::Wide => run::<Wide>(c, o),
            Kind::Jet => run::<Jet>(c, o),
        }
    }
}
fn main() {
    main_for::<C27>()
}
