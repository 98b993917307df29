// Messages between the check and the workers (included by both).

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Input {
    pub f32: bool,
    /// fx, fy, skew, cx, cy
    pub k: [f64; 5],
    /// sx, sy, cx, cy
    pub o: [f64; 4],
    /// quaternion w, i, j, k (used as it is), centre
    pub q: [f64; 4],
    pub c: [f64; 3],
    pub lookat: [f64; 3],
    pub up: [f64; 3],
    pub dist: f64,
    pub mat: [f64; 12],
    pub norm: [f64; 12],
    pub pts: Vec<[f64; 3]>,
    pub pix: Vec<[f64; 2]>,
    pub rays: Vec<[f64; 6]>,
    /// width, height, step, border, and the tolerance
    pub grid: [f64; 5],
}
impl Input {
    pub fn encode(&self) -> Vec<u8> {
        let mut v: Vec<f64> = vec![self.f32 as u8 as f64];
        v.extend(self.k);
        v.extend(self.o);
        v.extend(self.q);
        v.extend(self.c);
        v.extend(self.lookat);
        v.extend(self.up);
        v.push(self.dist);
        v.extend(self.mat);
        v.extend(self.norm);
        v.extend(self.grid);
        v.extend([self.pts.len() as f64, self.pix.len() as f64, self.rays.len() as f64]);
        v.extend(self.pts.iter().flatten());
        v.extend(self.pix.iter().flatten());
        v.extend(self.rays.iter().flatten());
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn decode(b: &[u8]) -> Input {
        let v: Vec<f64> = b
            .chunks(8)
            .map(|c| {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                f64::from_le_bytes(w)
            })
            .collect();
        let mut it = v.into_iter();
        let mut n = || it.next().unwrap_or(0.0);
        macro_rules! arr {
            ($n:literal) => {{
                let mut a = [0.0; $n];
                for x in a.iter_mut() {
                    *x = n();
                }
                a
            }};
        }
        let mut i = Input { f32: n() == 1.0, ..Default::default() };
        i.k = arr!(5);
        i.o = arr!(4);
        i.q = arr!(4);
        i.c = arr!(3);
        i.lookat = arr!(3);
        i.up = arr!(3);
        i.dist = n();
        i.mat = arr!(12);
        i.norm = arr!(12);
        i.grid = arr!(5);
        let (a, b, c) = (n() as usize, n() as usize, n() as usize);
        i.pts = (0..a).map(|_| arr!(3)).collect();
        i.pix = (0..b).map(|_| arr!(2)).collect();
        i.rays = (0..c).map(|_| arr!(6)).collect();
        i
    }
}
pub type Sections = Vec<(String, Vec<f64>)>;
pub fn encode_out(s: &Sections) -> Vec<u8> {
    let mut b = vec![];
    for (n, v) in s {
        b.push(n.len() as u8);
        b.extend(n.as_bytes());
        b.extend((v.len() as u32).to_le_bytes());
        for x in v {
            b.extend(x.to_le_bytes());
        }
    }
    b
}
pub fn decode_out(mut b: &[u8]) -> Sections {
    let mut s = vec![];
    while !b.is_empty() {
        let n = b[0] as usize;
        let name = String::from_utf8_lossy(&b[1..1 + n]).into_owned();
        b = &b[1 + n..];
        let k = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
        b = &b[4..];
        s.push((name, b[..8 * k].chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect()));
        b = &b[8 * k..];
    }
    s
}
