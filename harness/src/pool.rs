//! Worker processes: one build of /verif/worker per feature configuration.
use crate::driver::{verif_dir, INFRA};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};

#[path = "../../worker/src/proto.rs"]
#[allow(dead_code)]
pub mod proto;
use proto::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Config {
    pub name: &'static str,
    pub features: &'static str,
    pub release: bool,
}
const fn cfg(name: &'static str, features: &'static str, release: bool) -> Config {
    Config { name, features, release }
}
// (alloc + serde-serialize without std does not exist: nalgebra 0.33 itself
// does not compile with those features)
pub const QUICK: [Config; 7] = [
    cfg("std", "std", true),
    cfg("none", "", true),
    cfg("alloc", "alloc", true),
    cfg("serde", "serde", true),
    cfg("std+serde", "std serde", true),
    cfg("none, debug", "", false),
    cfg("std+serde, debug", "std serde", false),
];
pub const ALL: [Config; 10] = [
    QUICK[0],
    QUICK[1],
    QUICK[2],
    QUICK[3],
    QUICK[4],
    QUICK[5],
    QUICK[6],
    cfg("std, debug", "std", false),
    cfg("alloc, debug", "alloc", false),
    cfg("serde, debug", "serde", false),
];
impl Config {
    fn dir(&self) -> PathBuf {
        verif_dir().join("target").join(format!("w-{}", self.features.replace(' ', "-")))
    }
    fn bin(&self) -> PathBuf {
        self.dir().join(if self.release { "release" } else { "debug" }).join("camworker")
    }
}
#[derive(Debug)]
pub enum BuildError {
    /// the crate itself does not compile in this configuration
    Library(&'static str, String),
    Other(String),
}
/// Build the workers from the current tree, in parallel.
pub fn build(cfgs: &[Config]) -> Result<(), BuildError> {
    let dirs: std::collections::BTreeSet<PathBuf> = cfgs.iter().map(|c| c.dir()).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = dirs
            .iter()
            .map(|d| {
                s.spawn(move || {
                    for c in cfgs.iter().filter(|c| c.dir() == *d) {
                        build_one(c)?
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<()>, _>>().map(|_| ())
    })
}
fn build_one(c: &Config) -> Result<(), BuildError> {
    let run = |args: &[&str]| {
        Command::new("cargo")
            .current_dir(verif_dir().join("worker"))
            .env("CARGO_TARGET_DIR", c.dir())
            .args(args)
            .stdin(Stdio::null())
            .output()
            .map_err(|e| BuildError::Other(format!("{INFRA}cargo: {e}")))
    };
    let mut clean = vec!["clean", "--offline", "-p", "cam-geom"];
    let mut b = vec!["build", "--offline", "--features", c.features];
    if c.release {
        clean.push("--release");
        b.push("--release");
    }
    run(&clean)?;
    let _ = std::fs::remove_file(c.bin());
    let o = run(&b)?;
    if o.status.success() && c.bin().exists() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if err.contains("could not compile `cam-geom`") {
        let e: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).take(6).collect();
        return Err(BuildError::Library(c.name, e.join("; ")));
    }
    Err(BuildError::Other(format!("{INFRA}worker build ({}): {err}", c.name)))
}
/// Build /verif/bare, a program without std (and, without the feature `alloc`,
/// without a heap), against the current tree.
pub fn build_bare() -> Result<(), BuildError> {
    let dir = verif_dir().join("target").join("bare");
    for (name, features) in [("none", ""), ("alloc", "alloc")] {
        let run = |args: &[&str]| {
            Command::new("cargo")
                .current_dir(verif_dir().join("bare"))
                .env("CARGO_TARGET_DIR", &dir)
                .args(args)
                .stdin(Stdio::null())
                .output()
                .map_err(|e| BuildError::Other(format!("{INFRA}cargo: {e}")))
        };
        run(&["clean", "--offline", "-p", "cam-geom"])?;
        let o = run(&["build", "--offline", "--features", features])?;
        if o.status.success() {
            continue;
        }
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let e: Vec<&str> = err.lines().filter(|l| l.starts_with("error")).take(6).collect();
        if err.contains("could not compile `cam-geom`") {
            return Err(BuildError::Library(name, e.join("; ")));
        }
        if err.contains("panic_impl") {
            return Err(BuildError::Library(name, format!("it needs std where the std feature is off: {}", e.join("; "))));
        }
        if err.contains("no global memory allocator") {
            return Err(BuildError::Library(name, format!("it needs a heap: {}", e.join("; "))));
        }
        return Err(BuildError::Other(format!("{INFRA}bare build ({name}): {err}")));
    }
    Ok(())
}

pub struct Worker {
    pub cfg: Config,
    child: Child,
}
impl Worker {
    pub fn spawn(cfg: Config) -> Result<Worker, String> {
        let child = Command::new(cfg.bin())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{INFRA}{}: {e}", cfg.bin().display()))?;
        Ok(Worker { cfg, child })
    }
    pub fn send(&mut self, b: &[u8]) -> std::io::Result<()> {
        let i = self.child.stdin.as_mut().unwrap();
        let mut f = (b.len() as u32).to_le_bytes().to_vec();
        f.extend(b);
        i.write_all(&f)?;
        i.flush()
    }
    /// None: the worker died
    pub fn recv(&mut self) -> Option<Sections> {
        let o = self.child.stdout.as_mut().unwrap();
        let mut l = [0u8; 4];
        o.read_exact(&mut l).ok()?;
        let mut b = vec![0; u32::from_le_bytes(l) as usize];
        o.read_exact(&mut b).ok()?;
        Some(decode_out(&b))
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// One set of workers per thread, restarted if one died.
#[derive(Default)]
pub struct Pool(Vec<Worker>);
impl Pool {
    /// The results of all configurations; Err names the one that died.
    pub fn ask(&mut self, cfgs: &[Config], i: &Input) -> Result<Vec<Sections>, String> {
        if self.0.len() != cfgs.len() {
            self.0.clear();
            for c in cfgs {
                self.0.push(Worker::spawn(*c)?);
            }
        }
        let b = i.encode();
        let mut dead = None;
        for w in &mut self.0 {
            if w.send(&b).is_err() {
                dead = Some(w.cfg.name);
            }
        }
        let mut r = vec![];
        for w in &mut self.0 {
            match w.recv() {
                Some(s) => r.push(s),
                None => dead = Some(w.cfg.name),
            }
        }
        if let Some(d) = dead {
            self.0.clear();
            return Err(format!("the process of configuration \"{d}\" ended abruptly"));
        }
        Ok(r)
    }
}
