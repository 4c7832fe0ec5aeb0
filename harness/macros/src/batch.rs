//! Compiles and runs generated programs: each case is a function in one of a few files, errors are
//! attributed to cases by their lines.

use serde::Deserialize;
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Deserialize)]
pub struct Out {
    pub scoped: Option<String>,
    pub global: Option<String>,
    pub value: Option<bool>,
}

#[derive(Debug, Clone)]
pub enum Outcome {
    /// Does not compile.
    Rejected(String),
    Panicked(String),
    /// Compiles (and was not run).
    Accepted,
    Outputs(Vec<Out>),
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Run,
    Check,
}

/// The source of one case.
#[derive(Clone)]
pub struct Code {
    /// Items next to the function.
    pub items: String,
    /// An expression of type `Vec<Box<dyn Emit>>`.
    pub body: String,
}

pub struct Rustc {
    dir: PathBuf,
    deps: PathBuf,
    stylist: PathBuf,
    support: PathBuf,
    n: AtomicUsize,
}

fn newest(dir: &Path, prefix: &str, suffix: &str) -> Option<PathBuf> {
    std::fs::read_dir(dir)
        .ok()?
        .flatten()
        .map(|e| e.path())
        .filter(|p| {
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            n.starts_with(prefix) && n.ends_with(suffix)
        })
        .max_by_key(|p| p.metadata().and_then(|m| m.modified()).ok())
}

impl Drop for Rustc {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

struct File {
    cases: Vec<usize>,
}

impl Rustc {
    pub fn new(root: &Path) -> Result<Rustc, String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let deps = exe.parent().unwrap().join("deps");
        let lib = |p: &str| newest(&deps, p, ".rlib").ok_or(format!("no {p} in {}", deps.display()));
        let stylist = lib("libstylist.")
            .or_else(|_| lib("libstylist-"))?;
        let support = lib("libvmacrosupport-")?;
        let dir = root.join(".build").join("work").join(format!("macros-{}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        Ok(Rustc {
            dir,
            deps,
            stylist,
            support,
            n: AtomicUsize::new(0),
        })
    }

    /// What becomes of each case.
    pub fn eval(&self, codes: &[Code], mode: Mode) -> Result<Vec<Outcome>, String> {
        let files = codes.len().clamp(1, 8);
        let mut parts: Vec<Vec<usize>> = vec![vec![]; files];
        for i in 0..codes.len() {
            parts[i % files].push(i);
        }
        let results: Vec<Result<BTreeMap<usize, Outcome>, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = parts
                .into_iter()
                .map(|cases| s.spawn(move || self.part(codes, cases, mode)))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut all = BTreeMap::new();
        for r in results {
            all.extend(r?);
        }
        (0..codes.len())
            .map(|i| all.remove(&i).ok_or_else(|| format!("no outcome for case {i}")))
            .collect()
    }

    fn part(&self, codes: &[Code], cases: Vec<usize>, mode: Mode) -> Result<BTreeMap<usize, Outcome>, String> {
        let mut out = BTreeMap::new();
        let mut file = File { cases };
        // Errors of one phase of the compiler hide those of the next.
        for _ in 0..8 {
            if file.cases.is_empty() {
                return Ok(out);
            }
            let k = self.n.fetch_add(1, Ordering::SeqCst);
            let src = self.dir.join(format!("p{k}.rs"));
            let bin = self.dir.join(format!("p{k}"));
            let mut text = String::from("#![allow(warnings)]\n");
            let mut lines: Vec<(usize, usize, usize)> = vec![];
            for &i in &file.cases {
                let start = text.matches('\n').count() + 1;
                let _ = writeln!(
                    text,
                    "mod case_{i} {{\nuse vmacrosupport::Emit;\n{}\npub fn case() -> ::std::vec::Vec<::std::boxed::Box<dyn Emit>> {{\n{}\n}}\n}}",
                    codes[i].items, codes[i].body
                );
                let end = text.matches('\n').count();
                lines.push((start, end, i));
            }
            text.push_str("fn main() {\n");
            for &i in &file.cases {
                let _ = writeln!(text, "vmacrosupport::emit({i}, case_{i}::case);");
            }
            text.push_str("}\n");
            std::fs::write(&src, &text).map_err(|e| e.to_string())?;
            let mut cmd = Command::new("rustc");
            cmd.args(["--edition", "2021", "--error-format=json", "--crate-name", "cases", "-Cdebuginfo=0"])
                .args(["-Coverflow-checks=on", "-Cdebug-assertions=on", "-Cincremental="])
                .arg("-L")
                .arg(format!("dependency={}", self.deps.display()))
                .arg("--extern")
                .arg(format!("stylist={}", self.stylist.display()))
                .arg("--extern")
                .arg(format!("vmacrosupport={}", self.support.display()))
                .arg("-o")
                .arg(&bin)
                .arg(&src)
                .current_dir(&self.dir)
                .stdin(Stdio::null());
            if mode == Mode::Check {
                cmd.arg("--emit=metadata");
            }
            let o = cmd.output().map_err(|e| format!("rustc: {e}"))?;
            let result = if o.status.success() {
                if mode == Mode::Check {
                    for &i in &file.cases {
                        out.insert(i, Outcome::Accepted);
                    }
                } else {
                    self.run(&bin, &file.cases, &mut out)?;
                }
                Ok(true)
            } else {
                let err = String::from_utf8_lossy(&o.stderr);
                let name = src.display().to_string();
                let mut bad: BTreeMap<usize, String> = BTreeMap::new();
                let mut stray = vec![];
                for l in err.lines() {
                    let Ok(v) = serde_json::from_str::<Value>(l) else {
                        stray.push(l.to_string());
                        continue;
                    };
                    if v["level"] != "error" && v["level"] != "error: internal compiler error" {
                        continue;
                    }
                    let msg = v["message"].as_str().unwrap_or("").to_string();
                    let mut hit = false;
                    for sp in v["spans"].as_array().into_iter().flatten() {
                        let mut sp = sp.clone();
                        while !sp["file_name"].as_str().is_some_and(|f| name.ends_with(f) || f == name) {
                            sp = sp["expansion"]["span"].clone();
                            if sp.is_null() {
                                break;
                            }
                        }
                        if let Some(line) = sp["line_start"].as_u64() {
                            if let Some(&(_, _, i)) =
                                lines.iter().find(|(a, b, _)| (*a as u64..=*b as u64).contains(&line))
                            {
                                bad.entry(i).or_insert_with(|| msg.clone());
                                hit = true;
                                break;
                            }
                        }
                    }
                    if !hit && !msg.starts_with("aborting due to") {
                        stray.push(msg);
                    }
                }
                if bad.is_empty() {
                    Err(format!("generated programs do not compile: {}", stray.join(" / ")))
                } else {
                    file.cases.retain(|i| !bad.contains_key(i));
                    for (i, m) in bad {
                        out.insert(i, Outcome::Rejected(m));
                    }
                    Ok(false)
                }
            };
            if std::env::var_os("VERIF_KEEP").is_none() {
                let _ = std::fs::remove_file(&src);
            }
            let _ = std::fs::remove_file(&bin);
            if result? {
                return Ok(out);
            }
        }
        Err("generated programs still do not compile".into())
    }

    fn run(&self, bin: &Path, cases: &[usize], out: &mut BTreeMap<usize, Outcome>) -> Result<(), String> {
        let log = bin.with_extension("out");
        let f = std::fs::File::create(&log).map_err(|e| e.to_string())?;
        let mut child = Command::new(bin)
            .stdin(Stdio::null())
            .stdout(f)
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let t = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
                break s;
            }
            if t.elapsed() > Duration::from_secs(120) {
                let _ = child.kill();
                let _ = child.wait();
                return Err("a generated program did not end".into());
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let text = std::fs::read_to_string(&log).map_err(|e| e.to_string())?;
        let _ = std::fs::remove_file(&log);
        for l in text.lines() {
            let v: Value = serde_json::from_str(l).map_err(|e| format!("output: {e}"))?;
            let i = v["id"].as_u64().ok_or("output without a case")? as usize;
            let o = if let Some(p) = v.get("panic") {
                Outcome::Panicked(p.as_str().unwrap_or("").to_string())
            } else {
                Outcome::Outputs(serde_json::from_value(v["outputs"].clone()).map_err(|e| e.to_string())?)
            };
            out.insert(i, o);
        }
        if let Some(i) = cases.iter().find(|i| !out.contains_key(i)) {
            // It ended in the middle of a case, which is that case's doing.
            out.insert(*i, Outcome::Panicked(format!("the program ended with {status}")));
            if cases.iter().any(|i| !out.contains_key(i)) {
                return Err(format!("a generated program ended with {status}"));
            }
        }
        Ok(())
    }
}

/// A Rust string literal for `s`.
pub fn lit(s: &str, raw: bool) -> String {
    let plain = s.chars().all(|c| c.is_ascii() && (c == '\n' || c == '\t' || !c.is_control()));
    if raw && plain && !s.contains("\"###") {
        format!("r###\"{s}\"###")
    } else {
        format!("{s:?}")
    }
}
