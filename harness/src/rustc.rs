//! Compiling generated programs against the tree under test.

use std::path::PathBuf;
use std::process::{Command, Stdio};

pub struct Rustc {
    deps: PathBuf,
    aoc: PathBuf,
    bigint: PathBuf,
    dir: PathBuf,
}

pub enum Outcome {
    Ran(String),
    DoesNotCompile(String),
    Died(String),
}

impl Drop for Rustc {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

impl Rustc {
    /// Ask cargo where the library is.
    pub fn find() -> Result<Rustc, String> {
        let root: PathBuf = std::env::var("VERIF_ROOT").unwrap_or("/verif".into()).into();
        let out = Command::new("cargo")
            .args(["build", "--offline", "--locked", "-p", "aoc-parse", "-p", "num-bigint", "--message-format=json"])
            .current_dir(root.join("harness"))
            .env("CARGO_TARGET_DIR", root.join("target"))
            .stderr(Stdio::piped())
            .output()
            .map_err(|e| format!("cannot run cargo: {e}"))?;
        if !out.status.success() {
            return Err(format!("cargo: {}", String::from_utf8_lossy(&out.stderr)));
        }
        let mut aoc = None;
        let mut bigint = None;
        for l in String::from_utf8_lossy(&out.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else {
                continue;
            };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let rlib = v["filenames"].as_array().and_then(|a| {
                a.iter()
                    .filter_map(|f| f.as_str())
                    .find(|f| f.ends_with(".rlib"))
                    .map(PathBuf::from)
            });
            match v["target"]["name"].as_str() {
                Some("aoc_parse" | "aoc-parse") => aoc = rlib,
                Some("num_bigint" | "num-bigint") => bigint = rlib,
                _ => {}
            }
        }
        let aoc = aoc.ok_or("cargo does not say where the aoc-parse library is")?;
        let bigint = bigint.ok_or("cargo does not say where num-bigint is")?;
        let deps = root.join("target/debug/deps");
        static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let dir = root.join("work").join(format!("programs-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let rc = Rustc { deps, aoc, bigint, dir };
        // If not even this works there is no point in going on.
        match rc.build_and_run(
            "hello",
            "use aoc_parse::{parser, prelude::*}; fn main() { let p = parser!(u8 \"a\"); println!(\"{:?}\", p.parse(\"1a\").unwrap()); }",
            60,
        )? {
            Outcome::Ran(s) if s.trim() == "1" => Ok(rc),
            Outcome::Ran(s) => Err(format!("the first program prints {s:?}")),
            Outcome::DoesNotCompile(e) | Outcome::Died(e) => Err(format!("the first program fails: {e}")),
        }
    }

    /// For a program that may say in its first line which edition it is for.
    fn command(&self, src: &PathBuf, source: &str) -> Command {
        let edition = match source.strip_prefix("// edition ") {
            Some(s) => &s[..4],
            None => "2021",
        };
        let mut c = Command::new("rustc");
        c.arg(src)
            .args(["--edition", edition, "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "codegen-units=1"])
            .arg("-L")
            .arg(format!("dependency={}", self.deps.display()))
            .arg("--extern")
            .arg(format!("aoc_parse={}", self.aoc.display()))
            .arg("--extern")
            .arg(format!("num_bigint={}", self.bigint.display()))
            .current_dir(&self.dir)
            .stdin(Stdio::null());
        c
    }

    /// The errors of a program that need not be runnable, as JSON messages.
    pub fn check(&self, name: &str, source: &str) -> Result<Result<(), String>, String> {
        let src = self.dir.join(format!("{name}.rs"));
        std::fs::write(&src, source).map_err(|e| e.to_string())?;
        let out = self
            .command(&src, source)
            .args(["--emit=metadata", "--crate-name", &format!("n{name}"), "--crate-type", "lib"])
            .arg("-o")
            .arg(self.dir.join(format!("{name}.rmeta")))
            .output()
            .map_err(|e| format!("cannot run rustc: {e}"))?;
        let _ = std::fs::remove_file(&src);
        let _ = std::fs::remove_file(self.dir.join(format!("{name}.rmeta")));
        match out.status.code() {
            Some(0) => Ok(Ok(())),
            Some(1) => Ok(Err(String::from_utf8_lossy(&out.stderr).into_owned())),
            c => Err(format!("rustc ends with {c:?}: {}", String::from_utf8_lossy(&out.stderr))),
        }
    }

    pub fn build_and_run(&self, name: &str, source: &str, seconds: u64) -> Result<Outcome, String> {
        let src = self.dir.join(format!("{name}.rs"));
        let exe = self.dir.join(name);
        std::fs::write(&src, source).map_err(|e| e.to_string())?;
        let out = self
            .command(&src, source)
            .args(["--crate-name", name, "-o"])
            .arg(&exe)
            .output()
            .map_err(|e| format!("cannot run rustc: {e}"))?;
        let _ = std::fs::remove_file(&src);
        match out.status.code() {
            Some(0) => {}
            Some(1) => {
                return Ok(Outcome::DoesNotCompile(
                    String::from_utf8_lossy(&out.stderr).into_owned(),
                ))
            }
            c => return Err(format!("rustc ends with {c:?}: {}", String::from_utf8_lossy(&out.stderr))),
        }
        let log = self.dir.join(format!("{name}.out"));
        let file = std::fs::File::create(&log).map_err(|e| e.to_string())?;
        let mut child = Command::new(&exe)
            .stdin(Stdio::null())
            .stdout(file)
            .stderr(Stdio::null())
            .current_dir(&self.dir)
            .spawn()
            .map_err(|e| format!("cannot start a program: {e}"))?;
        let started = std::time::Instant::now();
        let status = loop {
            match child.try_wait().map_err(|e| e.to_string())? {
                Some(s) => break Some(s),
                None if started.elapsed().as_secs() > seconds => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                None => std::thread::sleep(std::time::Duration::from_millis(2)),
            }
        };
        let text = std::fs::read_to_string(&log).unwrap_or_default();
        let _ = std::fs::remove_file(&log);
        let _ = std::fs::remove_file(&exe);
        Ok(match status {
            None => Outcome::Died(format!("still running after {seconds} s")),
            Some(s) if s.success() => Outcome::Ran(text),
            Some(s) => Outcome::Died(format!("{s}")),
        })
    }
}
