//! Runs histories of edits and commands with the real command line (JSON lines on stdin) and
//! reports what they leave behind (JSON lines on stdout).
//!
//! Usage: vcli SCRATCH_DIR STUART
//!
//! A case is {id, steps}.  Each case has a directory of its own, removed afterwards; the path
//! `@` in arguments and environment stands for it.  Steps:
//!   {op: "files", files: [{p, s|x, at, dir, rm, mode, link}]}  edits, relative to the case's directory
//!                                                     (with at, `@` stands for it in s as well)
//!   {op: "cli", args, cwd, env, timeout}              runs the command
//!   {op: "snap", dir, skip: [names]}                  every file and directory below dir
//! In names and in the environment, the characters U+F780..U+F7FF stand for the bytes 80..FF.

use serde_json::{json, Value as J};

use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::io::{BufRead, Read, Write};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn bytes(v: &J) -> Vec<u8> {
    if let Some(s) = v["s"].as_str() {
        s.as_bytes().to_vec()
    } else if let Some(x) = v["x"].as_str() {
        (0..x.len() / 2)
            .map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap())
            .collect()
    } else {
        vec![]
    }
}

fn text(b: Vec<u8>) -> J {
    match String::from_utf8(b) {
        Ok(s) => J::String(s),
        Err(e) => {
            let x: String = e.into_bytes().iter().map(|b| format!("{:02x}", b)).collect();
            json!({ "x": x })
        }
    }
}

/// A name which need not be UTF-8.
fn os(s: &str) -> OsString {
    let mut b = vec![];
    for c in s.chars() {
        match c as u32 {
            n @ 0xf780..=0xf7ff => b.push((n - 0xf700) as u8),
            _ => b.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    OsString::from_vec(b)
}

fn name(p: &Path) -> String {
    let mut s = String::new();
    for c in p.as_os_str().as_bytes().utf8_chunks() {
        s.push_str(c.valid());
        s.extend(c.invalid().iter().map(|b| char::from_u32(0xf700 + *b as u32).unwrap()));
    }
    s
}

fn remove(p: &Path) {
    match fs::symlink_metadata(p) {
        Ok(m) if m.is_dir() => fs::remove_dir_all(p).expect("rm"),
        Ok(_) => fs::remove_file(p).expect("rm"),
        Err(_) => (),
    }
}

fn apply(root: &Path, f: &J) {
    let path = root.join(os(f["p"].as_str().unwrap()));
    let on = |k: &str| f[k].as_bool() == Some(true);
    if on("rm") {
        return remove(&path);
    }
    if on("dir") {
        if !path.is_dir() {
            remove(&path);
        }
        return fs::create_dir_all(&path).expect("mkdir");
    }
    // Never written through a link: what is behind it belongs to other cases.
    if f["link"].is_string() || path.is_dir() || path.is_symlink() {
        remove(&path);
    }
    // Files which stand where a directory is needed give way.
    let mut p = root.to_path_buf();
    for c in path.parent().unwrap().strip_prefix(root).unwrap().components() {
        p.push(c);
        if p.exists() && !p.is_dir() {
            remove(&p);
        }
    }
    fs::create_dir_all(path.parent().unwrap()).expect("mkdir");
    if let Some(to) = f["link"].as_str() {
        return std::os::unix::fs::symlink(to.replace('@', &root.to_string_lossy()), &path).expect("link");
    }
    let mut contents = bytes(f);
    if on("at") {
        contents = String::from_utf8(contents).expect("text").replace('@', &root.to_string_lossy()).into_bytes();
    }
    fs::write(&path, contents).expect("write");
    if let Some(m) = f["mode"].as_u64() {
        fs::set_permissions(&path, fs::Permissions::from_mode(m as u32)).expect("chmod");
    }
}

fn snapshot(case: &str, root: &Path, dir: &Path, skip: &[&str], out: &mut Vec<J>) {
    let mut entries: Vec<_> = match fs::read_dir(dir) {
        Ok(d) => d.flatten().map(|e| e.path()).collect(),
        Err(_) => return,
    };
    entries.sort();
    for p in entries {
        let rel = name(p.strip_prefix(root).unwrap());
        let link = fs::symlink_metadata(&p).map(|m| m.file_type().is_symlink()).unwrap_or(false);
        if link {
            out.push(json!([rel, {"link": fs::read_link(&p).unwrap_or_default().to_string_lossy().replace(case, "@")}]));
        } else if p.is_dir() {
            out.push(json!([rel, J::Null]));
            if !skip.contains(&&*p.file_name().unwrap().to_string_lossy()) {
                snapshot(case, root, &p, skip, out);
            }
        } else {
            out.push(json!([rel, text(fs::read(&p).unwrap_or_default())]));
        }
    }
}

fn cut(b: Vec<u8>) -> String {
    let s = String::from_utf8_lossy(&b).to_string();
    if s.len() > 4000 { s.chars().take(4000).collect() } else { s }
}

fn cli(exe: &str, root: &Path, step: &J) -> J {
    let at = root.to_string_lossy().to_string();
    let sub = |s: &str| s.replace('@', &at);
    let mut c = Command::new(exe);
    for a in step["args"].as_array().unwrap() {
        c.arg(sub(a.as_str().unwrap()));
    }
    c.current_dir(root.join(step["cwd"].as_str().unwrap_or(".")));
    c.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", root).env("GIT_CONFIG_NOSYSTEM", "1").env("LC_ALL", "C.UTF-8");
    if let Some(env) = step["env"].as_object() {
        for (k, v) in env {
            c.env(os(k), os(&sub(v.as_str().unwrap())));
        }
    }
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = c.spawn().expect("spawn");
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let to = std::thread::spawn(move || {
        let mut b = vec![];
        o.read_to_end(&mut b).ok();
        b
    });
    let te = std::thread::spawn(move || {
        let mut b = vec![];
        e.read_to_end(&mut b).ok();
        b
    });
    let limit = Duration::from_secs(step["timeout"].as_u64().unwrap_or(15));
    let start = Instant::now();
    let mut wait = Duration::from_micros(300);
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break Some(s),
            None if start.elapsed() > limit => {
                child.kill().ok();
                child.wait().ok();
                break None;
            }
            None => std::thread::sleep(wait),
        }
        wait = (wait * 2).min(Duration::from_millis(5));
    };
    let (o, e) = (cut(to.join().unwrap()), cut(te.join().unwrap()));
    json!({
        "ok": status.map(|s| s.success()).unwrap_or(false),
        "code": status.and_then(|s| s.code()),
        "hang": status.is_none(),
        "out": o.replace(&at, "@"), "err": e.replace(&at, "@"),
    })
}

fn main() {
    let scratch = PathBuf::from(std::env::args().nth(1).expect("scratch directory")).canonicalize().expect("scratch");
    let exe = std::env::args().nth(2).expect("stuart");
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout().lock();
    let empty = vec![];
    for (n, line) in stdin.lock().lines().enumerate() {
        let case: J = serde_json::from_str(&line.unwrap()).expect("harness: case");
        let root = scratch.join(format!("c{}", n));
        fs::create_dir_all(&root).expect("harness: mkdir");
        let mut steps = vec![];
        for step in case["steps"].as_array().unwrap() {
            steps.push(match step["op"].as_str().unwrap() {
                "files" => {
                    for f in step["files"].as_array().unwrap_or(&empty) {
                        apply(&root, f);
                    }
                    J::Null
                }
                "cli" => cli(&exe, &root, step),
                "snap" => {
                    let dir = root.join(step["dir"].as_str().unwrap_or("."));
                    let skip: Vec<&str> = step["skip"].as_array().unwrap_or(&empty).iter().map(|s| s.as_str().unwrap()).collect();
                    let mut out = vec![];
                    snapshot(&root.to_string_lossy(), &dir, &dir, &skip, &mut out);
                    J::Array(out)
                }
                _ => panic!("harness: unknown op"),
            });
        }
        fs::remove_dir_all(&root).ok();
        writeln!(stdout, "{}", json!({"id": case["id"], "steps": steps})).unwrap();
        stdout.flush().unwrap();
    }
}
