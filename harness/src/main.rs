mod alloc;
mod conv;
mod core;
mod p_block;
mod p_codec;
mod p_engine;
mod p_ffi;
mod p_ffis;
mod p_grpc;
mod p_parse;
mod p_proxy;
mod p_quic;
mod p_quicl;
mod p_tls;
mod p_tquic;
mod p_trans;
mod p_thread;
mod p_tokio;
#[allow(warnings)]
mod proxies;
mod quicnet;
mod refcodec;
mod sim;
mod simnet;
mod vclock;

use crate::core::Property;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
use std::path::PathBuf;

fn props() -> Vec<Property> {
    vec![
        p_block::b01(),
        p_thread::b02(),
        p_codec::c01(),
        p_codec::c02(),
        p_parse::c03(),
        p_parse::c04(),
        p_parse::c05(),
        p_parse::c06(),
        p_parse::c07(),
        p_engine::e01(),
        p_engine::e02(),
        p_engine::e03(),
        p_engine::e04(),
        p_engine::e05(),
        p_engine::e06(),
        p_engine::e07(),
        p_engine::e08(),
        p_engine::e09(),
        p_engine::e10(),
        p_engine::e11(),
        p_engine::e12(),
        p_engine::e13(),
        p_engine::e14(),
        p_engine::s01(),
        p_grpc::g01(),
        p_proxy::g02(),
        p_tls::x01(),
        p_quic::x02(),
        p_quicl::x03(),
        p_ffi::f01(),
        p_ffis::f02(),
        p_trans::x04(),
        p_tquic::q01(),
        p_tokio::t01(),
        p_tokio::t02(),
    ]
}

fn limit_memory() {
    // an endless allocation must end this process, not the machine
    let l = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

/// Runs the check in a child process. If the child is killed (stack overflow,
/// out of memory, a fault in unsafe code), the case that does it is found by
/// running the cases that were in progress one by one.
fn supervise(p: &Property, thorough: bool, seed: u64, root: PathBuf) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap();
    let dir = root.join("build/run");
    let _ = std::fs::create_dir_all(&dir);
    let cur = dir.join(format!("{}.{}", p.id, std::process::id()));
    let _ = std::fs::write(&cur, b"");
    let tier = if thorough { "thorough" } else { "quick" };
    let st = Command::new(&exe)
        .args(["inner", p.id, "--tier", tier, "--seed", &seed.to_string()])
        .env("VH_CURRENT", &cur)
        .env("VERIF_ROOT", &root)
        .status();
    let text = std::fs::read_to_string(&cur).unwrap_or_default();
    let _ = std::fs::remove_file(&cur);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR cannot start the check: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        return c;
    }
    eprintln!("the check was killed by signal {:?}", st.signal());
    for line in text.lines() {
        let f: Vec<&str> = line.trim().split('\t').collect();
        let mut c = Command::new(&exe);
        c.env("VERIF_ROOT", &root).stdout(Stdio::null()).stderr(Stdio::null());
        match f.as_slice() {
            ["case", sub, i] => {
                c.args(["one", p.id, sub, i, "--tier", tier, "--seed", &seed.to_string()]);
            }
            ["file", path] => {
                c.args(["replay", path]);
            }
            _ => continue,
        }
        let Ok(s) = c.status() else { continue };
        let Some(sg) = s.signal() else { continue };
        let path = match f.as_slice() {
            ["case", sub, i] => core::save_case(p, &root, sub, i.parse().unwrap_or(0), thorough, seed, "process-killed"),
            _ => f[1].to_string(),
        };
        println!("  [{}] process-killed: this case ends the process with signal {sg}", f[1]);
        println!("VIOLATION property={} replay={path}", p.id);
        return 1;
    }
    eprintln!("ERROR no single case explains it");
    2
}

fn main() {
    match std::env::var("VH_PROXY").as_deref() {
        Ok("r") => std::process::exit(proxies::r::entry()),
        Ok("s") => std::process::exit(proxies::s::entry()),
        _ => {}
    }
    core::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let all = props();
    let prop = a.get(2).and_then(|id| all.iter().find(|p| p.id == id));
    let code = match (a.get(1).map(|s| s.as_str()), prop) {
        (Some("list"), _) => {
            for p in &all {
                println!("{}", p.id);
            }
            0
        }
        (Some("check"), Some(p)) => supervise(p, thorough, seed, root),
        (Some("inner"), Some(p)) => {
            limit_memory();
            if let Ok(f) = std::env::var("VH_CURRENT") {
                if let Ok(f) = std::fs::OpenOptions::new().write(true).open(f) {
                    let _ = core::CURRENT.set(f);
                }
            }
            core::run_property(p, thorough, seed, root)
        }
        (Some("one"), Some(p)) => {
            limit_memory();
            core::run_one(p, &a[3], a[4].parse().unwrap_or(0), thorough, seed);
            0
        }
        (Some("replay"), _) if a.len() > 2 => {
            limit_memory();
            core::replay_file(&all, &a[2])
        }
        _ => {
            eprintln!("usage: vh check <id> [--tier quick|thorough] [--seed N] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
