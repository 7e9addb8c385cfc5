// Included by every program g_*.rs.  `g_X ID TIER [--only KEY] [--replays DIR]`: decides one property by exhaustive exploration of the real code.
#[allow(dead_code)]
mod clust;
mod fw;
mod hashing;
mod measures;
mod mh;
mod par;
mod sh;
mod strindex;
mod text;

use fw::Cx;
use std::sync::atomic::{AtomicU64, Ordering};

#[global_allocator]
static ALLOC: mcstd::rt::QAlloc = mcstd::rt::QAlloc;

/// Seed of the "random" hash keys (std's RandomState): the harness owns this nondeterminism.
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);

pub fn set_seed(s: u64) {
    HASH_SEED.store(s, Ordering::SeqCst);
    let k = s.wrapping_mul(0x9E3779B97F4A7C15);
    mcstd::rt::set_hash_keys([k ^ 0xA5A5_1234_9876_0F0F, k.rotate_left(29) ^ 0x0123_4567_89AB_CDEF]);
}

fn fill(buf: *mut u8, len: usize) {
    let mut x = HASH_SEED.load(Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 32) as u8 };
    }
}
/// Replaces libc's functions for this program.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}
#[no_mangle]
pub extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    fill(buf, len);
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let id = a.get(1).cloned().unwrap_or_default();
    let thorough = a.get(2).map(|t| t == "thorough").unwrap_or(false);
    let replays = opt("--replays").unwrap_or_else(|| "/verif/replays".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    set_seed(seed);
    mcstd::rt::install_hook();
    if let Some(what) = opt("--digest") {
        // what another process computes (see fw::digests)
        println!("{}", fw::join_digest(&if what == "C06" { hashing::digest() } else { sh::digest() }));
        return;
    }
    let only = opt("--only");
    if matches!(id.as_str(), "C04" | "C15" | "C16") && only.is_none() && opt("--shard").is_none() {
        std::process::exit(sharded(&id, thorough, &replays));
    }
    let mut cx = Box::new(Cx::new(&id, thorough, seed, only));
    let shard = opt("--shard");
    if let (Some(f), Some(i)) = (&shard, opt("--index")) {
        cx.share(f, i.parse().unwrap());
    }
    let cx: &'static Cx = Box::leak(cx);
    let rd = replays.clone();
    std::thread::spawn(move || cx.watchdog(&rd));
    if !dispatch(&id, cx) {
        eprintln!("unknown property {:?}", id);
        std::process::exit(2);
    }
    if let Some(f) = shard {
        cx.dump_states(&format!("{}.{}", f, cx.shard));
    }
    std::process::exit(cx.finish(&replays));
}

/// Explorations of schedules create many threads, which does not scale within one process: several processes share the work.
fn sharded(id: &str, thorough: bool, replays: &str) -> i32 {
    use serde_json::{json, Value};
    use std::os::unix::process::ExitStatusExt;
    let n = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let file = dir.join("shared");
    std::fs::write(&file, vec![0u8; fw::SHARED * 8]).expect("shared file");
    let t0 = std::time::Instant::now();
    let kids: Vec<_> = (0..n)
        .map(|i| {
            std::process::Command::new(std::env::current_exe().unwrap())
                .args([id, if thorough { "thorough" } else { "quick" }, "--replays", replays, "--shard", file.to_str().unwrap(), "--index", &i.to_string()])
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn()
                .expect("spawn")
        })
        .collect();
    let outs: Vec<_> = kids.into_iter().map(|k| std::thread::spawn(move || k.wait_with_output().unwrap())).collect();
    let outs: Vec<_> = outs.into_iter().map(|h| h.join().unwrap()).collect();
    let mut states = std::collections::HashSet::new();
    let mut merged: Option<Value> = None;
    let mut code = 0;
    for (i, o) in outs.iter().enumerate() {
        if let Some(sig) = o.status.signal() {
            eprintln!("worker {} was ended by signal {}: {}", i, sig, String::from_utf8_lossy(&o.stderr));
            let _ = std::fs::remove_dir_all(&dir);
            extern "C" {
                fn kill(pid: i32, sig: i32) -> i32;
            }
            unsafe { kill(std::process::id() as i32, sig) };
            std::thread::sleep(std::time::Duration::from_secs(5));
            return 3;
        }
        let c = o.status.code().unwrap_or(3);
        if c != 0 {
            eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        }
        if c > 1 {
            code = c;
        } else if c == 1 && code == 0 {
            code = 1;
        }
        let Ok(v) = serde_json::from_slice::<Value>(&o.stdout) else {
            code = code.max(3);
            continue;
        };
        for h in std::fs::read(format!("{}.{}", file.display(), i)).unwrap_or_default().chunks_exact(8) {
            states.insert(u64::from_le_bytes(h.try_into().unwrap()));
        }
        match &mut merged {
            None => merged = Some(v),
            Some(m) => {
                for k in ["cases", "transitions", "traces"] {
                    m[k] = json!(m[k].as_u64().unwrap_or(0) + v[k].as_u64().unwrap_or(0));
                }
                m["violations"] = json!(m["violations"].as_u64().unwrap_or(0).max(v["violations"].as_u64().unwrap_or(0)));
                if m["replay"] == "" {
                    m["replay"] = v["replay"].clone();
                }
                m["exhaustive"] = json!(m["exhaustive"] == true && v["exhaustive"] == true);
                for x in v["notes"].as_array().cloned().unwrap_or_default() {
                    if !m["notes"].as_array().unwrap().contains(&x) {
                        m["notes"].as_array_mut().unwrap().push(x);
                    }
                }
                for x in v["samples"].as_array().cloned().unwrap_or_default() {
                    if m["samples"].as_array().unwrap().len() < 12 {
                        m["samples"].as_array_mut().unwrap().push(x);
                    }
                }
                for x in v["sections"].as_array().cloned().unwrap_or_default() {
                    let ms = m["sections"].as_array_mut().unwrap();
                    match ms.iter_mut().find(|y| y["section"] == x["section"]) {
                        Some(y) => {
                            for k in ["cases", "steps"] {
                                y[k] = json!(y[k].as_u64().unwrap_or(0) + x[k].as_u64().unwrap_or(0));
                            }
                            y["wall_s"] = json!(y["wall_s"].as_f64().unwrap_or(0.0).max(x["wall_s"].as_f64().unwrap_or(0.0)));
                        }
                        None => ms.push(x),
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut m = merged.unwrap_or_else(|| json!({}));
    m["states"] = json!(states.len());
    m["wall_s"] = json!(t0.elapsed().as_secs_f64());
    for s in m["sections"].as_array().cloned().unwrap_or_default() {
        eprintln!("  {} {}: {} cases, {} steps, {} s", id, s["section"], s["cases"], s["steps"], s["wall_s"]);
    }
    println!("{}", m);
    code
}
