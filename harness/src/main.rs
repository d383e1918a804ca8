mod alloc;
#[macro_use]
mod ctx;
mod bnf;
mod build;
mod count;
mod gen;
mod jsonref;
mod model;
mod pathref;
mod props;
mod read;
mod sched;
mod supervise;
mod sys;

#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

use ctx::{Ctx, Tier};
use serde_json::json;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = match arg(&args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    match cmd {
        "supervise" => std::process::exit(supervise::supervise(&args[2], tier)),
        "replay" => std::process::exit(supervise::replay(&args[2])),
        "worker" => worker(&args, tier),
        "list" => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: ymc supervise <ID> --tier quick|thorough | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn worker(args: &[String], tier: Tier) {
    let id = args[2].clone();
    let num = |n: &str| arg(args, n).map(|v| v.parse::<u64>().unwrap());
    let shard = num("--shard").unwrap_or(0);
    let nshards = num("--nshards").unwrap_or(1);
    let only = num("--only");
    let upto = num("--upto");
    let prop = props::find(&id).expect("unknown property");
    let progress = match arg(args, "--progress") {
        Some(p) => {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(p).unwrap();
            sys::map_shared(&f)
        }
        None => Box::leak(Box::new(0u64)) as *mut u64,
    } as usize;
    sys::limit_memory(prop.mem_gb << 30);
    ctx::install_panic_hook();
    let states_out = arg(args, "--states");
    let t = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let mut c = Ctx::new(tier, shard, nshards, only, upto, progress as *mut u64);
            c.known = supervise::known(prop.id).into_iter().map(|k| k.0).collect();
            (prop.run)(&mut c);
            c.close_family();
            if let Some(p) = states_out {
                let dump = |suffix: &str, s: &std::collections::HashSet<u64>| {
                    let mut b = Vec::with_capacity(s.len() * 8);
                    for v in s {
                        b.extend_from_slice(&v.to_le_bytes());
                    }
                    std::fs::write(format!("{p}{suffix}"), b).unwrap();
                };
                dump("s", &c.st.states);
                dump("n", &c.st.nontrivial);
            }
            let fails: Vec<_> =
                c.fails.iter().map(|f| json!({"idx": f.idx, "desc": f.desc, "msg": f.msg})).collect();
            let fam: Vec<_> = c.families.iter().map(|(n, k)| json!([n.trim_end_matches('\0'), k])).collect();
            println!(
                "RESULT {}",
                json!({"evals": c.evals, "transitions": c.st.transitions, "outcomes": c.st.outcomes,
                       "samples": c.samples, "fails": fails, "families": fam, "known": c.known_hits})
            );
        })
        .unwrap();
    if t.join().is_err() {
        eprintln!("worker error: harness panicked outside a case");
        std::process::exit(3);
    }
}
