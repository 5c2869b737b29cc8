mod c08;
mod c09;
mod choice;
mod gram;
mod heap;
mod patgen;
mod props;
mod relang;
mod report;
mod run;
mod world;

use choice::Ch;
use run::*;

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn number(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map_or(default, |s| s.parse().unwrap_or_else(|_| fail(&format!("bad {name}"))))
}

pub fn fail(msg: &str) -> ! {
    eprintln!("sim: {msg}");
    std::process::exit(2)
}

/// Fixed addresses for everything the loader places, if the kernel lets us.
fn without_aslr() {
    const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let now = libc::personality(0xffff_ffff);
        if now < 0 || now as libc::c_ulong & NO_RANDOMIZE != 0 || std::env::var_os("SIM_REEXEC").is_some() {
            return;
        }
        if libc::personality(now as libc::c_ulong | NO_RANDOMIZE) < 0 {
            return;
        }
    }
    std::env::set_var("SIM_REEXEC", "1");
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
    eprintln!("sim: re-exec failed ({e}), going on");
}

fn main() {
    without_aslr();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let what = args.get(2).cloned().unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let workers = number(&args, "--workers", std::thread::available_parallelism().map_or(4, |n| n.get() as u64));
    match cmd {
        "check" => {
            let tier = args.get(3).cloned().unwrap_or_else(|| "quick".into());
            std::process::exit(report::check(&what, &tier, seed, workers, arg(&args, "--runs").and_then(|s| s.parse().ok())))
        }
        "replay" => std::process::exit(report::replay(&what)),
        "digest" => {
            // what a range of runs did, as one number: for proving determinism
            let s = report::scenario(&what);
            let b = batch(&what, s, seed, number(&args, "--first", 0), number(&args, "--runs", 1000), workers, 1e9);
            println!("{what} seed {seed}: {} runs, {} distinct, digest {:016x}", b.runs, b.hashes.len(), b.digest);
        }
        "try" => {
            let s = report::scenario(&what);
            let b = batch(&what, s, seed, 0, number(&args, "--runs", 1000), workers, 1e9);
            println!("runs {} skipped {} distinct {} nontrivial {} digest {:x} wall {:.1}", b.runs, b.skipped, b.hashes.len(), b.nontrivial.len(), b.digest, b.wall);
            for (k, v) in &b.stats {
                println!("  {k}: {v}");
            }
            for s in &b.samples {
                println!("  sample {s}");
            }
            for s in &b.harness {
                println!("  HARNESS {s}");
            }
            if let Some((i, v, rec)) = b.violation {
                println!("VIOL run {i}: {} — {} ({} choices)", v.class, v.detail, rec.len());
                let (m, e) = minimise(s, rec, &v.class, 40.0, report::min_cpu(&what));
                let o = execute(s, Ch::replay(m.clone()), true, report::cpu(&what));
                println!("minimised to {} choices in {e} runs: {:?}", m.len(), m);
                for t in o.trace {
                    println!("   {t}");
                }
                println!("{:?}", o.status);
            }
        }
        "one" => {
            init_parent();
            let s = report::scenario(&what);
            let o = execute(s, Ch::seeded(run_seed(seed, &what, number(&args, "--run", 0))), true, report::cpu(&what));
            for t in o.trace {
                println!("{t}");
            }
            println!("{:?} hash {:016x} heap {:016x}", o.status, o.hash, o.heap);
        }
        _ => fail("usage: sim check PROPERTY quick|thorough | replay FILE | digest PROPERTY | try PROPERTY | one PROPERTY --run N"),
    }
}
