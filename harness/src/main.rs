mod asm;
mod damage;
mod decoder;
mod encode;
mod galloc;
mod gen;
mod model;
mod props;
mod read;
mod runner;
mod trace;
mod util;

use runner::*;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: galloc::Guarding = galloc::Guarding;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "worker" => {
            let p = props::get(&args[2]).expect("property");
            worker_main(p.as_ref(), &PathBuf::from(&args[3]));
        }
        "check" | "replay" => {
            let p = props::get(&args[2]).expect("property");
            let exe = std::env::current_exe().unwrap();
            let envp = |k: &str, d: PathBuf| std::env::var(k).map(PathBuf::from).unwrap_or(d);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let a = CheckArgs {
                tier,
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                verif: envp("VERIF_DIR", PathBuf::from("/verif")),
                release: envp("JBKVERIF_RELEASE", exe.clone()),
                checked: envp("JBKVERIF_CHECKED", exe),
                only_group: std::env::var("JBKVERIF_GROUP").ok(),
                scale: std::env::var("JBKVERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            };
            no_core_soft();
            let code = if cmd == "check" {
                check_main(p.as_ref(), &a)
            } else {
                replay_main(p.as_ref(), &a, &PathBuf::from(&args[3]))
            };
            std::process::exit(code);
        }
        "gen" => {
            // jbkverif gen ID GROUP INDEX : print a generated case
            let p = props::get(&args[2]).expect("property");
            println!("{}", gen_case(p.as_ref(), 1, &args[3], args[4].parse().unwrap()));
        }
        other => {
            if !props::extra_command(other, &args[2..]) {
                eprintln!("usage: jbkverif check|replay|worker|gen ...");
                std::process::exit(2);
            }
        }
    }
}
