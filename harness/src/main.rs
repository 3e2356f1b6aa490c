#[macro_use]
#[allow(unused_imports)]
extern crate adapton;

#[macro_use]
mod fw;
mod engs;
mod lang;
mod p_core;
mod p_cyc;
mod p_draw;
mod p_list;
mod p_map;
mod p_names;
mod p_ns;
mod p_pipe;
mod p_art;
mod p_bits;
mod p_forms;
mod p_lmap;
mod p_trie;
mod p_reflect;
mod p_scale;
mod p_shared;
mod p_struct;
mod p_tree;
mod p_work;
mod sess;

use std::path::PathBuf;

fn props() -> Vec<fw::Prop> {
    let mut v = vec![];
    v.extend(p_core::props());
    v.extend(p_names::props());
    v.extend(p_reflect::props());
    v.extend(p_cyc::props());
    v.extend(p_map::props());
    v.extend(p_ns::props());
    v.extend(p_list::props());
    v.extend(p_tree::props());
    v.extend(p_bits::props());
    v.extend(p_art::props());
    v.extend(p_forms::props());
    v.extend(p_lmap::props());
    v.extend(p_trie::props());
    v.extend(p_pipe::props());
    v.extend(p_work::props());
    v.extend(p_draw::props());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    fw::install_hook();
    let usage = "usage: vh run ID | worker .. | one ID FILE | replay ID FILE | list";
    let cmd = args.get(1).expect(usage).as_str();
    let all = props();
    if cmd == "list" {
        for p in &all {
            println!("{}", p.id)
        }
        return;
    }
    let id = args.get(2).expect(usage);
    let p = all.iter().find(|p| p.id == id).expect("unknown property");
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    // What the engine writes where it runs belongs in the scratch directory.
    if let ("worker", Ok(d)) | ("one", Ok(d)) = (cmd, std::env::var("VH_SCRATCH")) {
        if args[3..].iter().all(|a| std::path::Path::new(a).is_absolute() || a.parse::<u64>().is_ok()) {
            let _ = std::env::set_current_dir(d);
        }
    }
    let code = match cmd {
        "worker" => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            fw::worker(p, n(3), n(4), n(5), n(6), &PathBuf::from(&args[7]));
            0
        }
        "one" => fw::one_from_file(p, &PathBuf::from(&args[3])),
        "replay" => fw::replay(p, &p_forms::probes(), &PathBuf::from(&args[3])),
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
            let scratch = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
            std::fs::create_dir_all(&scratch).unwrap();
            let c = fw::check(p, &p_forms::probes(), &tier, seed, &verif, &scratch);
            let _ = std::fs::remove_dir_all(&scratch);
            c
        }
        _ => panic!("{}", usage),
    };
    std::process::exit(code)
}
