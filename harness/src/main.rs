mod alloc;
mod cfg;
mod ctx;
mod gen;
mod io;
mod mill;
mod model;
mod props;
mod race;
mod rng;
mod sup;
mod unidata;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 3 => sup::check(&a[2]),
        Some("list") => {
            for i in props::ids() {
                println!("{}", i);
            }
            0
        }
        // the outcome of loading one file as a configuration, in a process that may die of it
        Some("load") if a.len() == 3 => {
            alloc::set_cap(1 << 30);
            println!("{}", if chanoma::Chanoma::from_config_file(&a[2]).is_ok() { "loaded" } else { "refused" });
            0
        }
        Some("digest") if a.len() == 6 => props::repeat::main(&a[2..]),
        Some("scale") if a.len() == 8 => props::growth::main(&a[2..]),
        Some("effects") if a.len() == 5 => props::effects::main(&a[2..]),
        Some("mill") if a.len() == 7 => mill::main(&a[2..]),
        Some("race") if a.len() == 7 => race::main(&a[2..]),
        Some("shard") if a.len() == 7 => {
            let p = props::find(&a[2]).expect("property");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let dir = std::path::PathBuf::from(&a[6]);
            std::fs::create_dir_all(&dir).unwrap();
            let n = a[4].parse().unwrap();
            let i = a[3].parse().unwrap();
            let th = a[5] == "thorough";
            // a thread of its own with the stack size of an ordinary main thread
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || sup::shard(p, i, n, th, seed, &dir))
                .unwrap()
                .join()
                .unwrap_or(45)
        }
        _ => {
            eprintln!("usage: vmon check <property> | vmon list");
            2
        }
    };
    std::process::exit(code);
}
