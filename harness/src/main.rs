mod doc;
mod dynty;
mod engine;
mod model;
mod props;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = move |i: usize| a.get(i).cloned().unwrap_or_default();
    let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let find = |id: &str| {
        props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    // The code under test is recursive: give it the stack of a main thread.
    let body = move || match arg(1).as_str() {
        "check" => engine::check(&find(&arg(2)), &root),
        "worker" => engine::worker(
            &find(&arg(2)),
            arg(3).parse().unwrap(),
            arg(4).parse().unwrap(),
            arg(5).parse().unwrap(),
            arg(6) == "thorough",
            &PathBuf::from(arg(7)),
        ),
        "one" => engine::one(&find(&arg(2)), &arg(3), &arg(4), arg(5).parse().ok()),
        "replay" => {
            let s = std::fs::read_to_string(arg(2)).expect("replay file");
            let f = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            engine::replay(&find(&f("property=")), &f("target="), &f("tape="))
        }
        "show" => {
            engine::show(
                &find(&arg(2)),
                &arg(3),
                arg(4).parse().unwrap_or(5),
                arg(5).parse().unwrap_or(1),
            );
            0
        }
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.targets.iter().map(|t| t.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: vh check|replay|show|list ...");
            2
        }
    };
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(body).expect("thread");
    std::process::exit(h.join().unwrap_or(2));
}
