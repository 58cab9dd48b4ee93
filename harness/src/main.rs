#![allow(dead_code)]
mod enc;
mod engine;
mod gen;
mod hist;
mod idl;
mod keys;
mod model;
mod obs;
mod props;
mod rt;
mod special;
mod special2;
mod special3;
mod special4;
mod step;
mod tape;
mod world;

fn main() {
    rt::init();
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("PHX_ROOT").unwrap_or("/verif".into());
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let rc = match arg(1) {
        "check" => engine::check(find(arg(2)), &root),
        "worker" => {
            engine::worker(find(arg(2)), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5).parse().unwrap(), arg(6));
            0
        }
        "replay" => engine::replay(&props, arg(2)),
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: phx check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(rc);
}
