mod alloc;
mod engine;
mod gen;
mod lines;
mod menu;
mod mo;
mod model;
mod props;
mod python;
mod shapes;

use engine::Tier;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| {
        props::all().into_iter().find(|p| p.id == id).unwrap_or_else(
            || {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            },
        )
    };
    let tier = |t: &str| match t {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match a[1..] {
        ["check", id, t] => engine::supervise(&find(id), tier(t)),
        ["child", id, t, dir] => {
            engine::child(&find(id), tier(t), std::path::Path::new(dir))
        }
        ["seq", ops] => props::c21::sequence(ops),
        ["single", id, t, si, idx] => engine::single(
            &find(id),
            tier(t),
            si.parse().unwrap(),
            idx.parse().unwrap(),
        ),
        _ => {
            eprintln!("usage: mc check|single <property> <tier> ...");
            2
        }
    };
    std::process::exit(code);
}
