//! Bounded exhaustive checking of the NRBF reader. See /verif/DESIGN.md.
mod alloc;
mod corpus;
mod enc;
mod encode;
mod explore;
mod harness;
mod history;
mod known;
mod meta;
mod model;
mod profiles;
mod props;
mod rv;
mod scaled;
mod serde_suites;
mod sequences;
mod serdes;
mod steps;
mod suites;
mod supervise;
mod work;
mod world;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    harness::install_panic_hook();
    let code = match a[1..] {
        ["check", id] => supervise::check(id),
        ["worker", id, board, skip] => supervise::worker(id, board, skip),
        ["one", id, file] => supervise::one(id, file),
        ["replay", file] => supervise::replay(file),
        ["fresh", hex, op, loose] => {
            history::fresh_one(hex, op.parse().unwrap(), loose == "loose");
            0
        }
        ["repeat", hex, loose, n] => {
            history::repeat(hex, loose == "loose", n.parse().unwrap());
            0
        }
        ["steps", hex, op] => {
            steps::steps(hex, op.parse().unwrap());
            0
        }
        ["preempt", a, la, b, lb, op, pa, pb] => {
            let m = |h: &str, l: &str| history::Msg { name: String::new(), b: harness::unhex(h), loose: l == "loose" };
            steps::preempt(&m(a, la), &m(b, lb), op.parse().unwrap(), steps::point(pa).unwrap(), steps::point(pb));
            0
        }
        ["known", what] => known::run(what),
        ["model", hex] => {
            println!("{:?}", model::run(&harness::unhex(hex)));
            0
        }
        _ => {
            eprintln!("usage: mc check <property> | mc replay <file>");
            2
        }
    };
    std::process::exit(code)
}
