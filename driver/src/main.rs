mod dict;
mod exec;
mod fuzz;
mod gen;
mod model;
mod prog;
mod props;
mod runner;
mod scen;
mod vary;
mod vectors;

use runner::{die, Ctx};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Err(e) = model::self_test() {
        die(&e);
    }
    if a.get(1).map(|x| x.as_str()) == Some("replay") {
        return props::replay(a.get(2).unwrap_or_else(|| die("replay needs a file")));
    }
    if a.get(1).map(|x| x.as_str()) == Some("constants") {
        return print!("{}", dict::listing(std::path::Path::new(a.get(2).unwrap_or_else(|| die("constants needs a directory")))));
    }
    if a.get(1).map(|x| x.as_str()) == Some("giant") {
        return model::giant().iter().for_each(|x| println!("{}", prog::hex(x)));
    }
    let id = a.get(1).cloned().unwrap_or_default();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough") || a.get(2).is_some_and(|x| x == "thorough");
    let mut cx = Ctx::new(&id, seed, thorough);
    props::run(&id, &mut cx);
    fuzz::run(&cx);
    cx.settle_beside();
    cx.pass()
}
