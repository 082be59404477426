//! One entry per property.
use crate::exec::{build_all, verif, BuildErr};
use crate::runner::{die, Ctx};
use crate::scen::{eval, from_replay, Outcome, Procs};

mod arch;
mod core;
mod memory;
mod select;
mod source;
mod state;

pub fn run(id: &str, cx: &mut Ctx) {
    match id {
        "C01" => core::c01(cx),
        "C02" => core::c02(cx),
        "C03" => arch::c03(cx),
        "C04" => arch::c04(cx),
        "C05" => core::c05(cx),
        "C06" => state::c06(cx),
        "C07" => state::c07(cx),
        "C08" => memory::c08(cx),
        "C09" => memory::c09(cx),
        "C10" => select::c10(cx),
        "C11" => state::c11(cx),
        "C12" => core::c12(cx),
        "C13" => state::c13(cx),
        "C14" => state::c14(cx),
        "C15" => state::c15(cx),
        "C16" => source::c16(cx),
        "C17" => arch::c17(cx),
        "C18" => memory::c18(cx),
        _ => die(&format!("unknown property {id}")),
    }
}

/// Rebuilds the workers of a replay file from /repo's tree and re-evaluates it.
pub use state::raw_checkpoint;

pub fn replay(path: &str) {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    let _ = verif();
    if let Some(r) = crate::fuzz::replay(&t) {
        match r {
            Ok(()) => println!("replay: holds"),
            Err(e) => {
                let id = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("");
                println!("{e}\nVIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
        return;
    }
    let rp = from_replay(&t).unwrap_or_else(|| die("malformed replay file"));
    for s in &rp.specs {
        if s.runner == "miri" {
            if let Err(e) = crate::exec::miri_setup(&s.target) {
                die(&e);
            }
        }
    }
    if rp.sc.runs.is_empty() && t.lines().any(|l| l.starts_with("recheck")) {
        // decided by the compiler or linker: run that part of the check again
        let mut cx = Ctx::new(&rp.property, 1, false);
        run(&rp.property, &mut cx);
        println!("replay: holds");
        return;
    }
    let mut bins = vec![];
    for (s, r) in rp.specs.iter().zip(build_all(&rp.specs)) {
        match r {
            Ok(p) => bins.push(p),
            Err(BuildErr::Source(e)) => {
                println!("{}: {e}", s.line());
                println!("VIOLATION property={} replay={path}", rp.property);
                std::process::exit(1);
            }
            Err(BuildErr::Other(e)) => die(&e),
        }
    }
    let mut p = Procs::new(&rp.specs, &bins);
    for (w, q) in &rp.prelude {
        if let Err(e) = p.call(*w, q) {
            die(&format!("prelude: {e:?}"));
        }
    }
    match eval(&rp.sc, &mut p) {
        Outcome::Pass(_) => println!("replay: holds"),
        Outcome::Fail(e) => {
            println!("{e}");
            println!("VIOLATION property={} replay={path}", rp.property);
            std::process::exit(1);
        }
        Outcome::Infra(e) => die(&e),
    }
}
