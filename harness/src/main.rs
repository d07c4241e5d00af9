mod btree;
mod paged;
mod caches;
mod catalog;
mod ctx;
mod disk;
mod execs;
mod exprs;
mod front;
mod gens;
mod hash;
mod heap;
mod index;
mod ioq;
mod locks;
mod mem;
mod mvcc;
mod pages;
mod planner;
mod serve;
mod pool;
mod recov;
mod replacer;
mod rng;
#[allow(dead_code)]
mod sqlkit;
mod sys;
#[allow(dead_code)]
mod util;
mod values;
mod wal;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("sql") {
        explorer(&a[2]);
        return;
    }
    match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => return mem::selftest(),
        Some("selftest-race") => return mem::selftest_race(),
        _ => {},
    }
    let id = a.get(1).cloned().unwrap_or_default();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned());
    let tier = opt("--tier").unwrap_or("quick".into());
    let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = PathBuf::from(opt("--root").unwrap_or(".".into()));
    let only = opt("--only").and_then(|s| {
        let (n, s) = s.rsplit_once(':')?;
        Some((n.to_string(), s.parse().ok()?))
    });
    let ctx = ctx::Ctx::new(&id, &tier, seed, root, only);
    match id.as_str() {
        "P01" => locks::run_locks(&ctx),
        "P02" => locks::run_deadlock(&ctx),
        "P03" => mvcc::run_gc(&ctx),
        "P04" => mvcc::run_iso(&ctx),
        "P05" => replacer::run(&ctx),
        "P06" => pool::run(&ctx),
        "P07" => pages::run(&ctx),
        "P08" => heap::run(&ctx),
        "P11" => hash::run(&ctx),
        "P12" => caches::run(&ctx),
        "P14" => ioq::run(&ctx),
        "P16" => wal::run(&ctx),
        "P18" => values::run(&ctx),
        "P20" => exprs::run(&ctx),
        "P27" => front::run(&ctx),
        "P21" => execs::run(&ctx),
        "P22" => index::run(&ctx),
        "P09" => btree::run(&ctx),
        "P10" => paged::run(&ctx),
        "P23" => catalog::run(&ctx),
        "P24" => serve::run(&ctx),
        "P26" => planner::run(&ctx),
        "P25" => mem::run(&ctx),
        "P17" => recov::run(&ctx),
        "P13" => disk::run(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        },
    }
    ctx.finish();
}

fn explorer(file: &str) {
    use ferrite::concurrency::transaction::IsolationLevel;
    let db = sqlkit::Db::new(200, IsolationLevel::ReadCommitted);
    let text = std::fs::read_to_string(file).unwrap();
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        println!("> {l}");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| db.exec(l)));
        match r {
            Ok(Ok((b, rows))) => {
                println!("  ok={b} {:?}", rows.columns);
                for r in rows.rows {
                    println!("  | {}", r.iter().map(|v| format!("{v}")).collect::<Vec<_>>().join(" | "));
                }
            },
            Ok(Err(e)) => println!("  ERR {e}"),
            Err(_) => println!("  PANIC"),
        }
    }
}
