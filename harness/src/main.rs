mod rt;
mod sudoku;
#[cfg(feature = "hooks")]
mod cover;
#[cfg(feature = "hooks")]
mod hooked;
mod maze;
mod draw;
mod nono;
mod png;
mod memory;
mod conc;
mod e2e;

use rt::Ctx;
use std::os::unix::fs::FileExt;
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    /// Number of cases for (thorough).
    pub plan: fn(bool) -> u64,
    pub case: fn(&mut Ctx),
}

fn props() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(sudoku::props());
    v.extend(maze::props());
    v.extend(nono::props());
    v.extend(png::props());
    v.extend(memory::props());
    v.extend(conc::props());
    v.extend(e2e::props());
    #[cfg(feature = "hooks")]
    v.extend(cover::props());
    #[cfg(feature = "hooks")]
    v.extend(hooked::props());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    rt::install_panic_hook();
    let num = |i: usize| -> u64 { a[i].parse().expect("number") };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{} {} {}", p.id, (p.plan)(false), (p.plan)(true));
            }
        }
        // worker PROP SEED TIER SHARD NSHARDS MAX_SECONDS OUTDIR [LIMIT]
        Some("worker") => {
            let p = props().into_iter().find(|p| p.id == a[2]).expect("property");
            let thorough = a[4] == "thorough";
            let (shard, nshards, max_s) = (num(5), num(6), num(7));
            let out = &a[8];
            let total = (p.plan)(thorough).min(a.get(9).map_or(u64::MAX, |x| x.parse().expect("limit")));
            let state = std::fs::File::create(format!("{out}/state.{shard}")).expect("state file");
            let mut ctx = Ctx::new(num(3), thorough);
            let start = Instant::now();
            let mut truncated = false;
            let mut cases = 0;
            let mut i = shard;
            while i < total {
                if start.elapsed().as_secs() >= max_s {
                    truncated = true;
                    break;
                }
                ctx.idx = i;
                state.write_all_at(&i.to_le_bytes(), 0).expect("state write");
                (p.case)(&mut ctx);
                ctx.done += 1;
                cases += 1;
                if ctx.violations.len() >= 3 || ctx.stop {
                    break;
                }
                i += nshards;
            }
            let mut hashes = Vec::with_capacity(ctx.distinct.len() * 8);
            for h in &ctx.distinct {
                hashes.extend_from_slice(&h.to_le_bytes());
            }
            std::fs::write(format!("{out}/hash.{shard}"), hashes).expect("hash file");
            std::fs::write(format!("{out}/res.{shard}"), ctx.to_json(truncated, cases).to_string())
                .expect("result file");
        }
        // one PROP SEED TIER INDEX
        Some("one") => {
            let p = props().into_iter().find(|p| p.id == a[2]).expect("property");
            let mut ctx = Ctx::new(num(3), a[4] == "thorough");
            ctx.idx = num(5);
            (p.case)(&mut ctx);
                ctx.done += 1;
            println!("{}", ctx.to_json(false, 1));
        }
        // what M04 compares between processes
        Some("fingerprint") => println!("{}", maze::fingerprint()),
        // in-process run without files (for the interpreter): mini PROP SEED FROM TO
        Some("mini") => {
            let p = props().into_iter().find(|p| p.id == a[2]).expect("property");
            let mut ctx = Ctx::new(num(3), false);
            for i in num(4)..num(5) {
                ctx.idx = i;
                eprintln!("CASE {i}");
                (p.case)(&mut ctx);
                ctx.done += 1;
            }
            println!("{}", ctx.to_json(false, num(5) - num(4)));
        }
        _ => {
            eprintln!("usage: list | worker | one | mini");
            std::process::exit(2);
        }
    }
}
