#![allow(static_mut_refs)]
mod child;
mod fault;
mod gen;
mod machine;
mod nest;
mod net;
mod ops;
mod orch;
mod plan;
mod props;
mod rep;
mod spec;
mod user;
mod val;

#[global_allocator]
static ALLOC: simrt::heap::SimAlloc = simrt::heap::SimAlloc;

fn main() {
    spec::init();
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let base: u64 = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier").unwrap_or("quick".into());
            let secs = opt("--secs").or(std::env::var("RSIM_SECS").ok()).and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500.0 } else { 90.0 });
            orch::check(&orch::Opts {
                prop: opt("--prop").expect("--prop"),
                tier,
                secs,
                jobs: opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)),
                first: opt("--first").and_then(|s| s.parse().ok()).unwrap_or(0),
                count: opt("--count").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX / 2),
                base,
                build_s: opt("--build-s").and_then(|s| s.parse().ok()).unwrap_or(0.0),
            })
        }
        Some("replay") => orch::replay(&a[2], a.iter().any(|x| x == "-v")),
        Some("plan") => {
            let i: u64 = opt("--index").and_then(|s| s.parse().ok()).unwrap_or(0);
            print!("{}", props::plan(&opt("--prop").expect("--prop"), orch::seed_of(base, i)).text());
            0
        }
        // where the time goes
        Some("bench") => {
            let sh = rep::Shared::new();
            let prop = opt("--prop").expect("--prop");
            let mut t = [0f64; 3];
            let mut worst: Vec<(u64, u64)> = vec![];
            let n: u64 = opt("--count").and_then(|s| s.parse().ok()).unwrap_or(200);
            let mut steps = 0;
            for i in 0..n {
                let t0 = std::time::Instant::now();
                let p = props::plan(&prop, orch::seed_of(base, i));
                t[0] += t0.elapsed().as_secs_f64();
                let t0 = std::time::Instant::now();
                let mut cx = orch::Ctx::new(&sh);
                let o = cx.exec(&p, false).unwrap();
                let e = t0.elapsed();
                t[1] += e.as_secs_f64();
                worst.push((e.as_micros() as u64, i));
                steps += o.steps;
                if a.iter().any(|x| x == "-v") {
                    println!("{} {} {:016x}", i, o.sim_ns, o.hash);
                    for l in o.lines.iter().filter(|l| l.starts_with("H ")) {
                        println!("{} {}", i, l);
                    }
                }
                let t0 = std::time::Instant::now();
                cx.judge(&prop, &o);
                t[2] += t0.elapsed().as_secs_f64();
            }
            worst.sort();
            println!("plan {:.2} ms, run {:.2} ms (median {}, 90% {}), judge {:.2} ms, steps {} per run", t[0] / n as f64 * 1e3, t[1] / n as f64 * 1e3, worst[worst.len() / 2].0, worst[worst.len() * 9 / 10].0, t[2] / n as f64 * 1e3, steps / n);
            println!("{:?}", worst.iter().rev().take(6).collect::<Vec<_>>());
            0
        }
        // how many of a range of seeds show a violation, and under which policies
        Some("hunt") => {
            let sh = rep::Shared::new();
            let prop = opt("--prop").expect("--prop");
            let n: u64 = opt("--count").and_then(|s| s.parse().ok()).unwrap_or(200);
            let first: u64 = opt("--first").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut cx = orch::Ctx::new(&sh);
            let t0 = std::time::Instant::now();
            let mut found = 0;
            for i in first..first + n {
                let p = props::plan(&prop, orch::seed_of(base, i));
                if let Ok((_, Some((_, f)))) = cx.evaluate(&p, false) {
                    found += 1;
                    println!("{} {} tasks {} ops {} {:?}", i, f.class, p.tasks(), p.ops.len(), p.pol);
                }
            }
            println!("{} of {} in {:.1} s", found, n, t0.elapsed().as_secs_f64());
            0
        }
        // the reference model against its own slower definition
        Some("selftest") => selftest(),
        Some("repeat") => {
            let sh = rep::Shared::new();
            let p = plan::Plan::parse(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let mut first: Option<child::Outcome> = None;
            for _ in 0..opt("--n").and_then(|s| s.parse().ok()).unwrap_or(5) {
                let mut cx = orch::Ctx::new(&sh);
                let o = cx.exec(&p, true).unwrap();
                if a.iter().any(|x| x == "--judge") {
                    cx.judge(&p.prop, &o);
                }
                println!("{:?} {:016x} {} {}", o.end, o.hash, o.sim_ns, o.sched.len());
                if let Some(f) = &first {
                    if let Some(i) = (0..f.sched.len()).find(|&i| o.sched.get(i) != f.sched.get(i)) {
                        println!("  switch {}: {:?} instead of {:?}", i, o.sched.get(i), f.sched[i]);
                    }
                } else {
                    first = Some(o);
                }
            }
            0
        }
        Some("solo") => {
            let sh = rep::Shared::new();
            println!("{}", child::solo(&sh, &a[2]));
            0
        }
        _ => {
            println!("usage: rsim check --prop C01 [--tier quick|thorough] [--secs N] [--seed N] | replay FILE [-v] | plan --prop C01 --index N | solo QUERY");
            2
        }
    };
    std::process::exit(code);
}

fn selftest() -> i32 {
    use model::U;
    let mut r = simrt::rng::Rng::new(7);
    let (mut n, mut bad) = (0, 0);
    for s in &spec::reg().all {
        let c = &s.c;
        let big = c.f.p.bits() > 64;
        let mut pts = vec![c.id(), Some(c.g.clone())];
        let mut x = U::from(0u32);
        while pts.len() < if big { 4 } else { 40 } && x < c.f.p {
            if let Some(p) = c.lift(&x) {
                pts.push(c.neg(&Some(p.clone())));
                pts.push(Some(p));
            }
            x += 1u32;
        }
        let ks: Vec<U> = (0..if big { 2 } else { 12 })
            .map(|i| {
                let k = (0..=c.r.bits() / 64).fold(U::from(0u32), |a, _| (a << 64) + r.next());
                match i {
                    0 => &k % (&c.r << 3),
                    1 => c.r.clone(),
                    2 => &c.r * &c.h,
                    3 => &c.r - 1u32,
                    _ => k % (5u32 + i as u32 * 7),
                }
            })
            .collect();
        for p in &pts {
            for k in &ks {
                n += 1;
                if c.mul(k, p) != c.mul_slow(k, p) {
                    bad += 1;
                    println!("{} {:?} * {}: {:?} {:?}", s.name, p, k, c.mul(k, p), c.mul_slow(k, p));
                }
            }
        }
    }
    println!("{} products, {} wrong", n, bad);
    (bad > 0) as i32
}
