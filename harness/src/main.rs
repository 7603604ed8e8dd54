#![allow(unused_variables, dead_code)]
mod comps;
mod ctx;
mod engine;
mod ledger;
mod rng;
mod scen_borrow;
mod scen_conv;
mod scen_hist;
mod scen_small;
mod world;

use ctx::Ctx;
use std::time::Instant;

struct Args {
    scenario: String,
    prop: String,
    seed: u64,
    n: usize,
    skip: usize,
    scale: usize,
    max_secs: f64,
    trace: bool,
    cycles: u64,
    stride: usize,
    distinct: Option<String>,
    digests: bool,
}

fn parse() -> Args {
    let mut a = Args { scenario: "hist".into(), prop: "ALL".into(), seed: 1, n: 100, skip: 0, scale: 1, max_secs: 600.0, trace: false, cycles: 1 << 25, stride: 1, distinct: None, digests: false };
    let v: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < v.len() {
        let val = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--scenario" => a.scenario = val,
            "--prop" => a.prop = val,
            "--seed" => a.seed = val.parse().unwrap(),
            "--n" => a.n = val.parse().unwrap(),
            "--skip" => a.skip = val.parse().unwrap(),
            "--scale" => a.scale = val.parse().unwrap(),
            "--stride" => a.stride = val.parse().unwrap(),
            "--distinct" => a.distinct = Some(val),
            "--cycles" => a.cycles = val.parse().unwrap(),
            "--max-secs" => a.max_secs = val.parse().unwrap(),
            "--digests" => {
                a.digests = true;
                i += 1;
                continue;
            }
            "--trace" => {
                a.trace = true;
                i += 1;
                continue;
            }
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    a
}

fn run_item(ctx: &mut Ctx, args: &Args, i: usize) {
    match args.scenario.as_str() {
        "hist" => {
            let p = engine::profile(&args.prop, args.scale);
            engine::history(ctx, &p);
        }
        "brk" => scen_hist::brk(ctx, args.scale),
        "dec" => scen_hist::dec(ctx, i, args.scale),
        "clonediv" => scen_hist::clonediv(ctx, args.scale),
        "fault" => scen_hist::fault(ctx, i, args.scale),
        #[cfg(gecs_verif)]
        "overflow" => scen_hist::overflow(ctx, i),
        #[cfg(gecs_verif)]
        "alias" => scen_hist::alias(ctx, i),
        "forge" => scen_hist::forge(ctx, args.scale),
        "large" => scen_hist::large(ctx, i, args.scale),
        "borrow" => scen_borrow::borrow(ctx, i, args.scale),
        "conv" => scen_conv::conv(ctx, i, args.scale),
        "convsweep" => scen_conv::convsweep(ctx, i),
        #[cfg(feature = "events")]
        "evt" => scen_hist::evt(ctx, i, args.scale),
        "exh" => scen_small::exh(ctx, i, args.scale),
        "alloc" => scen_small::alloc(ctx, i),
        "limit" => scen_small::limit(ctx, i),
        "full" => scen_small::full(ctx, i),
        "toolarge" => scen_small::too_large(ctx),
        "reuse" => scen_small::reuse(ctx, i, args.cycles),
        s => panic!("unknown scenario {s}"),
    }
}

fn main() {
    let args = parse();
    ctx::install_hook();
    world::destroys_at_once();
    let t0 = Instant::now();
    let mut ctx = Ctx::new(&args.prop, args.seed);
    ctx.trace = args.trace;
    ctx.mini = args.scale == 0;
    let mut tainted = 0u64;
    let mut done = 0u64;
    let mut code = 0;
    for i in (0..args.n).map(|k| args.skip + k * args.stride) {
        if t0.elapsed().as_secs_f64() > args.max_secs {
            break;
        }
        let hseed = rng::mix(args.seed.wrapping_mul(1_000_003) ^ (i as u64) << 20 ^ 0x5bd1);
        ctx.rng = rng::Rng::new(hseed);
        ctx.digest = 0;
        if args.digests {
            ctx.narch = 8;
        }
        let r = ctx::guard(|| run_item(&mut ctx, &args, i));
        if let Err(p) = r {
            ctx.viol(&["*"], format!("a panic escaped: {p}"));
        }
        done += 1;
        let d = ctx.digest;
        ctx.digests.push((i, d));
        if !ctx.viols.is_empty() {
            let hit = ctx.viols.iter().any(|v| args.prop == "ALL" || v.props.iter().any(|p| *p == args.prop || *p == "*"));
            if hit || args.trace {
                for v in ctx.viols.iter().take(12) {
                    println!("VIOL props={} item={} msg={}", v.props.join(","), i, v.msg.replace('\n', " "));
                }
            }
            if hit {
                code = 1;
                break;
            }
            tainted += 1;
            let m = ctx.viols[0].msg.clone();
            println!("TAINT props={} item={} msg={}", ctx.viols[0].props.join(","), i, m.replace('\n', " "));
            ctx.viols.clear();
        }
    }
    for (k, v) in &ctx.stats {
        println!("STAT {k} {v}");
    }
    if args.digests {
        for (i, d) in &ctx.digests {
            println!("DIGEST {i} {d:016x}");
        }
    }
    for s in &ctx.samples {
        println!("SAMPLE {s}");
    }
    println!("STAT items {done}");
    println!("STAT tainted {tainted}");
    println!("STAT evaluations {}", ctx.evals);
    println!("STAT distinct {}", ctx.distinct.len());
    if let Some(p) = &args.distinct {
        let mut v: Vec<u8> = Vec::new();
        for h in ctx.distinct.iter().take(1_000_000) {
            v.extend_from_slice(&h.to_ne_bytes());
        }
        let _ = std::fs::write(p, v);
    }
    println!("END code={code} wall={:.2}", t0.elapsed().as_secs_f64());
    std::process::exit(code);
}
