mod case;
mod ctx;
mod model;
mod prob;
mod props_a;
mod props_b;
mod props_c;
mod props_d;
mod pyoracle;
mod util;
use ctx::Ctx;
use std::path::PathBuf;

/// Allocator that remembers the largest single request (C13 watches it).
struct Watch;
static LARGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed);
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        LARGEST.fetch_max(n, std::sync::atomic::Ordering::Relaxed);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
#[global_allocator]
static WATCH: Watch = Watch;
pub fn alloc_reset() {
    LARGEST.store(0, std::sync::atomic::Ordering::SeqCst);
}
pub fn alloc_largest() -> usize {
    LARGEST.load(std::sync::atomic::Ordering::SeqCst)
}

type Check = fn(u64, &mut Ctx);

fn checks() -> Vec<(&'static str, Check)> {
    vec![
        ("C01", props_a::c01 as Check),
        ("C02", props_a::c02),
        ("C03", props_a::c03),
        ("C04", props_a::c04),
        ("C05", props_a::c05),
        ("C06", props_a::c06),
        ("C07", props_a::c07),
        ("C08", props_a::c08),
        ("C09", props_a::c09),
        ("C10", props_b::c10),
        ("C11", props_b::c11),
        ("C12", props_b::c12),
        ("C13", props_b::c13),
        ("C14", props_b::c14),
        ("C15", c15 as Check),
        ("C16", props_c::c16),
        ("C17", props_c::c17),
        ("C18", props_c::c18),
        ("C19", props_d::c19),
        ("C20", props_d::c20),
        ("C21", props_d::c21),
        ("C24", props_d::c24),
    ]
}

fn c15(seed: u64, ctx: &mut Ctx) {
    if seed % 40 == 0 {
        props_c::c15_console(seed, ctx);
    } else {
        props_c::c15(seed, ctx);
    }
}

/// Set while a panic is looked at again, for the trace of the last one
static WHERE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static TRACE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// One case. A case in which the problem was called without end is dropped, verdicts included;
/// a panic that reaches this point is the library's or a fault of the harness, and is reported as such.
fn one(check: Check, seed: u64, ctx: &mut Ctx) {
    use std::sync::atomic::Ordering;
    prob::RUNAWAY.store(false, Ordering::SeqCst);
    ctx.runaway_is_violation = false;
    let before = ctx.viols.len();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(seed, ctx)));
    if prob::RUNAWAY.load(Ordering::SeqCst) {
        ctx.viols.truncate(before);
        ctx.discarded += 1;
        if ctx.runaway_is_violation {
            ctx.fail("endless-run", format!("more than {} objective calls: {}", prob::CALL_CAP, case::LAST.lock().unwrap()));
        }
        ctx.n("runaway_cases", 1);
        if ctx.runaways.len() < 20 {
            ctx.runaways.push(seed);
        }
    } else if let Err(e) = r {
        let at = case::PANICS.lock().unwrap_or_else(|e| e.into_inner()).last().cloned().unwrap_or_default();
        let text = format!("{} at {at}", case::panic_text(e));
        // Whose panic it is: where it was raised, or the innermost frame of either side
        let library = at.contains("/repo/src/") || {
            WHERE.store(true, Ordering::SeqCst);
            let keep = (ctx.counters.clone(), ctx.viols.len(), ctx.evals);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(seed, ctx)));
            ctx.counters = keep.0;
            ctx.viols.truncate(keep.1);
            ctx.evals = keep.2;
            WHERE.store(false, Ordering::SeqCst);
            let trace = TRACE.lock().unwrap_or_else(|e| e.into_inner()).clone();
            let frame = trace.lines().find(|l| l.contains("globalsearch::") || l.contains("gsmon::") && !l.contains("{{closure}}") && !l.contains("gsmon::main"));
            frame.is_some_and(|l| l.contains("globalsearch::"))
        };
        if library {
            ctx.fail("panic", format!("library code panicked: {text}"));
        } else {
            ctx.harness.push((seed, text));
        }
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}

fn main() {
    // Panics of monitored code are caught and judged; keep their text out of the way
    let show = arg("--panics").is_some();
    std::panic::set_hook(Box::new(move |i| {
        if let Some(l) = i.location() {
            case::PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{}:{}", l.file(), l.line()));
        }
        if WHERE.load(std::sync::atomic::Ordering::SeqCst) {
            *TRACE.lock().unwrap_or_else(|e| e.into_inner()) = std::backtrace::Backtrace::force_capture().to_string();
        }
        if show {
            eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
    let prop = arg("--prop").expect("--prop");
    let scratch = PathBuf::from(arg("--scratch").expect("--scratch"));
    std::fs::create_dir_all(&scratch).unwrap();
    if let Some(c) = arg("--child") {
        let case: u64 = arg("--case").map_or(0, |c| c.parse().unwrap());
        let keep = arg("--keep").is_some_and(|k| k == "1");
        match c.as_str() {
            "c11" => props_b::child_c11(case, &scratch),
            "c12" => props_b::child_c12(&scratch),
            "console" => {
                let k: Vec<usize> = arg("--keep").expect("--keep").split(',').map(|x| x.parse().unwrap()).collect();
                props_c::child_console(case, k[0], k[1], k[2] == 1)
            }
            "save" => std::process::exit(!props_b::child_save(&scratch, case, keep) as i32),
            "digest" => props_a::child_digest(case, arg("--shard").map_or(0, |s| s.parse().unwrap()), arg("--budget").map_or(5.0, |s| s.parse().unwrap()), &scratch),
            "pyoracle" => pyoracle::main(&arg("--cases").expect("--cases")),
            "latest" => props_b::child_latest(&scratch, keep),
            _ => panic!("unknown child"),
        }
        return;
    }
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let check = checks().into_iter().find(|c| c.0 == prop).expect("unknown property").1;
    let mut ctx = Ctx::new(&prop, scratch, thorough);
    ctx.me = arg("--self");
    if let Some(c) = arg("--case") {
        ctx.cur = c.parse().unwrap();
        ctx.verbose = true;
        let cur = ctx.cur;
        one(check, cur, &mut ctx);
        ctx.cases = 1;
    } else {
        let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
        let shard: u64 = arg("--shard").map_or(0, |s| s.parse().unwrap());
        let budget: f64 = arg("--budget").map_or(5.0, |s| s.parse().unwrap());
        let max: u64 = arg("--max").map_or(u64::MAX, |s| s.parse().unwrap());
        let journal = arg("--journal");
        let mut ph = util::Fnv::default();
        ph.s(&prop);
        let t0 = std::time::Instant::now();
        let mut i: u64 = arg("--from").map_or(0, |s| s.parse().unwrap());
        while t0.elapsed().as_secs_f64() < budget && i < max && ctx.viols.len() < 5 && ctx.harness.len() < 3 {
            ctx.cur = util::mix(util::mix(seed, ph.0), shard.wrapping_mul(1 << 32) + i);
            if let Some(j) = &journal {
                let _ = std::fs::write(j, format!("{} {i}", ctx.cur));
            }
            let cur = ctx.cur;
            let t1 = std::time::Instant::now();
            one(check, cur, &mut ctx);
            if std::env::var("GSMON_TIMES").is_ok() && t1.elapsed().as_secs_f64() > 0.4 {
                println!("{:.2}s case {cur} runaway {:?}", t1.elapsed().as_secs_f64(), ctx.runaways.last() == Some(&cur));
                if ctx.runaways.last() == Some(&cur) {
                    println!("RUN {}", case::LAST.lock().unwrap());
                }
            }
            ctx.cases += 1;
            i += 1;
        }
    }
    let out = ctx.json();
    match arg("--out") {
        Some(f) => std::fs::write(f, out).unwrap(),
        None => println!("{out}"),
    }
}
