#![allow(unknown_lints)]
#![allow(invalid_runtime_symbol_definitions)]
#![allow(dead_code)]
mod rng; mod sys; mod alloc;
mod api; mod model; mod tagtable; mod img; mod fmt_jpeg; mod fmt_png; mod fmt_webp; mod fmt_jxl; mod fmt_tiff; mod fmt_heif;
mod kind;
mod lut; mod named; mod case; mod exec; mod gen; mod hist; mod io; mod props; mod shrink; mod check; mod dev;

#[global_allocator]
static A: alloc::Acct = alloc::Acct;

/// The library's log messages are formatted like a program that logs would have them.
struct Sink;
impl std::fmt::Write for Sink { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = std::fmt::write(&mut Sink, *r.args()); }
    fn flush(&self) {}
}

/// Judges a case on a thread of its own with a small, fixed stack.
fn on_thread<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> std::thread::Result<R> {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join()
}

fn main() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Trace);
    let a: Vec<String> = std::env::args().collect();
    let b: Vec<&str> = a.iter().skip(1).map(|x| x.as_str()).collect();
    let n = |x: &str| x.parse::<u64>().unwrap_or_else(|_| { eprintln!("number expected: {x}"); std::process::exit(2) });
    if sys::EDGES.load(std::sync::atomic::Ordering::Relaxed) == 0 { eprintln!("the library was compiled without tools/rustc_wrap.sh: build in sim/, where .cargo/config.toml names it"); std::process::exit(2); }
    let code = match b[..] {
        ["check", id, tier] => check::check(id, tier),
        ["worker", id, seed, total, step, from, out] => check::worker(id, n(seed), n(total), n(step), n(from), out),
        ["run1", file] => check::run1(file),
        ["emit", id, seed, idx, variant, file] => check::emit(id, n(seed), n(idx), n(variant) as usize, file),
        ["shrink", from, to, class, secs] => check::shrink(from, to, class, n(secs)),
        ["shrinkx", from, to, class, secs] => check::shrink_crash(from, to, class, n(secs)),
        ["replay", file] => check::replay(file),
        ["dev", ..] => dev::run(&a[2..]),
        _ => { eprintln!("usage: sim check ID quick|thorough | replay FILE"); 2 }
    };
    std::process::exit(code);
}
