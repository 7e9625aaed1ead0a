//! Development driver: runs scenarios of one property in this process and groups what the judge says.
use crate::{exec, lut, on_thread, props};

pub fn run(a: &[String]) -> i32 {
    lut::quiet_panics();
    let (prop, n) = (a[0].clone(), a[1].parse::<u64>().unwrap());
    let start: u64 = a.get(2).map(|x| x.parse().unwrap()).unwrap_or(0);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut seen = std::collections::BTreeMap::<String, (u64, String)>::new();
    let mut tot = exec::Stats::default();
    let (mut nt, mut slow) = (0, (0.0f64, 0u64));
    let t = std::time::Instant::now();
    for i in start..start + n {
        let p = prop.clone();
        if let Ok(k) = std::env::var("SIM_FMT") { if k.parse::<u64>().unwrap() != i % 7 { continue; } }
        if std::env::var_os("SIM_TRACE").is_some() { eprintln!("scenario {i}"); }
        let t1 = std::time::Instant::now();
        let rs = on_thread(move || props::cases(&p, seed, i).into_iter().map(|c| { let r = props::judge(&c); (c, r) }).collect::<Vec<_>>()).expect("harness");
        let d = t1.elapsed().as_secs_f64();
        if d > slow.0 { slow = (d, i); }
        for (c, (v, st)) in rs {
            tot.merge(&st); if st.nontrivial { nt += 1; }
            if let Some(v) = v {
                let k: String = v.what.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>().split(": ").take(3).collect::<Vec<_>>().join(": ").chars().take(150).collect();
                let e = seen.entry(k).or_insert((0, format!("{} :: {}", c.origin, v.what)));
                e.0 += 1;
                if let Ok(d) = std::env::var("SIM_SAVE") { if e.0 == 1 { std::fs::write(format!("{d}/{}-{}.json", prop, i), serde_json::to_string_pretty(&c).unwrap()).unwrap(); } }
            }
        }
    }
    if let Ok(f) = std::env::var("SIM_COV") { let _ = std::panic::take_hook();
        use std::sync::atomic::Ordering::Relaxed;
        let base = usize::from_str_radix(std::fs::read_to_string("/proc/self/maps").unwrap().split('-').next().unwrap(), 16).unwrap();
        let (n, p) = (crate::sys::EDGES.load(Relaxed), crate::sys::PCS.load(Relaxed) as *const usize);
        let mut o = String::new();
        for i in 0..n { let pc = unsafe { *p.add(2 * i) }; o += &format!("{:x} {}\n", pc.wrapping_sub(base), (crate::sys::HIT[i + 1].load(Relaxed) != 0) as u8); }
        std::fs::write(f, o).unwrap();
    }
    println!("{} runs, {} nontrivial, {} ops, {} calls, {:.1}s, slowest scenario {} took {:.2}s", tot.runs, nt, tot.lib_ops, tot.sys_calls, t.elapsed().as_secs_f64(), slow.1, slow.0);
    println!("{:?}\n{:?}", tot.by, tot.faults);
    let mut s: Vec<_> = seen.into_iter().collect();
    s.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (_, (n, w)) in s { println!("[{n}] {w}"); }
    0
}
