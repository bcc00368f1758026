use std::time::Duration;
use vharness::ctx::*;
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn dump(path: &str, c: &Ctx, hang: Option<String>) {
    let f = |v: &Vec<Fail>| v.iter().map(|x| format!("{{\"site\":{},\"input\":{},\"msg\":{}}}", jstr(&x.site), jstr(&x.input), jstr(&x.msg))).collect::<Vec<_>>().join(",");
    let mut fails = f(&c.fails);
    if let Some(h) = hang { fails = format!("{{\"site\":\"termination\",\"input\":{},\"msg\":\"the call did not return within the limit\"}}", jstr(&h)) }
    let s = format!("{{\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.3},\"fails\":[{}],\"known\":[{}],\"sites\":{{{}}},\"samples\":[{}]}}\n",
        c.evaluations, c.distinct(), c.start.elapsed().as_secs_f64(), fails, f(&c.known_hit),
        c.per_site.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
        c.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    std::fs::write(path, s).unwrap();
}
/// vreplay PROP SEED TIER BUDGET_S OUT [known-site ...]
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, thorough, budget, out) = (a[1].clone(), a[2].parse().unwrap_or(1), a[3] == "thorough", a[4].parse().unwrap(), a[5].clone());
    let known = a[6..].to_vec();
    let mut c = Ctx::new(seed, thorough, budget, known);
    let cur = c.current.clone();
    let out2 = out.clone();
    // watchdog: a call that does not return is itself a failing input
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let (d, t) = cur.lock().unwrap().clone();
        if !d.is_empty() && t.elapsed() > Duration::from_secs(60) {
            let mut e = Ctx::new(0, false, 0.0, vec![]);
            e.evaluations = 1;
            dump(&out2, &e, Some(d));
            std::process::exit(1);
        }
    });
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || { vharness::props::run(&prop, &mut c); c }).unwrap();
    let c = h.join().expect("harness");
    dump(&out, &c, None);
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 })
}
