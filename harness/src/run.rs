//! Runs families of seeded cases, attributes failures to a case and writes what was observed.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// The text of the last panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

fn cut(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    s.chars().take(n).collect::<String>() + "..."
}

/// Payload of a failed check.
pub struct Fail(pub String);

pub struct Family {
    pub name: &'static str,
    /// Number of cases in the quick and in the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Cx, &mut Rng, u64),
}

const BITS: usize = 1 << 22;
const MIRI_BITS: usize = 1 << 15;

pub struct Cx {
    pub thorough: bool,
    pub trace: bool,
    counters: BTreeMap<String, u64>,
    bitmap: Vec<u64>,
    samples: Vec<String>,
    case: String,
    sampled: bool,
}

impl Cx {
    fn new(thorough: bool) -> Cx {
        Cx { thorough, trace: false, counters: BTreeMap::new(), bitmap: vec![0; if cfg!(miri) { MIRI_BITS } else { BITS } / 64], samples: vec![], case: String::new(), sampled: false }
    }
    /// A separate record for another thread, or for cases run inside a case.
    pub fn child(&self) -> Cx {
        let mut c = Cx::new(self.thorough);
        c.sampled = true;
        c
    }
    /// Runs a case of another monitor; says how it failed.
    pub fn run_case(&mut self, f: fn(&mut Cx, &mut Rng, u64), r: &mut Rng, i: u64) -> Result<(), String> {
        match catch_unwind(AssertUnwindSafe(|| f(self, r, i))) {
            Ok(()) => Ok(()),
            Err(p) => Err(match p.downcast_ref::<Fail>() {
                Some(f) => f.0.clone(),
                None => LAST_PANIC.with(|l| l.borrow().clone()),
            }),
        }
    }
    /// Takes over the counts of the named events from another record.
    pub fn merge(&mut self, o: &Cx, names: &[&str]) {
        for n in names {
            if let Some(&k) = o.counters.get(*n) {
                self.count(n, k as usize);
            }
        }
    }
    /// Adds to a named count of observed events.
    pub fn count(&mut self, name: &str, n: usize) {
        match self.counters.get_mut(name) {
            Some(c) => *c += n as u64,
            None => {
                self.counters.insert(name.to_string(), n as u64);
            }
        }
    }
    /// Marks a distinct, non-trivial situation.
    pub fn seen(&mut self, h: u64) {
        let h = mix(h) as usize % if cfg!(miri) { MIRI_BITS } else { BITS };
        self.bitmap[h / 64] |= 1 << (h % 64);
    }
    /// Describes the input when tracing, and for a few samples.
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            println!("  {}", cut(f(), 3000));
        } else if self.samples.len() < 4 && !self.sampled {
            let s = format!("{}: {}", self.case, f());
            self.samples.push(cut(s, 300));
            self.sampled = true;
        }
    }
    pub fn fail(&self, msg: String) -> ! {
        std::panic::panic_any(Fail(cut(msg, 3000)))
    }
    pub fn ok(&self, r: Result<(), String>) {
        if let Err(e) = r {
            self.fail(e)
        }
    }
    pub fn get<T>(&self, r: Result<T, String>) -> T {
        match r {
            Ok(x) => x,
            Err(e) => self.fail(e),
        }
    }
    /// The two lists of stored entries must be equal as multisets.
    pub fn same_list(&mut self, what: &str, want: &crate::wf::List, got: Result<crate::wf::List, String>) {
        let got = self.get(got);
        self.count("matrices_compared", 1);
        self.count("entries_compared", want.len().max(got.len()));
        if let Some(d) = crate::wf::list_diff(want, &got) {
            self.fail(format!("{}: {}", what, d))
        }
    }
    /// The two matrices must be equal.
    pub fn same<T: sparsetools::Scalar + std::fmt::Debug>(&mut self, what: &str, want: &crate::model::Model<T>, got: &crate::model::Model<T>) {
        self.count("matrices_compared", 1);
        self.count("entries_compared", want.occupied() + got.occupied());
        if let Some(d) = want.diff(got) {
            self.fail(format!("{}: {}", what, d))
        }
    }
}

/// Fails the case unless the condition holds.
#[macro_export]
macro_rules! ck {
    ($cx:expr, $c:expr, $($a:tt)*) => {
        if !$c {
            $cx.fail(format!($($a)*))
        }
    };
}

/// Runs a call that may panic; returns the panic text. Check failures pass through.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.downcast_ref::<Fail>().is_some() {
                std::panic::resume_unwind(p)
            }
            Err(LAST_PANIC.with(|l| l.borrow().clone()))
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o
}

/// Arguments: --tier T --seed S --shard K --shards N --out FILE --cur FILE --max-secs X [--only FAM,FAM] [--case FAM:IDX] [--skip FAM:IDX]...
pub fn run(families: &[Family]) {
    run_with(families, 0)
}
/// The same for cases that stay exact when all generated floating-point values are scaled by one power of two.
pub fn run_scaled(families: &[Family]) {
    run_with(families, 4)
}
/// The same for cases without products of two scaled values: the scales reach the subnormal numbers.
pub fn run_far(families: &[Family]) {
    run_with(families, 8)
}
fn run_with(families: &[Family], scaled: usize) {
    let args: Vec<String> = std::env::args().collect();
    if args.iter().any(|a| a == "--probe") {
        return;
    }
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let num = |name: &str, d: u64| opt(name).map_or(d, |v| v.parse().expect(name));
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let seed = num("--seed", 1);
    let shards = num("--shards", 1);
    let shard = num("--shard", 0);
    let max_secs = num("--max-secs", 3600) as f64;
    let mult = opt("--mult").map_or(1.0, |v| v.parse::<f64>().expect("--mult"));
    let only = opt("--case");
    let skip: Vec<String> = args.iter().enumerate().filter(|(_, a)| *a == "--skip").map(|(i, _)| args[i + 1].clone()).collect();
    let cur = opt("--cur").map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());

    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<Fail>().is_some() {
            return;
        }
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));

    let mut cx = Cx::new(thorough);

    if let Some(c) = only {
        let (f, i) = c.rsplit_once(':').expect("FAM:IDX");
        let fam = families.iter().find(|x| x.name == f).expect("unknown family");
        let i: u64 = i.parse().unwrap();
        cx.trace = args.iter().any(|a| a == "--trace");
        let mut r = Rng::new(seed, fam.name, i);
        match one(&mut cx, fam, &mut r, i, scaled) {
            None => println!("case {} held", c),
            Some(m) => {
                println!("case {} FAILED: {}", c, m);
                std::process::exit(1);
            }
        }
        return;
    }

    // Spread the families evenly over the run and pseudo-randomly over the shards.
    let mut order: Vec<(f64, usize, u64)> = vec![];
    let kept = opt("--only");
    for (k, f) in families.iter().enumerate() {
        if kept.as_ref().map_or(false, |o| !o.split(',').any(|x| x == f.name)) {
            continue;
        }
        let n = ((if thorough { f.thorough } else { f.quick }) as f64 * mult).ceil() as u64;
        for i in 0..n {
            if mix(hash_str(f.name) ^ mix(i)) % shards == shard && !skip.contains(&format!("{}:{}", f.name, i)) {
                order.push(((i as f64 + 0.5) / n as f64, k, i));
            }
        }
    }
    order.sort_by(|a, b| a.partial_cmp(b).unwrap());

    let start = Instant::now();
    let mut done: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fails: Vec<(String, String)> = vec![];
    let mut truncated = false;
    let mut evals = 0u64;
    let mut longest = 0;
    for (_, k, i) in order {
        if start.elapsed().as_secs_f64() > max_secs {
            truncated = true;
            break;
        }
        let fam = &families[k];
        if let Some(c) = &cur {
            let s = format!("{:<60}\n", format!("{}:{}", fam.name, i));
            c.write_all_at(s.as_bytes(), 0).unwrap();
        }
        let mut r = Rng::new(seed, fam.name, i);
        let begun = Instant::now();
        let outcome = one(&mut cx, fam, &mut r, i, scaled);
        longest = longest.max(begun.elapsed().as_millis() as u64);
        if let Some(m) = outcome {
            fails.push((format!("{}:{}", fam.name, i), m));
            if fails.len() >= 12 {
                truncated = true;
                break;
            }
        }
        evals += 1;
        *done.entry(fam.name).or_insert(0) += 1;
    }
    if let Some(c) = &cur {
        c.write_all_at(format!("{:<60}\n", "finished").as_bytes(), 0).unwrap();
    }
    let out = opt("--out").expect("--out");
    for (k, n) in crate::gen::reached() {
        if n > 0 {
            cx.count(k, n as usize);
        }
    }
    let mut j = String::from("{");
    j += &format!("\"evaluations\":{},\"truncated\":{},\"longest_ms\":{},\"families\":{{", evals, truncated, longest);
    j += &done.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    j += "},\"counters\":{";
    j += &cx.counters.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    j += "},\"samples\":[";
    j += &cx.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",");
    j += "],\"failures\":[";
    j += &fails.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", esc(a), esc(b))).collect::<Vec<_>>().join(",");
    j += "]}";
    let mut bm = std::fs::File::create(format!("{}.bits", out)).unwrap();
    let bytes: Vec<u8> = cx.bitmap.iter().flat_map(|w| w.to_le_bytes()).collect();
    bm.write_all(&bytes).unwrap();
    std::fs::write(&out, j).unwrap();
}

fn one(cx: &mut Cx, fam: &Family, r: &mut Rng, i: u64, scaled: usize) -> Option<String> {
    let k = if scaled > 0 && r.chance(1, 3) { r.range(1, scaled) as i32 } else { 0 };
    crate::val::set_scale(k);
    if k > 0 {
        cx.count("cases_with_scaled_floats", 1);
        if k > 4 {
            cx.count("cases_with_far_scaled_floats", 1);
        }
    }
    cx.case = format!("{}:{}", fam.name, i);
    cx.sampled = false;
    match catch_unwind(AssertUnwindSafe(|| (fam.f)(cx, r, i))) {
        Ok(()) => None,
        Err(p) => Some(match p.downcast_ref::<Fail>() {
            Some(f) => f.0.clone(),
            None => LAST_PANIC.with(|l| l.borrow().clone()),
        }),
    }
}
