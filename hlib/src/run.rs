//! Case runner: drives families of random cases on several worker threads, catches panics,
//! detects stuck cases, matches known findings, writes replays and the evidence file.
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable class of the failure, used to tell known findings from new violations
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: String::new(), msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { sig: String::new(), msg: msg.to_string() }
    }
}
impl From<rstsr_core::prelude_dev::Error> for Fail {
    fn from(e: rstsr_core::prelude_dev::Error) -> Self {
        Fail { sig: String::new(), msg: format!("error: {:?}", e.inner) }
    }
}
pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Fail::from(format!($($t)*))); } };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::Fail::from(format!($($t)*))) };
}

pub struct Case {
    pub rng: Rng,
    pub thorough: bool,
    pub desc: String,
    nontrivial: bool,
    counts: BTreeMap<String, u64>,
    evals: u64,
}

impl Case {
    /// Appends to the description of the case (written to the replay when it fails).
    pub fn d(&mut self, s: impl AsRef<str>) {
        self.desc.push_str(s.as_ref());
        self.desc.push_str("; ");
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Counts an observed event.
    pub fn hit(&mut self, k: impl Into<String>) {
        *self.counts.entry(k.into()).or_insert(0) += 1;
    }
    /// One comparison of an observed result with the oracle.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
}

pub type CaseFn = fn(&mut Case) -> R;

pub struct Family {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: usize,
    pub thorough: usize,
}

pub struct Check {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
    pub workers: usize,
}

thread_local! {
    static OUTER: rayon::ThreadPool = rayon::ThreadPoolBuilder::new().num_threads(2).build().expect("a pool");
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

static LAST: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") || msg.contains("during cleanup") {
            // these end the process
            eprintln!("{msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} at {loc}");
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
        format!("panic in another thread, the last one: {}", LAST.lock().unwrap_or_else(|e| e.into_inner()))
    })
}

/// Runs f; Err with the message when it panics.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panicked: {}", take_panic())),
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Reads the open entries of known_findings.txt: `open: property=ID sig=SIG what fails`.
fn known_findings(root: &str, prop: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for l in std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default().lines() {
        let mut it = l.splitn(4, ' ');
        if it.next() == Some("open:") && it.next() == Some(format!("property={prop}").as_str()) {
            if let Some(s) = it.next().and_then(|s| s.strip_prefix("sig=")) {
                out.insert(s.to_string(), it.next().unwrap_or("").to_string());
            }
        }
    }
    out
}

struct Shared {
    evals: u64,
    cases: u64,
    counts: BTreeMap<String, u64>,
    fam_cases: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<(String, usize, String, Fail)>, // family, idx, desc, fail
    viol_total: u64,
    known_hits: BTreeMap<String, u64>,
}

fn run_one(chk: &Check, fam: &Family, idx: usize, seed: u64, thorough: bool) -> (Case, R) {
    let s = mix(seed ^ hash_str(chk.prop) ^ hash_str(fam.name).rotate_left(17) ^ mix(idx as u64));
    let mut case = Case {
        rng: Rng::new(s),
        thorough,
        desc: String::new(),
        nontrivial: false,
        counts: BTreeMap::new(),
        evals: 0,
    };
    let f = fam.f;
    let go = |case: &mut Case| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(case))) {
        Ok(r) => r,
        Err(_) => {
            let m = take_panic();
            Err(Fail { sig: String::new(), msg: format!("panic: {m}") })
        },
    };
    // some cases of the thread-pool devices run inside another pool, where the device does not use its own
    let pooled = fam.name.ends_with("_pool") || fam.name.ends_with("_openblas");
    let res = if pooled && s % 8 == 3 && std::env::var("VH_TINY").is_err() {
        *case.counts.entry("inside another pool".into()).or_default() += 1;
        OUTER.with(|p| p.install(|| go(&mut case)))
    } else {
        go(&mut case)
    };
    let res = res.map_err(|mut e| {
        if e.sig.is_empty() {
            e.sig = fam.name.to_string();
        }
        e
    });
    (case, res)
}

fn cpu_ticks() -> Option<(u64, bool)> {
    // total cpu ticks of this process and whether any thread is running or in disk wait
    let st = std::fs::read_to_string("/proc/self/stat").ok()?;
    let rest = &st[st.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let mut busy = false;
    for e in std::fs::read_dir("/proc/self/task").ok()?.flatten() {
        if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
            if let Some(p) = s.rfind(')') {
                let c = s[p + 2..].chars().next().unwrap_or('S');
                if c == 'D' {
                    busy = true;
                }
            }
        }
    }
    Some((t, busy))
}

pub fn main_check(chk: Check) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let variant = std::env::var("VH_VARIANT").unwrap_or_default();
    // the driver says what it meant to build: a program of another variant must not answer for this one
    if let Ok(f) = std::env::var("VH_FEATS") {
        let have = [("rowm", cfg!(feature = "rowm")), ("colm", cfg!(feature = "colm")), ("blas", cfg!(feature = "blas"))];
        let have: Vec<&str> = have.iter().filter(|x| x.1).map(|x| x.0).collect();
        if have.join(",") != f {
            eprintln!("this program was built with {have:?}, not with {f}");
            std::process::exit(2);
        }
    }
    // the property this run decides: another one when the monitor serves as its workload
    let prop = std::env::var("VH_PROP").unwrap_or_else(|_| chk.prop.to_string());
    // memory runs: only what the sanitizer, the guard or a `mem-` signature reports counts
    let mem = std::env::var("VH_MEM").is_ok();
    crate::poison::ARMED.store(mem, Ordering::Relaxed);
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VH_FAMILY").ok();
    let cap = Duration::from_secs_f64(
        std::env::var("VH_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 240.0 }),
    );

    if args.iter().any(|a| a == "--list") {
        for f in &chk.families {
            println!("{} quick {} thorough {}", f.name, f.quick, f.thorough);
        }
        std::process::exit(0)
    }
    // single-case replay
    if let Some(p) = args.iter().position(|a| a == "--case") {
        let spec = &args[p + 1];
        let (fam, idx) = spec.rsplit_once(':').expect("--case family:index");
        let idx: usize = idx.parse().unwrap();
        let fam = chk.families.iter().find(|f| f.name == fam).expect("family");
        let (case, res) = run_one(&chk, fam, idx, seed, thorough);
        println!("case {} {} seed {}: {}", fam.name, idx, seed, case.desc);
        match res {
            Ok(()) => {
                println!("held");
                std::process::exit(0)
            },
            Err(e) => {
                println!("VIOLATED sig={} {}", e.sig, e.msg);
                std::process::exit(3)
            },
        }
    }

    let out_dir = format!("{root}/out/{prop}{variant}");
    std::fs::create_dir_all(&out_dir).ok();
    let known_what = known_findings(&root, &prop);
    let known: BTreeSet<String> = known_what.keys().cloned().collect();

    let t0 = Instant::now();
    // work list: interleave the families so that a time cap cuts all of them evenly
    let fams: Vec<&Family> =
        chk.families.iter().filter(|f| only.as_deref().map(|o| o.split(',').any(|o| o == f.name)).unwrap_or(true)).collect();
    let counts: Vec<usize> = fams
        .iter()
        .map(|f| (((if thorough { f.thorough } else { f.quick }) as f64 * scale).ceil() as usize).max(1))
        .collect();
    let total: usize = counts.iter().sum();
    let mut work: Vec<(u32, u32)> = Vec::with_capacity(total);
    {
        let maxn = counts.iter().cloned().max().unwrap_or(0);
        let mut acc = vec![0f64; fams.len()];
        let mut done = vec![0usize; fams.len()];
        for _ in 0..maxn {
            for k in 0..fams.len() {
                acc[k] += counts[k] as f64 / maxn as f64;
                while acc[k] >= 1.0 - 1e-9 && done[k] < counts[k] {
                    work.push((k as u32, done[k] as u32));
                    done[k] += 1;
                    acc[k] -= 1.0;
                }
            }
        }
        for k in 0..fams.len() {
            while done[k] < counts[k] {
                work.push((k as u32, done[k] as u32));
                done[k] += 1;
            }
        }
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let shared = Mutex::new(Shared {
        evals: 0,
        cases: 0,
        counts: BTreeMap::new(),
        fam_cases: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        viols: vec![],
        viol_total: 0,
        known_hits: BTreeMap::new(),
    });
    let workers = std::env::var("VH_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(chk.workers).max(1);
    let slots = std::fs::File::create(format!("{out_dir}/slots")).ok();
    if let Some(s) = &slots {
        let _ = s.set_len((workers * 128) as u64);
    }
    let finished = Arc::new(AtomicBool::new(false));
    // watchdog: a process all of whose threads sleep for long without using any CPU while a case
    // is unfinished is deadlocked
    if !cfg!(miri) {
        let finished = finished.clone();
        let out_dir = out_dir.clone();
        std::thread::spawn(move || {
            let mut idle = 0;
            let mut last = 0u64;
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_secs(1));
                if let Some((t, busy)) = cpu_ticks() {
                    if t <= last + 2 && !busy {
                        idle += 1;
                    } else {
                        idle = 0;
                    }
                    last = t;
                    if idle >= 40 {
                        let _ = std::fs::write(format!("{out_dir}/deadlock"), "all threads asleep, no CPU used for 40 s");
                        eprintln!("watchdog: all threads asleep, no CPU used for 40 s");
                        std::process::exit(42);
                    }
                }
            }
        });
    }
    let _ = std::fs::remove_file(format!("{out_dir}/deadlock"));

    std::thread::scope(|sc| {
        for w in 0..workers {
            let (next, stop, shared, slots, work, fams, chk, known) =
                (&next, &stop, &shared, &slots, &work, &fams, &chk, &known);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .name(format!("w{w}"))
                .spawn_scoped(sc, move || {
                    let mut loc_counts: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= work.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let (fi, idx) = work[k];
                        let fam = fams[fi as usize];
                        if let Some(s) = slots {
                            let mut b = format!("{}:{}", fam.name, idx).into_bytes();
                            b.resize(127, b' ');
                            b.push(b'\n');
                            let _ = s.write_at(&b, (w * 128) as u64);
                        }
                        let (case, res) = run_one(chk, fam, idx as usize, seed, thorough);
                        for (k, v) in &case.counts {
                            *loc_counts.entry(k.clone()).or_insert(0) += v;
                        }
                        let mut sh = shared.lock().unwrap();
                        sh.cases += 1;
                        sh.evals += case.evals;
                        *sh.fam_cases.entry(fam.name.to_string()).or_insert(0) += 1;
                        if case.nontrivial {
                            sh.distinct.insert(hash_str(&case.desc) ^ hash_str(fam.name));
                        }
                        if case.nontrivial && sh.fam_cases[fam.name] <= 400 && sh.samples.len() < 24 {
                            let pre = format!("{}: ", fam.name);
                            if !sh.samples.iter().any(|s| s.starts_with(&pre)) {
                                let mut t = case.desc.clone();
                                t.truncate(400);
                                sh.samples.push(format!("{pre}{t}"));
                            }
                        }
                        if let Err(e) = res {
                            let key = e.sig.clone();
                            if mem && !key.starts_with("mem-") {
                                *sh.counts.entry("disagreements left to the checks of other properties".into()).or_insert(0) += 1;
                            } else if known.contains(&key) {
                                *sh.known_hits.entry(key).or_insert(0) += 1;
                            } else {
                                sh.viol_total += 1;
                                if sh.viols.len() < 40 {
                                    sh.viols.push((fam.name.to_string(), idx as usize, case.desc.clone(), e));
                                }
                                if sh.viol_total >= 400 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        drop(sh);
                        if t0.elapsed() > cap {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    if let Some(s) = slots {
                        let mut b = b"-".to_vec();
                        b.resize(127, b' ');
                        b.push(b'\n');
                        let _ = s.write_at(&b, (w * 128) as u64);
                    }
                    let mut sh = shared.lock().unwrap();
                    for (k, v) in loc_counts {
                        *sh.counts.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
        }
    });
    finished.store(true, Ordering::Relaxed);
    let mut sh = shared.into_inner().unwrap();
    if mem {
        sh.counts.insert("blocks checked by the memory guard".into(), crate::poison::CHECKED.load(Ordering::Relaxed));
        let n = crate::poison::ALIGN64.load(Ordering::Relaxed);
        if n > 0 {
            let sig = "mem-align64".to_string();
            if known.contains(&sig) {
                sh.known_hits.insert(sig, n);
            } else {
                sh.viol_total += 1;
                let msg = format!("{n} blocks allocated with alignment 64 were released with a smaller alignment");
                sh.viols.push(("allocation".into(), 0, "all cases".into(), Fail { sig, msg }));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();

    // evidence
    let mut ev = String::new();
    ev.push_str("{\n");
    ev.push_str(&format!("\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n", jstr(&prop), jstr(&tier), seed, jstr(chk.level)));
    ev.push_str("\"coverage\": {\n");
    ev.push_str(&format!("\"evaluations\": {},\n", sh.evals));
    ev.push_str(&format!("\"distinct_nontrivial\": {},\n", sh.distinct.len()));
    ev.push_str(&format!("\"cases\": {}, \"cases_planned\": {},\n", sh.cases, total));
    ev.push_str(&format!("\"rule\": {},\n", jstr(chk.rule)));
    ev.push_str("\"cases_by_family\": {");
    ev.push_str(&sh.fam_cases.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n\"events_observed\": {");
    ev.push_str(&sh.counts.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n\"known_findings_hit\": {");
    ev.push_str(&sh.known_hits.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
    ev.push_str("},\n\"samples\": [");
    ev.push_str(&sh.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n"));
    ev.push_str("]\n},\n");
    ev.push_str(&format!(
        "\"assumptions\": [{}],\n",
        chk.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    ));
    ev.push_str(&format!("\"wall_s\": {:.3}, \"violations\": {}\n}}\n", wall, sh.viol_total));
    let evp = std::env::var("VH_EVIDENCE").unwrap_or_else(|_| format!("{root}/evidence/{prop}.json"));
    if let Some(p) = std::path::Path::new(&evp).parent() {
        let _ = std::fs::create_dir_all(p);
    }
    std::fs::write(&evp, ev).unwrap();

    for (k, n) in &sh.known_hits {
        println!("KNOWN-FINDING: property={} {} [{}; seen {} times]", prop, known_what.get(k).cloned().unwrap_or_default(), k, n);
    }
    println!(
        "{}{}: {} cases ({} planned), {} evaluations, {} distinct non-trivial, {:.1} s",
        prop, variant, sh.cases, total, sh.evals, sh.distinct.len(), wall
    );
    if sh.viol_total > 0 {
        let mut seen = BTreeSet::new();
        for (n, (fam, idx, desc, e)) in sh.viols.iter().enumerate() {
            if !seen.insert((fam.clone(), e.sig.clone())) || seen.len() > 8 {
                continue;
            }
            let path = format!("{out_dir}/replay-{n}.txt");
            let mut f = std::fs::File::create(&path).unwrap();
            let exe = args[0].clone();
            let _ = writeln!(
                f,
                "property {}\nfamily {fam} index {idx} seed {seed} tier {tier}\nsignature {}\ncase {desc}\nobserved {}\nreplay: VERIF_SEED={seed} VERIF_TIER={tier} {exe} --case {fam}:{idx}",
                prop, e.sig, e.msg
            );
            let mut m = e.msg.clone();
            if m.len() > 600 {
                let mut k = 600;
                while !m.is_char_boundary(k) {
                    k -= 1;
                }
                m.truncate(k);
            }
            let mut dd = desc.clone();
            if dd.len() > 600 {
                let mut k = 600;
                while !dd.is_char_boundary(k) {
                    k -= 1;
                }
                dd.truncate(k);
            }
            println!("  [{fam}:{idx}] sig={} {}\n    case: {}", e.sig, m, dd);
            println!("VIOLATION property={prop} replay={path}");
        }
        println!("{} violating cases", sh.viol_total);
        std::process::exit(1);
    }
    if sh.cases < (total as u64) / 4 || sh.evals == 0 {
        println!("inconclusive: only {} of {} planned cases ran", sh.cases, total);
        std::process::exit(2);
    }
    std::process::exit(0)
}
