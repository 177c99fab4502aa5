//! Property-based testing engine: choice tapes, parallel search, shrinking,
//! replay files and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// splitmix64
#[derive(Clone, Debug)]
pub struct Prng(pub u64);

impl Prng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_words(ws: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def1u64 ^ (ws.len() as u64);
    for w in ws {
        h = mix(h.wrapping_mul(0x100_0000_01b3).wrapping_add(*w).wrapping_add(0x9E37_79B9_7F4A_7C15));
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

/// Source of choices. 0 is always the simplest choice.
pub struct Src {
    gen: Option<Prng>,
    tape: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { gen: Some(Prng(seed)), tape: vec![], pos: 0, rec: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { gen: None, tape, pos: 0, rec: vec![] }
    }
    /// A number below n (n = 0: any word).
    pub fn n(&mut self, n: u64) -> u64 {
        let raw = match &mut self.gen {
            Some(p) => p.next(),
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        let v = if n == 0 { raw } else { raw % n };
        self.rec.push(v);
        v
    }
    pub fn word(&mut self) -> u64 {
        self.n(0)
    }
    /// Inclusive range.
    pub fn r(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.n((hi - lo) as u64 + 1) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.n(2) == 1
    }
    /// True with the given percentage.
    pub fn chance(&mut self, percent: u64) -> bool {
        self.n(100) >= 100 - percent
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.n(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// Heavy-tailed size in lo..=hi.
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        let span = hi - lo;
        let cap = match self.weighted(&[6, 5, 3, 1]) {
            0 => 3,
            1 => 10,
            2 => 40,
            _ => span,
        };
        lo + self.n(cap.min(span) as u64 + 1) as usize
    }
    /// `size(lo, usual)`, one time in 400 anything up to `most`.
    pub fn wide(&mut self, lo: usize, usual: usize, most: usize) -> usize {
        if self.n(400) == 399 {
            self.r(lo, most)
        } else {
            self.size(lo, usual)
        }
    }
    /// A length in lo..=usual, one time in twenty up to `most`.
    pub fn few(&mut self, lo: usize, usual: usize, most: usize) -> usize {
        let hi = if self.n(20) == 19 { most } else { usual };
        self.r(lo, hi)
    }
}

/// Per-case context.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub desc: Option<String>,
    pub want_desc: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        self.count(l, 1);
    }
    pub fn count(&mut self, l: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(x) = self.labels.get_mut(l) {
            *x += n;
        } else {
            self.labels.insert(l.to_string(), n);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            let s = f();
            self.desc = Some(match self.desc.take() {
                None => s,
                Some(o) => format!("{}; {}", o, s),
            });
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

thread_local!(static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None));

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("panic '{}' at {}", msg, loc));
            }
        });
    }));
}

/// Run code under test; a panic becomes Err with its message.
pub fn no_panic<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> R {
    // every case starts from the same random stream
    rand::rngs::thread::control::swap(rand::rngs::thread::Stream::new(
        rand::rngs::thread::Mode::Seeded,
        0x5eed,
    ));
    match no_panic(|| f(src, ctx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}… ({} chars)", t, s.chars().count())
    }
}

struct Failure {
    part: usize,
    index: u64,
    tape: Vec<u64>,
    msg: String,
}

/// Minimise a failing tape.
fn shrink(f: CaseFn, start: Vec<u64>, msg: String, best: &Mutex<(Vec<u64>, String)>, beat: &AtomicU64) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(25);
    let mut cur = start;
    let mut cur_msg = msg;
    let mut evals = 0u64;
    let mut attempt = |cand: &Vec<u64>, cur: &mut Vec<u64>, cur_msg: &mut String| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        evals += 1;
        beat.fetch_add(1, Ordering::SeqCst);
        let mut src = Src::replay(cand.clone());
        let mut ctx = Ctx::default();
        if let Err(m) = run_case(f, &mut src, &mut ctx) {
            let mut rec = src.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let smaller = rec.len() < cur.len() || (rec.len() == cur.len() && rec < *cur);
            if smaller {
                *cur = rec;
                *cur_msg = m;
                *best.lock().unwrap() = (cur.clone(), cur_msg.clone());
                return true;
            }
        }
        false
    };
    loop {
        let before = cur.clone();
        // delete blocks
        let mut k = (cur.len() / 2).max(1);
        while k >= 1 {
            let mut i = cur.len();
            while i >= k {
                let s = i - k;
                let mut c = cur.clone();
                if i <= c.len() {
                    c.drain(s..i);
                    if !attempt(&c, &mut cur, &mut cur_msg) {
                        // also lower a preceding count while deleting
                        if s > 0 && k <= 8 && cur.len() >= i {
                            for back in 1..=2usize {
                                if s >= back && cur[s - back] > 0 {
                                    let mut c = cur.clone();
                                    c[s - back] -= 1;
                                    c.drain(s..i);
                                    if attempt(&c, &mut cur, &mut cur_msg) {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                i = (i - 1).min(cur.len());
                if t0.elapsed() > budget {
                    break;
                }
                if i < k {
                    break;
                }
                if k > 8 {
                    // bigger steps for bigger blocks
                    i = i.saturating_sub(k / 2);
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero blocks
        for k in [16usize, 4] {
            let mut s = 0;
            while s + k <= cur.len() {
                if cur[s..s + k].iter().any(|v| *v != 0) {
                    let mut c = cur.clone();
                    for v in &mut c[s..s + k] {
                        *v = 0;
                    }
                    attempt(&c, &mut cur, &mut cur_msg);
                }
                s += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < cur.len() {
            if cur[i] != 0 {
                let mut c = cur.clone();
                c[i] = 0;
                if !attempt(&c, &mut cur, &mut cur_msg) && i < cur.len() {
                    let mut lo = 0u64;
                    let mut hi = cur[i];
                    let mut steps = 0;
                    while lo + 1 < hi && steps < 64 {
                        steps += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut c = cur.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt(&c, &mut cur, &mut cur_msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < cur.len() && cur[i] > 0 {
                        let mut c = cur.clone();
                        c[i] -= 1;
                        attempt(&c, &mut cur, &mut cur_msg);
                    }
                }
            }
            i += 1;
        }
        if cur == before || t0.elapsed() > budget {
            break;
        }
    }
}

fn tid() -> u64 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn write_replay(dir: &str, id: &str, part: &str, seed: u64, index: u64, tape: Option<&[u64]>, msg: &str, desc: &str) -> String {
    let _ = std::fs::create_dir_all(format!("{}/replays", dir));
    let tape_s = match tape {
        Some(t) => format!("[{}]", t.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")),
        None => "null".to_string(),
    };
    let body = format!(
        "{{\n \"property\": {},\n \"part\": {},\n \"seed\": {},\n \"index\": {},\n \"tape\": {},\n \"message\": {},\n \"case\": {},\n \"how\": {}\n}}\n",
        json_str(id),
        json_str(part),
        seed,
        index,
        tape_s,
        json_str(&clip(msg, 4000)),
        json_str(&clip(desc, 6000)),
        json_str("bash /verif/replay.sh <this file>")
    );
    let h = hash_str(&body);
    let path = format!("{}/replays/{}-{:08x}.json", dir, id, h as u32);
    let _ = std::fs::write(&path, body);
    path
}

pub fn case_seed(seed: u64, id: &str, part: &str, index: u64) -> u64 {
    hash_words(&[seed, hash_str(id), hash_str(part), index])
}

struct Beat {
    count: AtomicU64,
    part: AtomicU64,
    index: AtomicU64,
    tid: AtomicU64,
}

pub fn threads() -> usize {
    std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

const CASE_CPU_LIMIT: f64 = 100.0;
/// An ordinary check needs less than half a gigabyte.
const MEMORY_LIMIT: u64 = 10 << 30;

fn resident_memory() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map_or(0, |pages| pages * 4096)
}

pub fn run(prop: &Prop, dir: &str, seed: u64, tier: &str) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only_part = std::env::var("VERIF_PART").ok();
    let nthreads = threads();
    let beats: Arc<Vec<Beat>> = Arc::new(
        (0..nthreads + 1)
            .map(|_| Beat {
                count: AtomicU64::new(0),
                part: AtomicU64::new(0),
                index: AtomicU64::new(0),
                tid: AtomicU64::new(0),
            })
            .collect(),
    );
    let shrinking: Arc<Mutex<Option<(usize, u64, Arc<Mutex<(Vec<u64>, String)>>)>>> = Arc::new(Mutex::new(None));
    let done = Arc::new(AtomicBool::new(false));
    // watchdog: a case that burns CPU without end is a violation (logical
    // non-termination), being descheduled is not.
    {
        let beats = beats.clone();
        let done = done.clone();
        let shrinking = shrinking.clone();
        let id = prop.id;
        let names: Vec<&'static str> = prop.parts.iter().map(|p| p.name).collect();
        let dir = dir.to_string();
        let wall_limit = if tier == "quick" { 840 } else { 6 * 3600 };
        std::thread::spawn(move || {
            let mut last: Vec<(u64, f64)> = beats.iter().map(|_| (u64::MAX, 0.0)).collect();
            loop {
                std::thread::sleep(Duration::from_millis(200));
                if done.load(Ordering::SeqCst) {
                    return;
                }
                if t0.elapsed().as_secs() > wall_limit {
                    eprintln!("harness: wall-clock limit reached, no answer");
                    std::process::exit(3);
                }
                let greedy = resident_memory() > MEMORY_LIMIT;
                // the case that has run longest is taken to be the one without end
                let longest = beats
                    .iter()
                    .enumerate()
                    .filter(|(i, b)| last[*i].0 == b.count.load(Ordering::SeqCst))
                    .filter_map(|(i, b)| match b.tid.load(Ordering::SeqCst) {
                        0 => None,
                        t => thread_cpu(t).map(|c| (i, c - last[i].1)),
                    })
                    .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap())
                    .map(|x| x.0);
                for (i, b) in beats.iter().enumerate() {
                    let t = b.tid.load(Ordering::SeqCst);
                    if t == 0 {
                        continue;
                    }
                    let c = b.count.load(Ordering::SeqCst);
                    let cpu = match thread_cpu(t) {
                        Some(c) => c,
                        None => continue,
                    };
                    if last[i].0 != c {
                        last[i] = (c, cpu);
                    } else if cpu - last[i].1 > CASE_CPU_LIMIT || (greedy && longest == Some(i)) {
                        let sh = shrinking.lock().unwrap();
                        let path = if let Some((part, index, best)) = &*sh {
                            let b = best.lock().unwrap();
                            println!("failure: {}", clip(&b.1, 2000));
                            write_replay(&dir, id, names[*part], seed, *index, Some(&b.0), &b.1, "")
                        } else {
                            let part = b.part.load(Ordering::SeqCst) as usize;
                            let index = b.index.load(Ordering::SeqCst);
                            let m = if greedy {
                                format!("case did not end within {} GB of memory", MEMORY_LIMIT >> 30)
                            } else {
                                format!("case did not end within {} s of CPU time", CASE_CPU_LIMIT)
                            };
                            println!("failure: {}", m);
                            write_replay(&dir, id, names[part], seed, index, None, &m, "")
                        };
                        println!("VIOLATION property={} replay={}", id, path);
                        std::process::exit(1);
                    }
                }
            }
        });
    }

    let mut evaluations = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let nontrivial: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<Failure> = None;
    let mut part_counts: Vec<(String, u64, u64, f64)> = vec![];

    for (pi, part) in prop.parts.iter().enumerate() {
        if let Some(o) = &only_part {
            if o != part.name {
                continue;
            }
        }
        let pt0 = Instant::now();
        let base = if tier == "quick" { part.quick } else { part.thorough };
        let total = ((base as f64 * scale).ceil() as u64).max(1);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<Failure>> = Mutex::new(None);
        let all_labels: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let part_samples: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
        let executed = AtomicU64::new(0);
        let nt_before = nontrivial.lock().unwrap().len() as u64;
        let want = 3u64;
        std::thread::scope(|sc| {
            for w in 0..nthreads.min(total as usize) {
                let beats = beats.clone();
                let nontrivial = nontrivial.clone();
                let (next, stop, found, all_labels, part_samples, executed) =
                    (&next, &stop, &found, &all_labels, &part_samples, &executed);
                sc.spawn(move || {
                    let beat = &beats[w];
                    beat.tid.store(tid(), Ordering::SeqCst);
                    beat.part.store(pi as u64, Ordering::SeqCst);
                    let mut my_labels: BTreeMap<String, u64> = BTreeMap::new();
                    let mut my_nt: Vec<u64> = vec![];
                    let mut my_samples = 0;
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total {
                            break;
                        }
                        beat.index.store(i, Ordering::SeqCst);
                        beat.count.fetch_add(1, Ordering::SeqCst);
                        let mut src = Src::random(case_seed(seed, prop.id, part.name, i));
                        let mut ctx = Ctx { want_desc: my_samples < want, ..Default::default() };
                        let r = run_case(part.f, &mut src, &mut ctx);
                        executed.fetch_add(1, Ordering::Relaxed);
                        for (k, v) in &ctx.labels {
                            if let Some(x) = my_labels.get_mut(k) {
                                *x += v;
                            } else {
                                my_labels.insert(k.clone(), *v);
                            }
                        }
                        if ctx.nontrivial {
                            my_nt.push(hash_words(&src.rec) ^ hash_str(part.name));
                            if let Some(d) = ctx.desc.take() {
                                my_samples += 1;
                                part_samples.lock().unwrap().insert(i, d);
                            }
                        }
                        if let Err(msg) = r {
                            let mut f = found.lock().unwrap();
                            let better = match &*f {
                                None => true,
                                Some(o) => i < o.index,
                            };
                            if better {
                                *f = Some(Failure { part: pi, index: i, tape: src.rec, msg });
                            }
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    }
                    beat.tid.store(0, Ordering::SeqCst);
                    nontrivial.lock().unwrap().extend(my_nt);
                    let mut l = all_labels.lock().unwrap();
                    for (k, v) in my_labels {
                        *l.entry(k).or_insert(0) += v;
                    }
                });
            }
        });
        let ex = executed.load(Ordering::SeqCst);
        evaluations += ex;
        for (k, v) in all_labels.into_inner().unwrap() {
            *labels.entry(format!("{}/{}", part.name, k)).or_insert(0) += v;
        }
        for (_, s) in part_samples.into_inner().unwrap().into_iter().take(2) {
            samples.push(format!("[{}] {}", part.name, clip(&s, 900)));
        }
        let nt_after = nontrivial.lock().unwrap().len() as u64;
        part_counts.push((part.name.to_string(), ex, nt_after - nt_before, pt0.elapsed().as_secs_f64()));
        if let Some(f) = found.into_inner().unwrap() {
            failure = Some(f);
            break;
        }
    }

    let mut exit = 0;
    if let Some(f) = &failure {
        let part = &prop.parts[f.part];
        println!("failing case {}/{} index {}: {}", prop.id, part.name, f.index, clip(&f.msg, 1500));
        let best = Arc::new(Mutex::new((f.tape.clone(), f.msg.clone())));
        *shrinking.lock().unwrap() = Some((f.part, f.index, best.clone()));
        beats[nthreads].tid.store(tid(), Ordering::SeqCst);
        shrink(part.f, f.tape.clone(), f.msg.clone(), &best, &beats[nthreads].count);
        let (tape, msg) = best.lock().unwrap().clone();
        let mut src = Src::replay(tape.clone());
        let mut ctx = Ctx { want_desc: true, ..Default::default() };
        let _ = run_case(part.f, &mut src, &mut ctx);
        let desc = ctx.desc.unwrap_or_default();
        let path = write_replay(dir, prop.id, part.name, seed, f.index, Some(&tape), &msg, &desc);
        println!("minimal case ({} choices): {}", tape.len(), clip(&desc, 2500));
        println!("failure: {}", clip(&msg, 2500));
        println!("VIOLATION property={} replay={}", prop.id, path);
        exit = 1;
    }
    done.store(true, Ordering::SeqCst);

    let nt = nontrivial.lock().unwrap().len() as u64;
    let wall = t0.elapsed().as_secs_f64();
    let parts_json: Vec<String> = part_counts
        .iter()
        .map(|(n, e, k, w)| {
            format!("{{\"name\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2}}}", json_str(n), e, k, w)
        })
        .collect();
    let labels_json: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"parts\": [{}],\n  \"labels\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(if tier == "thorough" { "thorough" } else { "quick" }),
        seed,
        evaluations,
        nt,
        json_str(prop.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        parts_json.join(", "),
        labels_json.join(", "),
        prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        wall,
        if exit == 1 { 1 } else { 0 }
    );
    if only_part.is_none() {
        let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
        if std::fs::write(format!("{}/evidence/{}.json", dir, prop.id), ev).is_err() {
            eprintln!("harness: cannot write evidence");
            return 3;
        }
    } else if std::env::var("VERIF_SHOW").is_ok() {
        println!("{}", ev);
    }
    for (n, e, k, w) in &part_counts {
        println!("{} {:<24} cases {:>8}  nontrivial {:>8}  {:.2} s", prop.id, n, e, k, w);
    }
    println!("{} {} evaluations={} nontrivial={} wall={:.1}s", prop.id, if exit == 0 { "held" } else { "BROKEN" }, evaluations, nt, wall);
    exit
}

/// Re-run one replay file.
pub fn replay(props: &[Prop], file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let field = |k: &str| -> Option<String> {
        let key = format!("\"{}\": ", k);
        let i = text.find(&key)? + key.len();
        let rest = &text[i..];
        let end = rest.find(",\n").unwrap_or(rest.len());
        Some(rest[..end].trim().trim_matches('"').to_string())
    };
    let id = field("property").unwrap_or_default();
    let part = field("part").unwrap_or_default();
    let tape = field("tape").unwrap_or_default();
    let seed: u64 = field("seed").and_then(|s| s.parse().ok()).unwrap_or(0);
    let index: u64 = field("index").and_then(|s| s.parse().ok()).unwrap_or(0);
    for p in props {
        if p.id != id {
            continue;
        }
        for q in &p.parts {
            if q.name == part {
                let mut src = if tape == "null" {
                    Src::random(case_seed(seed, &id, &part, index))
                } else {
                    Src::replay(
                        tape.trim_matches(|c| c == '[' || c == ']')
                            .split(',')
                            .filter_map(|s| s.trim().trim_matches('"').parse().ok())
                            .collect(),
                    )
                };
                let mut ctx = Ctx { want_desc: true, ..Default::default() };
                let r = run_case(q.f, &mut src, &mut ctx);
                println!("case: {}", ctx.desc.unwrap_or_default());
                return match r {
                    Ok(()) => {
                        println!("replay: property holds on this case");
                        0
                    }
                    Err(m) => {
                        println!("failure: {}", m);
                        println!("VIOLATION property={} replay={}", id, file);
                        1
                    }
                };
            }
        }
    }
    eprintln!("unknown property or part in {}", file);
    2
}
