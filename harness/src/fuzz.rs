//! The search: enumeration of short strings, generated documents and coverage-guided mutation of those that
//! reached something new, in one process per core. An input counts as a finding if the property's oracle
//! rejects it, if it does not terminate, or if it kills the process.

use crate::gen::{self, Rng};
use crate::{check, esc, generate};
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---- coverage of the crate under test ---------------------------------------------------------

static mut REGIONS: [(usize, usize); 8] = [(0, 0); 8];
const CMP: usize = 4096;
static mut CMPS: [u8; CMP] = [0; CMP];

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    unsafe {
        let r = &raw mut REGIONS;
        for i in 0..8 {
            if (*r)[i].0 == a as usize {
                return;
            }
            if (*r)[i].0 == 0 {
                (*r)[i] = (a as usize, b as usize - a as usize);
                return;
            }
        }
    }
}

#[inline(always)]
fn cmp(c: u64, x: u64) {
    // how close a value has come to a constant it is compared with
    if c < 3 {
        return;
    }
    let d = c.abs_diff(x);
    let d = if d < 12 { d } else { 12 + (64 - d.leading_zeros() as u64) / 2 };
    let i = (c.wrapping_mul(0x9e37_79b9).wrapping_add(d.wrapping_mul(0x85eb_ca6b)) >> 7) as usize % CMP;
    unsafe {
        let p = &raw mut CMPS as *mut u8;
        *p.add(i) = 1;
    }
}
macro_rules! cb {
    ($($n:ident $k:ident $t:ty),*) => { $(
        #[no_mangle] pub extern "C" fn $n(_: $t, _: $t) {}
        #[no_mangle] pub extern "C" fn $k(c: $t, x: $t) { cmp(c as u64, x as u64) }
    )* };
}
cb!(__sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}

struct Cov {
    seen: Vec<Vec<u8>>,
    seen_cmp: Vec<u8>,
}

impl Cov {
    fn new() -> Self {
        let r = unsafe { *(&raw const REGIONS) };
        Cov { seen: r.iter().map(|x| vec![0; x.1]).collect(), seen_cmp: vec![0; CMP] }
    }
    fn reset(&self) {
        unsafe {
            for (a, n) in *(&raw const REGIONS) {
                if n > 0 {
                    std::ptr::write_bytes(a as *mut u8, 0, n);
                }
            }
            std::ptr::write_bytes(&raw mut CMPS as *mut u8, 0, CMP);
        }
    }
    /// 0: nothing new, 1: new comparison results only, 2: new edges or hit counts
    fn update(&mut self) -> u8 {
        let mut new = 0;
        unsafe {
            for (k, (a, n)) in (*(&raw const REGIONS)).into_iter().enumerate() {
                let p = a as *const u8;
                let mut i = 0;
                while i < n {
                    if n - i >= 8 && std::ptr::read_unaligned(p.add(i) as *const u64) == 0 {
                        i += 8;
                        continue;
                    }
                    let c = *p.add(i);
                    let b = match c {
                        0 => 0,
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128u8,
                    };
                    if self.seen[k][i] & b != b {
                        self.seen[k][i] |= b;
                        new = 2;
                    }
                    i += 1;
                }
            }
            let p = &raw const CMPS as *const u8;
            for i in 0..CMP / 8 {
                if std::ptr::read_unaligned(p.add(i * 8) as *const u64) == 0 {
                    continue;
                }
                for j in i * 8..i * 8 + 8 {
                    if *p.add(j) != 0 && self.seen_cmp[j] == 0 {
                        self.seen_cmp[j] = 1;
                        new = new.max(1);
                    }
                }
            }
        }
        new
    }
}

// ---- mutation -----------------------------------------------------------------------------------

#[derive(Default)]
pub struct Dict {
    ints: Vec<u64>,
    strs: Vec<String>,
    /// Literals that the source at hand has and the annotated one had not.
    new_ints: Vec<u64>,
    new_strs: Vec<String>,
}

impl Dict {
    pub fn read(f: &str) -> Self {
        let mut d = Dict::default();
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            let (new, l) = match l.strip_prefix('+') {
                Some(l) => (true, l),
                None => (false, l),
            };
            if let Some(n) = l.strip_prefix('i') {
                if let Ok(n) = n.parse() {
                    if new {
                        d.new_ints.push(n);
                    }
                    d.ints.push(n);
                }
            } else if let Some(h) = l.strip_prefix('s') {
                let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[i * 2..i * 2 + 2], 16).ok()).collect();
                if let Ok(s) = String::from_utf8(b) {
                    if s.is_empty() || s.len() > 40 {
                        continue;
                    }
                    if new {
                        d.new_strs.push(s.clone());
                    }
                    d.strs.push(s);
                }
            }
        }
        d
    }
    fn int(&self, r: &mut Rng) -> u64 {
        let base = if !self.new_ints.is_empty() && r.chance(3, 4) {
            *r.pick(&self.new_ints)
        } else if !self.ints.is_empty() && r.chance(1, 2) {
            *r.pick(&self.ints)
        } else {
            1 << r.range(1, 8)
        };
        match r.below(5) {
            0 => base.saturating_sub(1),
            1 => base.saturating_add(1),
            2 => base.saturating_add(2),
            _ => base,
        }
    }
    fn str<'a>(&'a self, r: &mut Rng) -> &'a str {
        if !self.new_strs.is_empty() && r.chance(2, 3) {
            r.pick(&self.new_strs)
        } else if !self.strs.is_empty() {
            r.pick(&self.strs)
        } else {
            "a"
        }
    }
    /// How large to make a large document.
    pub fn scale(&self, r: &mut Rng) -> usize {
        if !self.new_ints.is_empty() && r.chance(1, 2) {
            let n = *r.pick(&self.new_ints) as usize;
            return (n + r.below(6)).clamp(2, 140_000);
        }
        match r.below(10) {
            0..=3 => r.range(5, 80),
            4..=6 => r.range(60, 300),
            7 => *r.pick(&[127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025]),
            8 => r.range(1000, 5000),
            _ => *r.pick(&[4096, 4097, 8192, 8193, 32768, 32769, 65535, 65536, 65537, 70_000]),
        }
    }
    fn count(&self, r: &mut Rng, len: usize) -> usize {
        let n = match r.below(if self.new_ints.is_empty() { 12 } else { 20 }) {
            0..=4 => r.range(2, 5),
            5..=8 => r.range(4, 20),
            9 => r.range(20, 90),
            _ => (self.int(r) as usize).clamp(2, 1500),
        };
        // keep inputs small
        n.min(1 + 5000 / len.max(1))
    }
}

const UNI: &[char] = &['é', 'ß', '日', '🎉', '\u{a0}', '\u{2028}', '\u{301}', '\u{feff}', '\u{85}', '→', 'Σ', 'İ', '\u{0}', '\u{7f}', '\u{b}', '\u{c}', '\r', '\t', '\u{10ffff}', '\u{3000}', '\u{1}', '\u{80}', '\u{7ff}', '\u{800}'];

fn some_char(r: &mut Rng, d: &Dict) -> char {
    match r.below(10) {
        0 => *r.pick(UNI),
        1 | 2 => d.str(r).chars().next().unwrap(),
        3..=6 => *r.pick(&['*', '_', '^', '~', '=', '+', '-', '\'', '"', '`', '$', '[', ']', '(', ')', '<', '>', ':', '.', '\\', '{', '}', '!', '|', '#', '%', '&', ' ', '\n', '\t', '@', '/', ';']),
        _ => (32 + r.below(95) as u8) as char,
    }
}

/// A position biased to line starts and ends.
fn pos(r: &mut Rng, c: &[char]) -> usize {
    if r.chance(1, 3) {
        let l: Vec<usize> = (0..=c.len()).filter(|&i| i == 0 || c[i - 1] == '\n').collect();
        return *r.pick(&l);
    }
    r.below(c.len() + 1)
}

fn splice(c: &mut Vec<char>, i: usize, s: &str) {
    let t: Vec<char> = s.chars().collect();
    c.splice(i..i, t);
}

fn lines_of(c: &[char]) -> Vec<Vec<char>> {
    c.split_inclusive(|c| *c == '\n').map(|l| l.to_vec()).collect()
}

pub fn mutate(prop: &str, r: &mut Rng, d: &Dict, s: &str, other: &str) -> String {
    let attr = prop.starts_with('A');
    let mut c: Vec<char> = s.chars().collect();
    let n = [1, 1, 1, 2, 2, 3, 4, 6][r.below(8)];
    for _ in 0..n {
        if c.len() > 6000 {
            break;
        }
        match r.below(21) {
            20 => c = gen::perturb(r, &c.iter().collect::<String>()).chars().collect(),
            0 if !c.is_empty() => {
                let i = r.below(c.len());
                let k = r.range(1, 8).min(c.len() - i);
                c.drain(i..i + k);
            }
            1 if !c.is_empty() => {
                let i = r.below(c.len());
                c.remove(i);
            }
            2 | 3 => {
                let i = pos(r, &c);
                let x = some_char(r, d);
                c.insert(i, x);
            }
            4 if !c.is_empty() => {
                let i = r.below(c.len());
                c[i] = some_char(r, d);
            }
            5 => {
                let i = pos(r, &c);
                let x = d.str(r).to_string();
                splice(&mut c, i, &x);
            }
            6 | 7 if !c.is_empty() => {
                // repeat a short piece
                let i = r.below(c.len());
                let k = if r.chance(1, 2) { 1 } else { r.range(1, 6) }.min(c.len() - i);
                let p: Vec<char> = c[i..i + k].to_vec();
                let n = d.count(r, k);
                let t: Vec<char> = p.iter().copied().cycle().take(k * n).collect();
                c.splice(i..i, t);
            }
            8 if !c.is_empty() => {
                // repeat some lines
                let mut l = lines_of(&c);
                let i = r.below(l.len());
                let k = r.range(1, 2).min(l.len() - i);
                let mut p: Vec<Vec<char>> = l[i..i + k].to_vec();
                if let Some(x) = p.last_mut() {
                    if x.last() != Some(&'\n') {
                        x.push('\n');
                    }
                }
                let len = p.iter().map(Vec::len).sum();
                for _ in 0..d.count(r, len) {
                    l.splice(i..i, p.clone());
                }
                c = l.concat();
            }
            9 => {
                let l: Vec<Vec<char>> = lines_of(&other.chars().collect::<Vec<_>>());
                if !l.is_empty() {
                    let a = r.below(l.len());
                    let b = r.range(a + 1, l.len().min(a + 6));
                    let mut t: String = l[a..b].concat().into_iter().collect();
                    if r.chance(1, 3) {
                        t.push('\n');
                    }
                    let i = pos(r, &c);
                    splice(&mut c, i, &t);
                }
            }
            10 if !c.is_empty() => {
                let mut l = lines_of(&c);
                let i = r.below(l.len());
                let j = r.below(l.len());
                if r.chance(1, 2) {
                    l.swap(i, j);
                } else {
                    l.remove(i);
                }
                c = l.concat();
            }
            11 | 12 if !attr && !c.is_empty() => {
                // put lines into a container
                let mut l = lines_of(&c);
                let i = r.below(l.len());
                let k = r.range(1, 8).min(l.len() - i);
                let m = gen::marker(r);
                let m = format!("{m} ");
                let p = *r.pick::<&str>(&["> ", "  ", "    ", "\t", " ", "-", ": ", "[^a]: ", "L"]);
                for (q, x) in l[i..i + k].iter_mut().enumerate() {
                    let p = if p == "L" && q == 0 {
                        m.clone()
                    } else if p == "L" || (p == "-" || p == ": " || p == "[^a]: ") && q > 0 {
                        " ".repeat(m.len())
                    } else {
                        p.to_string()
                    };
                    if x.len() > 1 || p == "> " {
                        x.splice(0..0, p.chars());
                    }
                }
                c = l.concat();
            }
            13 if !attr => {
                let i = pos(r, &c);
                let t = gen::inline(r, 1, true);
                splice(&mut c, i, &t);
            }
            14 if !attr => {
                let i = pos(r, &c);
                let dp = r.below(2);
                let t = gen::block(r, dp);
                splice(&mut c, i, &t);
            }
            15 if !attr => {
                // wrap a stretch
                let a = r.below(c.len() + 1);
                let b = r.range(a, c.len().min(a + 30));
                let (o, e) = *r.pick::<(&str, &str)>(&[
                    ("*", "*"), ("_", "_"), ("^", "^"), ("~", "~"), ("{*", "*}"), ("{_", "_}"), ("{^", "^}"), ("{~", "~}"), ("{=", "=}"), ("{+", "+}"),
                    ("{-", "-}"), ("'", "'"), ("\"", "\""), ("[", "](u)"), ("![", "](u)"), ("[", "][]"), ("[", "][a]"), ("[", "]{.a}"), ("`", "`"), ("``", "``"),
                    ("$`", "`"), ("<", ">"), ("\n```\n", "\n```\n"), ("\n::: c\n", "\n:::\n"), ("{", "}"), ("\n\n", "\n\n"), ("![a", "][]"), ("(", ")"),
                ]);
                splice(&mut c, b, e);
                splice(&mut c, a, o);
            }
            16 => {
                // numbers
                let mut i = 0;
                let t = if r.chance(1, 2) { d.int(r).to_string() } else { gen::number(r) };
                let digits: Vec<usize> = (0..c.len()).filter(|&i| c[i].is_ascii_digit()).collect();
                if !digits.is_empty() {
                    i = *r.pick(&digits);
                    let mut e = i;
                    while e < c.len() && c[e].is_ascii_digit() {
                        e += 1;
                    }
                    c.drain(i..e);
                }
                splice(&mut c, i, &t);
            }
            17 => {
                let i = pos(r, &c);
                let t = gen::attrs(r);
                let nl = r.chance(1, 3);
                splice(&mut c, i, &if nl { t + "\n" } else { t });
            }
            18 if attr => {
                let i = pos(r, &c);
                let t = *r.pick(gen::ATTR_FRAGS);
                splice(&mut c, i, t);
            }
            _ => {
                let i = pos(r, &c);
                let t = if attr {
                    *r.pick(gen::ATTR_FRAGS)
                } else if r.chance(1, 2) {
                    *r.pick(gen::INLINE)
                } else {
                    *r.pick(gen::BLOCK)
                };
                splice(&mut c, i, t);
            }
        }
    }
    c.into_iter().collect()
}

// ---- enumeration --------------------------------------------------------------------------------

/// All strings over `alpha` in order of length (by index).
fn enum_string(alpha: &[&str], mut idx: u64) -> String {
    let k = alpha.len() as u64;
    let mut len = 0;
    let mut block = 1u64;
    while idx >= block {
        idx -= block;
        len += 1;
        block *= k;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alpha[(idx % k) as usize]);
        idx /= k;
    }
    s
}

fn enum_alpha(prop: &str) -> &'static [&'static str] {
    match prop {
        "A01" => &["{", "}", ".", "#", "%", "a", "=", "\"", "\\", "\n", " "],
        "A02" => &[".a\n", ".\n", "#a\n", "k=a\n", "class=b\n", "%\n", "id=c\n"],
        "A03" => &["\\", "a", "\"", "\\\\", "é", " ", "`"],
        "P09" => &["-", ".", "a", "\\", "}", "{"],
        "P11" => &["|", "-", ":", "a", "\n", " "],
        "P10" => &["`", " ", "a", "\n", "\\", "$"],
        "P06" => &["#", " ", "a", "\n", "-"],
        "P08" => &["-", " ", "1", ".", "\n", "i", ")"],
        _ => &["a", "\n", " ", "*", "`", "[", "]", "{", "}", "-", "|", ">", "#", ":", "."],
    }
}

fn enum_limit(prop: &str, secs: f64) -> u64 {
    let lim = if secs > 60.0 { 6_000_000 } else { 400_000 };
    let k = enum_alpha(prop).len() as u64;
    let (mut tot, mut block) = (0u64, 1u64);
    while tot + block <= lim {
        tot += block;
        block = block.saturating_mul(k);
    }
    tot
}

// ---- one worker process -------------------------------------------------------------------------

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SHM: usize = 1 << 20;

/// A file that always holds the current input, also when the process is killed.
struct Current(*mut u8);
impl Current {
    fn new(f: &str) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(f).unwrap();
        f.set_len(SHM as u64).unwrap();
        let p = unsafe { mmap(std::ptr::null_mut(), SHM, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        Current(p)
    }
    fn set(&self, s: &str) {
        let n = s.len().min(SHM - 8);
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.0.add(8), n);
            std::ptr::write_unaligned(self.0 as *mut u64, n as u64);
        }
    }
    fn read(f: &str) -> Option<String> {
        let mut b = vec![];
        std::fs::File::open(f).ok()?.read_to_end(&mut b).ok()?;
        let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
        String::from_utf8(b.get(8..8 + n)?.to_vec()).ok()
    }
}

const HANG: Duration = Duration::from_secs(15);

pub fn worker(prop: &str, seed: u64, secs: f64, k: u64, n: u64, out: &str, dict: &str, all: bool) {
    let d = Dict::read(dict);
    let prop = prop.to_string();
    let out = out.to_string();
    static BEAT: AtomicU64 = AtomicU64::new(0);
    static SLOW: Mutex<Option<String>> = Mutex::new(None);
    let _ = &SLOW;
    let o2 = out.clone();
    std::thread::spawn(move || {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let b = BEAT.load(SeqCst);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed() > HANG {
                let s = Current::read(&format!("{o2}.cur")).unwrap_or_default();
                std::fs::write(&o2, &s).unwrap();
                std::fs::write(format!("{o2}.reason"), "no termination within 15 s").unwrap();
                std::process::exit(1);
            }
        }
    });
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let cur = Current::new(&format!("{out}.cur"));
            let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k));
            let mut seen = std::collections::HashSet::new();
            let mut cov = Cov::new();
            let mut corpus: Vec<String> = vec![];
            let mut samples: Vec<String> = vec![];
            let alpha = enum_alpha(&prop);
            let limit = enum_limit(&prop, secs);
            let mut next_enum = k;
            let (mut evals, mut enumd, mut mutated, mut found) = (0u64, 0u64, 0u64, 0u64);
            let mut log = all.then(|| std::fs::File::create(format!("{out}.all")).unwrap());
            let t0 = Instant::now();
            let mut large = (0u64, Duration::ZERO);
            'run: loop {
                for slot in 0..64 {
                    let big = slot == 63 && large.1 < t0.elapsed() / 6;
                    let (s, kind) = if big {
                        let n = d.scale(&mut r);
                        large.0 += 1;
                        (gen::scaled(&prop, &mut r, n), 1)
                    } else if slot < 16 && next_enum < limit {
                        let s = enum_string(alpha, next_enum);
                        next_enum += n;
                        enumd += 1;
                        (s, 0)
                    } else if slot < 36 || corpus.len() < 4 {
                        let s = generate(&prop, &mut r);
                        (if slot % 2 == 0 { s } else { gen::perturb(&mut r, &s) }, 1)
                    } else {
                        mutated += 1;
                        // prefer recent discoveries
                        let c = corpus.len();
                        let i = if r.chance(1, 2) { c - 1 - r.below(c.min(24)) } else { r.below(c) };
                        let j = r.below(c);
                        let g;
                        let base = if r.chance(1, 4) {
                            g = generate(&prop, &mut r);
                            &g
                        } else {
                            &corpus[i]
                        };
                        (mutate(&prop, &mut r, &d, base, &corpus[j]), 2)
                    };
                    cur.set(&s);
                    BEAT.fetch_add(1, SeqCst);
                    cov.reset();
                    let t1 = Instant::now();
                    let res = check(&prop, &s);
                    if big {
                        large.1 += t1.elapsed();
                    }
                    let new = cov.update();
                    evals += 1;
                    if let Err(m) = res {
                        found += 1;
                        if let Some(l) = &mut log {
                            use std::io::Write;
                            writeln!(l, "{}\t{}", esc(&m), esc(&s)).unwrap();
                            if found > 400 {
                                break 'run;
                            }
                        } else {
                            std::fs::write(&out, &s).unwrap();
                            std::fs::write(format!("{out}.reason"), &m).unwrap();
                            break 'run;
                        }
                    }
                    if new > 0 && s.len() < 4000 && (new == 2 || corpus.len() < 3000) {
                        corpus.push(s.clone());
                    }
                    if s.len() > 2 && seen.len() < 200_000 {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        std::hash::Hash::hash(&s, &mut h);
                        if seen.insert(std::hash::Hasher::finish(&h)) && kind > 0 && evals % 1777 == 60 && samples.len() < 2 && s.len() < 400 {
                            samples.push(s.clone());
                        }
                    }
                }
                if t0.elapsed().as_secs_f64() > secs {
                    break;
                }
            }
            let edges: usize = cov.seen.iter().flatten().filter(|b| **b != 0).count();
            println!(
                "{evals} {} {enumd} {mutated} {} {edges} {found}\n{}",
                seen.len(),
                corpus.len(),
                samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
            );
        })
        .unwrap();
    let _ = t.join();
    std::process::exit(0);
}

// ---- the parent ---------------------------------------------------------------------------------

pub fn search(prop: &str, seed: u64, secs: f64, out: Option<String>, all: bool, dict: &str) {
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8) as u64;
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
    let base = out.clone().unwrap_or_else(|| {
        std::fs::create_dir_all(&dir).unwrap();
        dir.join("o").to_string_lossy().into_owned()
    });
    let mut ch: Vec<(u64, Child, Option<i32>)> = (0..n)
        .map(|k| {
            let o = format!("{base}.{k}");
            for s in ["", ".reason", ".cur", ".all"] {
                let _ = std::fs::remove_file(format!("{o}{s}"));
            }
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.args(["worker", "--prop", prop, "--seed", &seed.to_string(), "--seconds", &secs.to_string()]);
            c.args(["--k", &k.to_string(), "--n", &n.to_string(), "--out", &o, "--dict", dict]);
            if all {
                c.args(["--all", "1"]);
            }
            (k, c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap(), None)
        })
        .collect();
    let mut finding: Option<(String, String)> = None;
    let over = Duration::from_secs_f64(secs) + HANG + HANG;
    while finding.is_none() && ch.iter().any(|c| c.2.is_none()) {
        std::thread::sleep(Duration::from_millis(30));
        for (k, c, st) in &mut ch {
            if st.is_some() {
                continue;
            }
            let o = format!("{base}.{k}");
            if let Ok(Some(s)) = c.try_wait() {
                *st = Some(s.code().unwrap_or(-1));
                if let Ok(m) = std::fs::read_to_string(format!("{o}.reason")) {
                    finding = finding.or(Some((std::fs::read_to_string(&o).unwrap_or_default(), m)));
                } else if s.code() != Some(0) {
                    // killed: confirm with the input it was working on
                    if let Some(i) = Current::read(&format!("{o}.cur")) {
                        let f = format!("{o}.crash");
                        std::fs::write(&f, &i).unwrap();
                        let r = Command::new(std::env::current_exe().unwrap())
                            .args(["replay", "--prop", prop, "--file", &f])
                            .stdout(Stdio::null())
                            .stderr(Stdio::null())
                            .status();
                        if r.is_ok_and(|r| r.code() != Some(0)) {
                            finding = finding.or(Some((i, "parsing or rendering kills the process (stack or memory exhausted)".into())));
                        }
                        let _ = std::fs::remove_file(f);
                    }
                }
            } else if t0.elapsed() > over {
                let _ = c.kill();
            }
        }
    }
    let mut sum = [0u64; 7];
    let mut samples = vec![];
    for (_, c, st) in &mut ch {
        if st.is_none() {
            let _ = c.kill();
            let _ = c.wait();
        }
        let mut t = String::new();
        let _ = c.stdout.take().unwrap().read_to_string(&mut t);
        let mut l = t.lines();
        for (i, x) in l.next().unwrap_or("").split(' ').enumerate().take(7) {
            let x: u64 = x.parse().unwrap_or(0);
            sum[i] = if i == 5 { sum[i].max(x) } else { sum[i] + x };
        }
        if let Some(s) = l.next() {
            if samples.len() < 5 && !s.is_empty() {
                samples.push(s.to_string());
            }
        }
    }
    let stats = format!(
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"enumerated\": {}, \"enumeration_size\": {}, \"mutated\": {}, \"corpus\": {}, \"edges\": {}, \"seconds\": {:.2}, \"samples\": [{}]",
        sum[0], sum[1], sum[2], enum_limit(prop, secs), sum[3], sum[4], sum[5], t0.elapsed().as_secs_f64(), samples.join(", ")
    );
    let mut lines = vec![];
    for k in 0..n {
        let o = format!("{base}.{k}");
        lines.extend(std::fs::read_to_string(format!("{o}.all")).unwrap_or_default().lines().map(String::from));
        for s in ["", ".reason", ".cur", ".all"] {
            let _ = std::fs::remove_file(format!("{o}{s}"));
        }
    }
    let _ = std::fs::remove_dir(&dir);
    if all {
        classes(prop, &lines);
        println!("{{{stats}}}");
        return;
    }
    let Some((d, m)) = finding else {
        println!("{{\"found\": false, {stats}}}");
        return;
    };
    let killed = m.starts_with("parsing or rendering kills") || m.starts_with("no termination");
    let d = if killed { d } else { shrink(prop, &d, Duration::from_secs(10)) };
    let m = if killed { m } else { check(prop, &d).err().unwrap_or(m) };
    if let Some(o) = out {
        std::fs::write(o, &d).unwrap();
    }
    println!("{{\"found\": true, \"reason\": {}, \"input\": {}, {stats}}}", esc(&m), esc(&d));
    std::process::exit(1);
}

/// One shrunk witness per class of reasons.
fn classes(prop: &str, lines: &[String]) {
    let un = |s: &str| s[1..s.len() - 1].replace("\\\\", "\u{1}\u{1}").replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r").replace("\\\"", "\"").replace("\u{1}\u{1}", "\\");
    let mut cl: std::collections::BTreeMap<String, (usize, String)> = Default::default();
    for l in lines {
        let Some((m, d)) = l.split_once('\t') else { continue };
        let d = un(d);
        let k: String = m.chars().filter(|c| !c.is_ascii_digit()).take(20).collect();
        let e = cl.entry(k).or_insert((0, d.clone()));
        e.0 += 1;
        if d.len() < e.1.len() {
            e.1 = d;
        }
    }
    for (_, (n, d)) in cl {
        let s = shrink(prop, &d, Duration::from_secs(5));
        let m = check(prop, &s).err().unwrap_or_default();
        println!("{n:6}  {}\n        {}", esc(&s), m);
    }
}

fn shrink(prop: &str, s: &str, budget: Duration) -> String {
    let t0 = Instant::now();
    let mut cur: Vec<char> = s.chars().collect();
    let mut step = (cur.len() / 2).max(1);
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < cur.len() {
            if t0.elapsed() > budget {
                return cur.into_iter().collect();
            }
            let mut c = cur.clone();
            c.drain(i..(i + step).min(c.len()));
            let t: String = c.iter().collect();
            if check(prop, &t).is_err() {
                cur = c;
                changed = true;
            } else {
                i += step;
            }
        }
        if !changed {
            if step == 1 {
                break;
            }
            step /= 2;
        }
    }
    cur.into_iter().collect()
}
