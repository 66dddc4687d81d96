//! Choice sequence, run context, statistics, violations.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

/// Hard cap on recorded choices per run; later draws return 0 (the simplest choice).
const MAX_CHOICES: usize = 400_000;

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut h = splitmix(seed ^ 0xB17E_C0DE);
    for b in prop.bytes() {
        h = splitmix(h ^ u64::from(b));
    }
    splitmix(h ^ index.wrapping_mul(0xD134_2543_DE82_EF95))
}

enum Source {
    Rng(u64),
    Replay,
}

pub struct Choices {
    src: Source,
    rec: Vec<u64>,
    pos: usize,
    /// Every choice is also written here (for runs that end in an abort or a hang).
    pub sink: Option<std::fs::File>,
}
impl Choices {
    pub fn seeded(seed: u64) -> Self {
        Choices { src: Source::Rng(seed), rec: Vec::new(), pos: 0, sink: None }
    }
    pub fn replay(rec: Vec<u64>) -> Self {
        Choices { src: Source::Replay, rec, pos: 0, sink: None }
    }
    /// Uniform in `[0, n)`; `n == 0` means the whole `u64` range.
    fn draw(&mut self, n: u64) -> u64 {
        if n == 1 {
            return 0;
        }
        match self.src {
            Source::Rng(ref mut s) => {
                if self.rec.len() >= MAX_CHOICES {
                    return 0;
                }
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let r = splitmix(*s);
                let v = if n == 0 { r } else { ((u128::from(r) * u128::from(n)) >> 64) as u64 };
                self.rec.push(v);
                self.pos += 1;
                if let Some(ref mut f) = self.sink {
                    use std::io::Write;
                    let _ = f.write_all(&v.to_le_bytes());
                }
                v
            }
            Source::Replay => {
                let v = if self.pos < self.rec.len() { self.rec[self.pos] } else { 0 };
                self.pos += 1;
                if n == 0 || v < n {
                    v
                } else {
                    v % n
                }
            }
        }
    }
    pub fn used(&self) -> &[u64] {
        &self.rec[..self.pos.min(self.rec.len())]
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: String) -> R<T> {
    Err(Viol { class: class.to_owned(), msg })
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => { return $crate::core::viol($class, format!($($arg)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => { if !$cond { return $crate::core::viol($class, format!($($arg)*)); } };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub bytes: u64,
    pub items: u64,
    /// virtual time units
    pub ticks: u64,
}

pub struct Core {
    ch: Choices,
    log: Option<Vec<String>>,
    h_full: u64,
    h_abs: u64,
    pub stats: Stats,
    nontrivial: u32,
    step_limit: u64,
    pieces: u64,
    by_hand: bool,
}

/// Handle on the run context, shared by everything that makes choices in the simulated world.
#[derive(Clone)]
pub struct Ctx(Rc<RefCell<Core>>);

/// Panic payload used when a run exceeds its step budget.
pub struct BudgetExceeded(pub &'static str);

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23)
}

impl Ctx {
    pub fn new(ch: Choices, trace: bool) -> Self {
        Ctx(Rc::new(RefCell::new(Core {
            ch,
            log: if trace { Some(Vec::new()) } else { None },
            h_full: 0xcbf2_9ce4_8422_2325,
            h_abs: 0xcbf2_9ce4_8422_2325,
            stats: Stats::default(),
            nontrivial: 0,
            step_limit: 2_000_000,
            pieces: 0,
            by_hand: false,
        })))
    }
    pub fn draw(&self, n: u64) -> u64 {
        self.0.borrow_mut().ch.draw(n)
    }
    /// Uniform in `[0, n)` as usize. `n` must not be 0.
    pub fn below(&self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            self.draw(n as u64) as usize
        }
    }
    /// Uniform in `[lo, hi]`.
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; the simple choice (0) is `false`.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        // Draw d in [0, den): true for the top `num` values, so that 0 shrinks to false.
        self.draw(den) >= den - num
    }
    pub fn u64(&self) -> u64 {
        self.draw(0)
    }
    pub fn weighted(&self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| u64::from(x)).sum();
        let mut d = self.draw(total);
        for (i, &x) in w.iter().enumerate() {
            if d < u64::from(x) {
                return i;
            }
            d -= u64::from(x);
        }
        w.len() - 1
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        if n == 0 {
            return Vec::new();
        }
        if n <= 4 {
            return (0..n).map(|_| self.draw(256) as u8).collect();
        }
        let mut s = self.u64();
        if s == 0 {
            return vec![0; n];
        }
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            s = splitmix(s);
            let take = (n - v.len()).min(8);
            v.extend_from_slice(&s.to_le_bytes()[..take]);
        }
        v
    }
    /// Records an event: it enters the run's history hash, and the trace when tracing.
    pub fn ev(&self, tag: &'static str, a: u64, b: u64) {
        let mut c = self.0.borrow_mut();
        let mut t = 0u64;
        for x in tag.bytes() {
            t = mix(t, u64::from(x));
        }
        c.h_full = mix(mix(mix(c.h_full, t), a), b);
        let bucket = |v: u64| if v < 4 { v } else { 4 + u64::from(64 - v.leading_zeros()) };
        c.h_abs = mix(mix(mix(c.h_abs, t), bucket(a)), bucket(b));
        c.stats.steps += 1;
        if c.stats.steps > c.step_limit {
            drop(c);
            std::panic::panic_any(BudgetExceeded("simulation steps"));
        }
        if let Some(ref mut l) = c.log {
            if l.len() < 4000 {
                l.push(format!("{tag} {a} {b}"));
            }
        }
    }
    pub fn note<F: FnOnce() -> String>(&self, f: F) {
        let mut c = self.0.borrow_mut();
        if c.log.is_some() {
            let mut s = f();
            if s.len() > 2000 {
                let mut k = 2000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            if let Some(ref mut l) = c.log {
                if l.len() < 4000 {
                    l.push(s);
                }
            }
        }
    }
    pub fn abs<T: std::hash::Hash>(&self, t: &T) {
        use std::hash::Hasher;
        struct H(u64);
        impl Hasher for H {
            fn finish(&self) -> u64 {
                self.0
            }
            fn write(&mut self, b: &[u8]) {
                for &x in b {
                    self.0 = mix(self.0, u64::from(x));
                }
            }
        }
        let mut h = H(1);
        t.hash(&mut h);
        let mut c = self.0.borrow_mut();
        c.h_abs = mix(c.h_abs, h.0);
        c.h_full = mix(c.h_full, h.0);
    }
    pub fn fault(&self, name: &'static str) {
        let mut c = self.0.borrow_mut();
        *c.stats.faults.entry(name).or_insert(0) += 1;
        c.nontrivial += 1;
        if let Some(ref mut l) = c.log {
            if l.len() < 4000 {
                l.push(format!("fault {name}"));
            }
        }
    }
    pub fn probe(&self, name: &'static str) {
        *self.0.borrow_mut().stats.probes.entry(name).or_insert(0) += 1;
    }
    /// Compositions in this run are to contain codecs written by hand.
    pub fn set_by_hand(&self) {
        self.0.borrow_mut().by_hand = true;
    }
    pub fn by_hand(&self) -> bool {
        self.0.borrow().by_hand
    }
    pub fn nontrivial(&self) {
        self.0.borrow_mut().nontrivial += 1;
    }
    pub fn is_nontrivial(&self) -> bool {
        self.0.borrow().nontrivial > 0
    }
    pub fn count_bytes(&self, n: usize) {
        self.0.borrow_mut().stats.bytes += n as u64;
    }
    /// Counts a piece; once a run has been cut finely for long, pieces become coarser (bounded cost).
    pub fn piece(&self, n: usize, left: usize) -> usize {
        let mut c = self.0.borrow_mut();
        c.pieces += 1;
        if c.pieces > 2500 {
            n.max(left / 32 + 1).min(left)
        } else {
            n
        }
    }
    pub fn count_item(&self) {
        self.0.borrow_mut().stats.items += 1;
    }
    pub fn tick(&self, dt: u64) {
        self.0.borrow_mut().stats.ticks += dt;
    }
    pub fn hashes(&self) -> (u64, u64) {
        let c = self.0.borrow();
        (c.h_full, c.h_abs)
    }
    pub fn used(&self) -> Vec<u64> {
        self.0.borrow().ch.used().to_vec()
    }
    pub fn take_stats(&self) -> Stats {
        std::mem::take(&mut self.0.borrow_mut().stats)
    }
    pub fn take_log(&self) -> Vec<String> {
        self.0.borrow_mut().log.take().unwrap_or_default()
    }
    /// A size with emphasis on small values and on powers of two and buffer boundaries.
    pub fn size(&self, cap: usize) -> usize {
        const EDGE: &[usize] = &[
            31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1026,
            2047, 2048, 2049, 3000, 4095, 4096, 4097, 8192,
        ];
        let n = match self.weighted(&[40, 30, 14, 6, 1]) {
            0 => self.below(5),
            1 => self.below(17),
            2 => self.below(120),
            3 => EDGE[self.below(EDGE.len())],
            _ => [
                10_000usize, 16_384, 32_768, 65_534, 65_535, 65_536, 65_537, 70_001, 70_001, 131_071, 131_072, 131_073, 262_145, 1_048_577,
            ][self.below(14)],
        };
        n.min(cap)
    }
    /// A count: mostly `few`, rarely hundreds, around what might be a limit somewhere.
    pub fn count(&self, odds: u64, few: impl FnOnce(&Ctx) -> usize) -> usize {
        if self.chance(1, odds) {
            [31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 513][self.below(20)]
        } else {
            few(self)
        }
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn kind_of(e: &bytecodec::Error) -> bytecodec::ErrorKind {
    *e.kind()
}

pub fn short<T: Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 300 {
        let mut k = 300;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...({} chars)", &s[..k], s.len())
    } else {
        s
    }
}
