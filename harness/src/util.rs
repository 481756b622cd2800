//! Generators, snapshots and reference computations shared by the checks.
use llm_samplers::prelude::*;
use std::cell::RefCell;

thread_local! {
    pub static NOTES: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}
#[macro_export]
macro_rules! note {
    ($($a:tt)*) => { $crate::util::NOTES.with(|n| if let Some(v) = n.borrow_mut().as_mut() { v.push(format!($($a)*)) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
pub type R = Result<(), String>;

#[derive(Clone)]
pub struct G(pub u64);
impl G {
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// A counting generator of random words.
#[derive(Debug, Clone)]
pub struct CountRng {
    pub state: u64,
    pub calls: usize,
    pub fixed: Option<u64>,
}
impl CountRng {
    pub fn new(seed: u64) -> Self {
        Self { state: seed, calls: 0, fixed: None }
    }
}
impl rand::RngCore for CountRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.calls += 1;
        if let Some(f) = self.fixed {
            return f;
        }
        let mut g = G(self.state);
        let r = g.u();
        self.state = g.0;
        r
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Resources that count how they are used.
#[derive(Debug)]
pub struct Res {
    pub rng: Option<CountRng>,
    pub tokens: Option<Vec<u32>>,
    pub rng_uses: usize,
    pub tok_uses: std::cell::Cell<usize>,
}
impl Res {
    pub fn new(rng: Option<u64>, tokens: Option<Vec<u32>>) -> Self {
        Self { rng: rng.map(CountRng::new), tokens, rng_uses: 0, tok_uses: Default::default() }
    }
    pub fn nil() -> Self {
        Self::new(None, None)
    }
}
impl HasSamplerResources for Res {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn rand::RngCore)) -> Result<(), SamplerError> {
        self.rng_uses += 1;
        match self.rng.as_mut() {
            Some(r) => {
                fun(r);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("rng".to_string())),
        }
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<TID>)) -> Result<(), SamplerError> {
        self.tok_uses.set(self.tok_uses.get() + 1);
        match self.tokens.as_ref() {
            Some(t) => {
                fun(t);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("last_tokens".to_string())),
        }
    }
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<TID>)) -> Result<(), SamplerError> {
        match self.tokens.as_mut() {
            Some(t) => {
                fun(t);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("last_tokens".to_string())),
        }
    }
}

pub fn len(g: &mut G) -> usize {
    match g.below(20) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4..=14 => g.range(1, 12),
        15..=18 => g.range(5, 60),
        _ => g.range(60, 400),
    }
}
pub fn len1(g: &mut G) -> usize {
    len(g).max(1)
}

/// Scores that are finite or -infinity, with a finite maximum.
pub fn scores(g: &mut G, n: usize) -> Vec<f32> {
    let mut v: Vec<f32> = match g.below(9) {
        0 => (0..n).map(|_| (g.f() * 20.0 - 10.0) as f32).collect(),
        1 => (0..n).map(|_| (g.f() + 1e-9).ln() as f32).collect(),
        2 => (0..n).map(|_| g.range(0, 3) as f32).collect(),
        3 => vec![(g.f() * 4.0 - 2.0) as f32; n],
        4 => (0..n).map(|i| -(((i + 1) as f64).ln() * (0.5 + 2.0 * g.f())) as f32).collect(),
        5 => (0..n).map(|_| (g.f() * 200.0 - 100.0) as f32).collect(),
        6 => (0..n).map(|_| -(g.range(0, 4) as f32) * std::f32::consts::LN_2).collect(),
        7 => {
            let s = g.pick(&[1e-38f64, 1e-20, 1e20, 1e38]);
            (0..n).map(|_| ((g.f() * 2.0 - 1.0) * s) as f32).collect()
        }
        _ => {
            let w: Vec<f64> = (0..n).map(|_| -(g.f() + 1e-12).ln()).collect();
            let t: f64 = w.iter().sum();
            w.iter().map(|x| (x / t).ln() as f32).collect()
        }
    };
    if g.chance(0.15) && n > 1 {
        let k = g.range(1, n - 1);
        for _ in 0..k.min(5) {
            let i = g.below(n);
            v[i] = f32::NEG_INFINITY;
        }
        if v.iter().all(|x| *x == f32::NEG_INFINITY) {
            v[0] = 0.5;
        }
    }
    if g.chance(0.1) && n > 1 {
        for _ in 0..3 {
            let i = g.below(n);
            let j = g.below(n);
            v[i] = v[j];
        }
        if v.iter().all(|x| *x == f32::NEG_INFINITY) {
            v[0] = 0.5;
        }
    }
    if g.chance(0.05) && n > 0 {
        let i = g.below(n);
        v[i] = g.pick(&[0.0, -0.0]);
    }
    v
}
pub fn any_scores(g: &mut G, n: usize) -> Vec<f32> {
    let mut v = scores(g, n);
    let k = g.below(4);
    for _ in 0..k {
        if n > 0 {
            let i = g.below(n);
            v[i] = g.pick(&[f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e-45, 0.0, -0.0, f32::MIN_POSITIVE]);
        }
    }
    v
}
pub fn any_f32(g: &mut G) -> f32 {
    match g.below(4) {
        0 => g.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e-45, 0.0, -0.0, 1.0, -1.0, 2.0, 0.5]),
        1 => f32::from_bits(g.u() as u32),
        2 => (g.f() * 2.0 - 0.5) as f32,
        _ => (g.f() * 20.0 - 10.0) as f32,
    }
}
pub fn fin_f32(g: &mut G) -> f32 {
    loop {
        let x = any_f32(g);
        if x.is_finite() {
            return x;
        }
    }
}
pub fn any_usize(g: &mut G, n: usize) -> usize {
    match g.below(6) {
        0 => g.pick(&[0, 1, 2, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, u32::MAX as usize]),
        1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        _ => g.below(n + 3),
    }
}

/// Logits made through the public constructor and consistent operations; ids distinct, possibly not 0..n.
pub fn logits(g: &mut G, n: usize) -> Logits {
    let s = scores(g, n);
    logits_from(g, s)
}
pub fn logits_from(g: &mut G, s: Vec<f32>) -> Logits {
    let mut l: Logits = build(&s);
    match g.below(4) {
        0 => {
            let base = g.below(50) as u32;
            let mul = g.range(1, 7) as u32;
            let n = l.len() as u32;
            for x in l.iter_mut() {
                x.token_id = base + (n - 1 - x.token_id) * mul;
            }
        }
        1 if g.chance(0.3) => {
            let off = u32::MAX - l.len() as u32;
            for x in l.iter_mut() {
                x.token_id += off;
            }
        }
        _ => {}
    }
    if g.chance(0.3) {
        for x in l.iter_mut() {
            x.prob = 0.25;
        }
    }
    match g.below(5) {
        0 => {
            let _ = l.ensure_sorted();
        }
        1 => {
            let _ = l.ensure_softmax();
        }
        2 if l.iter().all(|x| !x.logit.is_nan()) => {
            // an explicitly sorted set, marked so
            let mut v: Vec<Logit> = l.iter().cloned().collect();
            v.sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
            l.clear();
            l.extend(v);
            l.set_sorted(true);
        }
        _ => {}
    }
    note!("logits (id, score, prob) sorted={} softmax={}: {}", l.get_sorted(), l.get_softmax(), show(&l));
    l
}
/// Build without the code under test's constructor deciding anything beyond the entries.
pub fn build(s: &[f32]) -> Logits {
    let mut l = Logits::default();
    for (i, x) in s.iter().enumerate() {
        l.push(Logit { token_id: i as u32, logit: *x, prob: 0.0 });
    }
    l
}
pub fn fl(x: f32) -> String {
    format!("{:e}/0x{:08x}", x, x.to_bits())
}
pub fn show(l: &[Logit]) -> String {
    l.iter().map(|x| format!("({}, {}, {:e})", x.token_id, fl(x.logit), x.prob)).collect::<Vec<_>>().join(" ")
}
pub fn ids(l: &[Logit]) -> Vec<u32> {
    l.iter().map(|x| x.token_id).collect()
}
pub type Snap = Vec<(u32, u32, u32)>;
pub fn snap(l: &[Logit]) -> Snap {
    l.iter().map(|x| (x.token_id, x.logit.to_bits(), x.prob.to_bits())).collect()
}
pub fn idscore(l: &[Logit]) -> Vec<(u32, u32)> {
    l.iter().map(|x| (x.token_id, x.logit.to_bits())).collect()
}
pub fn is_submultiset<T: Ord + Clone>(a: &[T], b: &[T]) -> bool {
    let mut m = std::collections::BTreeMap::<T, isize>::new();
    for x in b {
        *m.entry(x.clone()).or_default() += 1;
    }
    a.iter().all(|x| {
        let c = m.entry(x.clone()).or_default();
        *c -= 1;
        *c >= 0
    })
}
pub fn same_multiset<T: Ord + Clone>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && is_submultiset(a, b)
}
/// Stable order by decreasing score, with f64 probabilities.
pub fn sm(l: &[Logit]) -> Vec<(Logit, f64)> {
    let mut v: Vec<Logit> = l.to_vec();
    v.sort_by(|a, b| b.logit.partial_cmp(&a.logit).expect("reference sort of NaN"));
    if v.is_empty() {
        return vec![];
    }
    let m = v[0].logit as f64;
    let e: Vec<f64> = v.iter().map(|x| (x.logit as f64 - m).exp()).collect();
    let t: f64 = e.iter().sum();
    v.into_iter().zip(e).map(|(x, e)| (x, e / t)).collect()
}
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
/// Equal up to rounding, as f32 results of the same formula.
pub fn fclose(a: f32, b: f32) -> bool {
    if a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        // the last representable value and infinity are neighbours
        return a.signum() == b.signum() && a.abs() >= f32::MAX * 0.999 && b.abs() >= f32::MAX * 0.999;
    }
    close(a as f64, b as f64, 2e-6, 3e-45)
}
pub fn finite_max(l: &[Logit]) -> bool {
    !l.is_empty() && l.iter().all(|x| !x.logit.is_nan() && x.logit != f32::INFINITY) && l.iter().any(|x| x.logit.is_finite())
}
/// Every value is a multiple of 2^-20 below 2^10 (so sums of them are exact in f32 when below 16).
pub fn dyadic(xs: &[f64]) -> bool {
    xs.iter().all(|x| {
        let y = x * (1u64 << 20) as f64;
        y == y.trunc() && x.abs() < 8.0
    })
}
/// Compare a > b with a margin: Some(answer) when certain.
pub fn gt(a: f64, b: f64, margin: f64) -> Option<bool> {
    if a.is_nan() || b.is_nan() {
        return Some(false);
    }
    if margin == 0.0 || a == f64::INFINITY || b == f64::INFINITY || a == f64::NEG_INFINITY || b == f64::NEG_INFINITY {
        return Some(a > b);
    }
    if (a - b).abs() <= margin {
        None
    } else {
        Some(a > b)
    }
}
pub fn ge(a: f64, b: f64, margin: f64) -> Option<bool> {
    if a.is_nan() || b.is_nan() {
        return Some(false);
    }
    if margin == 0.0 || a.is_infinite() || b.is_infinite() {
        return Some(a >= b);
    }
    if (a - b).abs() <= margin {
        None
    } else {
        Some(a >= b)
    }
}
/// The prefix length m must be allowed by the tri-state stop conditions: stop[k] says the list is cut to cut(k).
/// `stops` yields for each position k whether the scan stops there, and the resulting length.
pub fn allowed_cuts(n: usize, stops: &[(Option<bool>, usize)]) -> Vec<usize> {
    let mut out = vec![];
    for (s, m) in stops {
        match s {
            Some(true) => {
                out.push(*m);
                return out;
            }
            Some(false) => {}
            None => out.push(*m),
        }
    }
    out.push(n);
    out
}
