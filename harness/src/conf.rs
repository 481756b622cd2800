//! Checks of chains, options, configuration strings and the chain builder (C17, C19-C21).
use crate::util::*;
use crate::{ensure, note};
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use std::borrow::Cow;
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<String>>>;
type Dyn = Box<dyn BuildableSampler<usize, f32>>;

/// A user-defined sampler that records how it is called.
#[derive(Debug, Clone)]
pub struct Probe {
    id: usize,
    fail: bool,
    token: Option<u32>,
    own_token_call: bool,
    val: usize,
    flag: bool,
    log: Log,
}
impl Sampler for Probe {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        let mut c = 0;
        let _ = res.with_last_tokens_mut(&mut |t| {
            t.push(self.id as u32);
            c += 1;
        });
        self.log.lock().unwrap().push(format!("prepend {} {c}", self.id));
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        let mut seen = 0;
        let _ = res.with_last_tokens(&mut |t| seen = t.len());
        self.log.lock().unwrap().push(format!("sample {} {seen} {:?}", self.id, ids(logits)));
        if self.fail {
            return Err(SamplerError::InternalError(format!("probe {}", self.id)));
        }
        logits.push(Logit { token_id: 100 + self.id as u32, logit: 0.5, prob: 0.0 });
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<TID> {
        self.token
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, logits: &mut Logits) -> Result<Option<TID>, SamplerError> {
        if self.own_token_call {
            self.log.lock().unwrap().push(format!("token {}", self.id));
            let _ = self.sample(res, logits)?;
            return Ok(self.token.map(|x| x + 1));
        }
        let _ = self.sample(res, logits)?;
        Ok(self.token)
    }
}
impl ConfigurableSampler<usize, f32> for Probe {}
impl HasSamplerMetadata<usize, f32> for Probe {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "probe", description: None, options: vec![md("val", SamplerOptionType::UInt), md("flag", SamplerOptionType::Bool)] }
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        SamplerOptions::from([
            (md("val", SamplerOptionType::UInt), Some(SamplerOptionValueMut::UInt(&mut self.val))),
            (md("flag", SamplerOptionType::Bool), Some(SamplerOptionValueMut::Bool(&mut self.flag))),
        ])
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        SamplerOptions::from([
            (md("val", SamplerOptionType::UInt), Some(SamplerOptionValue::UInt(self.val))),
            (md("flag", SamplerOptionType::Bool), Some(SamplerOptionValue::Bool(self.flag))),
        ])
    }
}
fn md(key: &'static str, t: SamplerOptionType) -> SamplerOptionMetadata {
    SamplerOptionMetadata { key, description: None, option_type: t }
}
fn probe(id: usize, log: &Log) -> Probe {
    Probe { id, fail: false, token: None, own_token_call: false, val: 0, flag: false, log: log.clone() }
}
fn wrap_push(c: &mut SamplerChain, p: Probe, how: usize) {
    match how {
        0 => {
            c.push_sampler(p);
        }
        1 => {
            c.push_sampler(Box::new(p) as Box<dyn Sampler>);
        }
        2 => {
            c.push_sampler(Arc::new(Mutex::new(p)) as Arc<Mutex<dyn Sampler>>);
        }
        3 => {
            c.push_sampler(Box::new(p) as Dyn);
        }
        4 => *c += p,
        _ => {
            let old = std::mem::take(c);
            *c = old + p;
        }
    }
}

pub fn c17(g: &mut G) -> R {
    let log: Log = Default::default();
    if g.chance(0.3) {
        // the wrappers alone
        let mut p = probe(7, &log);
        p.fail = g.chance(0.3);
        p.token = g.pick(&[None, Some(5)]);
        p.own_token_call = g.chance(0.5);
        let how = g.below(3);
        note!("wrapper {how} of {p:?}");
        let mut plain = p.clone();
        plain.log = Default::default();
        let mut w: Box<dyn Sampler> = match how {
            0 => Box::new(Box::new(p) as Box<dyn Sampler>),
            1 => Box::new(Arc::new(Mutex::new(p)) as Arc<Mutex<dyn Sampler>>),
            _ => Box::new(Box::new(p) as Dyn),
        };
        for _ in 0..g.range(1, 4) {
            let mut r1 = Res::new(None, Some(vec![1, 2]));
            let mut r2 = Res::new(None, Some(vec![1, 2]));
            let mut l1 = build(&[1.0, 2.0]);
            let mut l2 = l1.clone();
            let (a, b) = match g.below(4) {
                0 => {
                    w.sample_prepend(&mut r1);
                    plain.sample_prepend(&mut r2);
                    (String::new(), String::new())
                }
                1 => (format!("{:?}", w.sample(&mut r1, &mut l1)), format!("{:?}", plain.sample(&mut r2, &mut l2))),
                2 => (format!("{:?}", w.sample_token(&mut r1, &mut l1)), format!("{:?}", plain.sample_token(&mut r2, &mut l2))),
                _ => (format!("{:?}", w.sampled_token_id()), format!("{:?}", plain.sampled_token_id())),
            };
            ensure!(a == b, "through the wrapper: {a}, direct: {b}");
            ensure!(snap(&l1) == snap(&l2) && r1.tokens == r2.tokens, "effects differ through the wrapper");
            let (x, y) = (log.lock().unwrap().clone(), plain.log.lock().unwrap().clone());
            ensure!(x == y, "calls received through the wrapper {x:?}, direct {y:?}");
        }
        return Ok(());
    }
    let n = g.below(6);
    let mut c = SamplerChain::new();
    let mut ps: Vec<Probe> = vec![];
    let mut fresh = true;
    let mut token: Option<u32> = None;
    let nested = g.chance(0.2);
    for i in 0..n {
        let mut p = probe(i, &log);
        p.fail = g.chance(0.12);
        p.token = if g.chance(0.5) { Some(i as u32 + 10) } else { None };
        let how = g.below(6);
        note!("push {how} {p:?}");
        if nested && i == 1 {
            let mut inner = SamplerChain::new();
            wrap_push(&mut inner, p.clone(), how);
            c.push_sampler(inner);
            // a nested chain reports nothing before it has run
        } else {
            wrap_push(&mut c, p.clone(), how);
        }
        ps.push(p);
    }
    ensure!(c.sampled_token_id().is_none(), "a new chain reports {:?}", c.sampled_token_id());
    for step in 0..g.range(1, 4) {
        log.lock().unwrap().clear();
        match g.below(4) {
            0 => {
                note!("prepend");
                let mut r = Res::new(None, Some(vec![]));
                c.sample_prepend(&mut r);
                let want: Vec<String> = ps.iter().map(|p| format!("prepend {} 1", p.id)).collect();
                ensure!(*log.lock().unwrap() == want, "prepend calls {:?}, expected {want:?}", log.lock().unwrap());
                ensure!(r.tokens == Some(ps.iter().map(|p| p.id as u32).collect()), "prepend effects {:?}", r.tokens);
            }
            1 if ps.len() < 8 => {
                let mut p = probe(ps.len(), &log);
                p.token = Some(77);
                note!("push {p:?}");
                wrap_push(&mut c, p.clone(), g.below(5));
                ps.push(p);
                token = None;
                ensure!(c.sampled_token_id().is_none(), "after adding a sampler {:?} is reported", c.sampled_token_id());
            }
            _ => {
                let mut l = build(&[1.0]);
                let mut r = Res::new(None, Some(vec![3; step]));
                let as_token = g.chance(0.5);
                note!("sample");
                let out = if as_token { c.sample_token(&mut r, &mut l).map(Some) } else { c.sample(&mut r, &mut l).map(|_| None) };
                let mut want = vec![];
                let mut idl = vec![0u32];
                let mut failed = None;
                token = None;
                for p in &ps {
                    want.push(format!("sample {} {step} {:?}", p.id, idl));
                    if p.fail {
                        failed = Some(p.id);
                        break;
                    }
                    idl.push(100 + p.id as u32);
                    token = p.token;
                }
                ensure!(*log.lock().unwrap() == want, "calls {:?}, expected {want:?}", log.lock().unwrap());
                ensure!(ids(&l) == idl, "result {:?}, expected {idl:?}", ids(&l));
                match (&out, failed) {
                    (Err(SamplerError::InternalError(m)), Some(i)) => ensure!(*m == format!("probe {i}"), "error {m}"),
                    (Ok(_), None) => {}
                    _ => return Err(format!("returned {out:?}, failing sampler {failed:?}")),
                }
                if failed.is_none() {
                    ensure!(c.sampled_token_id() == token, "reports {:?}, the last sampler has {token:?}", c.sampled_token_id());
                } else if failed == Some(0) {
                    ensure!(c.sampled_token_id().is_none(), "the first sampler failed, but {:?} is reported", c.sampled_token_id());
                }
                if let Ok(Some(t)) = out {
                    ensure!(t == token, "sample_token returned {t:?} instead of {token:?}");
                }
            }
        }
        fresh = false;
    }
    let _ = (fresh, token);
    Ok(())
}

#[derive(Clone, Debug)]
struct Known {
    name: &'static str,
    opts: Vec<(&'static str, SamplerOptionType)>,
}
use SamplerOptionType::{Float as F, UInt as U};
fn known() -> Vec<(Known, fn() -> Dyn)> {
    macro_rules! k {
        ($n:expr, $e:expr, $($o:expr),*) => { (Known { name: $n, opts: vec![$($o),*] }, (|| Box::new($e) as Dyn) as fn() -> Dyn) };
    }
    vec![
        k!("flat bias", SampleFlatBias::default(),),
        k!("frequency/presence", SampleFreqPresence::default(), ("frequency_penalty", F), ("presence_penalty", F), ("last_n", U)),
        k!("greedy", SampleGreedy::default(),),
        k!("locally typical", SampleLocallyTypical::default(), ("p", F), ("min_keep", U)),
        k!("min-p", SampleMinP::default(), ("p", F), ("min_keep", U)),
        k!("mirostat 1", SampleMirostat1::default(), ("tau", F), ("eta", F), ("mu", F), ("m", U), ("n_vocab", U)),
        k!("mirostat 2", SampleMirostat2::default(), ("tau", F), ("eta", F), ("mu", F)),
        k!("random distribution", SampleRandDistrib::default(),),
        k!("repetition", SampleRepetition::default(), ("penalty", F), ("last_n", U)),
        k!("sequence repetition", SampleSeqRepetition::default(), ("flat_penalty", F), ("stacking_penalty", F), ("min_length", U), ("tolerance", U), ("max_merge", U), ("last_n", U)),
        k!("tail free", SampleTailFree::default(), ("z", F), ("min_keep", U)),
        k!("temperature", SampleTemperature::default(), ("temperature", F)),
        k!("top-a", SampleTopA::default(), ("a1", F), ("a2", F), ("min_keep", U)),
        k!("top-k", SampleTopK::default(), ("k", U), ("min_keep", U)),
        k!("top-p", SampleTopP::default(), ("p", F), ("min_keep", U)),
    ]
}
/// What the typed builder methods produce for a sampler and option (for the link between key and field).
fn by_builder(name: &str, key: &str, u: usize, f: f32) -> Option<String> {
    macro_rules! d {
        ($e:expr) => {
            Some(format!("{:?}", $e))
        };
    }
    match (name, key) {
        ("frequency/presence", "frequency_penalty") => d!(SampleFreqPresence::default().frequency(f)),
        ("frequency/presence", "presence_penalty") => d!(SampleFreqPresence::default().presence(f)),
        ("frequency/presence", "last_n") => d!(SampleFreqPresence::default().last_n(u)),
        ("locally typical", "p") => d!(SampleLocallyTypical::default().p(f)),
        ("locally typical", "min_keep") => d!(SampleLocallyTypical::default().min_keep(u)),
        ("min-p", "p") => d!(SampleMinP::default().p(f)),
        ("min-p", "min_keep") => d!(SampleMinP::default().min_keep(u)),
        ("mirostat 1", "tau") => d!(SampleMirostat1::default().tau(f)),
        ("mirostat 1", "eta") => d!(SampleMirostat1::default().eta(f)),
        ("mirostat 1", "mu") => d!(SampleMirostat1::default().mu(f)),
        ("mirostat 1", "m") => d!(SampleMirostat1::default().m(u)),
        ("mirostat 1", "n_vocab") => d!(SampleMirostat1::default().n_vocab(u)),
        ("mirostat 2", "tau") => d!(SampleMirostat2::default().tau(f)),
        ("mirostat 2", "eta") => d!(SampleMirostat2::default().eta(f)),
        ("mirostat 2", "mu") => d!(SampleMirostat2::default().mu(f)),
        ("repetition", "penalty") => d!(SampleRepetition::default().penalty(f)),
        ("repetition", "last_n") => d!(SampleRepetition::default().last_n(u)),
        ("sequence repetition", "flat_penalty") => d!(SampleSeqRepetition::default().flat_penalty(f)),
        ("sequence repetition", "stacking_penalty") => d!(SampleSeqRepetition::default().stacking_penalty(f)),
        ("sequence repetition", "min_length") => d!(SampleSeqRepetition::default().min_length(u)),
        ("sequence repetition", "tolerance") => d!(SampleSeqRepetition::default().tolerance(u)),
        ("sequence repetition", "max_merge") => d!(SampleSeqRepetition::default().max_merge(u)),
        ("sequence repetition", "last_n") => d!(SampleSeqRepetition::default().last_n(u)),
        ("tail free", "z") => d!(SampleTailFree::default().z(f)),
        ("tail free", "min_keep") => d!(SampleTailFree::default().min_keep(u)),
        ("temperature", "temperature") => d!(SampleTemperature::default().temperature(f)),
        ("top-a", "a1") => d!(SampleTopA::default().a1(f)),
        ("top-a", "a2") => d!(SampleTopA::default().a2(f)),
        ("top-a", "min_keep") => d!(SampleTopA::default().min_keep(u)),
        ("top-k", "k") => d!(SampleTopK::default().k(u)),
        ("top-k", "min_keep") => d!(SampleTopK::default().min_keep(u)),
        ("top-p", "p") => d!(SampleTopP::default().p(f)),
        ("top-p", "min_keep") => d!(SampleTopP::default().min_keep(u)),
        _ => None,
    }
}
fn state(s: &Dyn, k: &Known) -> Result<Vec<String>, String> {
    k.opts
        .iter()
        .map(|o| match s.get_option(o.0) {
            Ok(SamplerOptionValue::UInt(x)) if o.1 == U => Ok(format!("u{x}")),
            Ok(SamplerOptionValue::Float(x)) if o.1 == F => Ok(format!("f{:x}", x.to_bits())),
            o2 => Err(format!("reading {} of {} gives {o2:?}", o.0, k.name)),
        })
        .collect()
}
/// Reference for key resolution.
#[derive(Debug, PartialEq, Clone)]
enum Find {
    At(usize),
    Ambiguous,
    Unknown,
}
fn find(keys: &[&str], key: &str) -> Find {
    let key = key.trim();
    if let Some(i) = keys.iter().position(|k| *k == key) {
        return Find::At(i);
    }
    let c: Vec<usize> = (0..keys.len()).filter(|i| keys[*i].starts_with(key)).collect();
    match c.len() {
        0 => Find::Unknown,
        1 => Find::At(c[0]),
        _ => Find::Ambiguous,
    }
}
fn any_key(g: &mut G, keys: &[&str]) -> String {
    let mut k = match g.below(8) {
        0 => String::new(),
        1 => g.pick(&["x", "min", "m", "p", "last", "zz", "tau2", "mu", "P", "é", "min_keepx"]).to_string(),
        _ if !keys.is_empty() => {
            let k = g.pick(keys);
            let c: Vec<char> = k.chars().collect();
            let n = if g.chance(0.6) { c.len() } else { g.range(0, c.len()) };
            c[..n].iter().collect()
        }
        _ => "k".to_string(),
    };
    if g.chance(0.15) {
        k = format!(" {k}\t");
    }
    k
}
fn kind(e: &anyhow::Error) -> &'static str {
    match e.downcast_ref::<ConfigureSamplerError>() {
        Some(ConfigureSamplerError::AmbiguousKey(_)) => "ambiguous",
        Some(ConfigureSamplerError::UnknownOrBadType(_)) => "unknown",
        Some(ConfigureSamplerError::ConversionFailure(_)) => "conversion",
        Some(ConfigureSamplerError::CannotAccessOptionValue(_)) => "access",
        None => "other",
    }
}

pub fn c19(g: &mut G) -> R {
    let all = known();
    let (k, mk) = all[g.below(all.len())].clone();
    let keys: Vec<&str> = k.opts.iter().map(|o| o.0).collect();
    let mut s = mk();
    for _ in 0..g.range(1, 5) {
        let before = state(&s, &k)?;
        let key = any_key(g, &keys);
        let want_type = match find(&keys, &key) {
            Find::At(i) => Some((i, k.opts[i].1)),
            _ => None,
        };
        let right = g.chance(0.75);
        let u: u64 = if g.chance(0.3) { g.pick(&[0, 1, u64::MAX, 1 << 40]) } else { g.below(100) as u64 };
        let f: f64 = match g.below(4) {
            0 => any_f32(g) as f64,
            1 => g.pick(&[1e300, -1e300, 1e-300, f64::NAN, f64::INFINITY, 0.1, 1.0 / 3.0, f32::MAX as f64]),
            _ => g.f() * 10.0 - 3.0,
        };
        let v = match (want_type.map(|t| t.1), right) {
            (Some(U), true) => SamplerOptionValue::UInt(u),
            (Some(F), true) => SamplerOptionValue::Float(f),
            (Some(U), false) => g.pick(&[SamplerOptionValue::Float(f), SamplerOptionValue::Bool(true), SamplerOptionValue::String(Cow::from("3"))]),
            (Some(F), false) => g.pick(&[SamplerOptionValue::UInt(u), SamplerOptionValue::Bool(true), SamplerOptionValue::String(Cow::from("3"))]),
            _ => SamplerOptionValue::UInt(u),
        };
        note!("{}: set_option({key:?}, {v:?}) on {s:?}", k.name);
        let dbg = format!("{s:?}");
        let r = s.set_option(&key, v.clone());
        let after = state(&s, &k)?;
        note!("-> {r:?} {s:?}");
        let mut want = before.clone();
        match find(&keys, &key) {
            Find::At(i) => {
                if right {
                    ensure!(r.is_ok(), "failed: {r:?}");
                    want[i] = match v {
                        SamplerOptionValue::UInt(x) => format!("u{x}"),
                        _ => format!("f{:x}", ((f as f32) as f64).to_bits()),
                    };
                    if f.is_nan() && k.opts[i].1 == F {
                        continue;
                    }
                    if k.name.starts_with("mirostat") && keys[i] == "tau" {
                        want[2] = format!("f{:x}", ((f as f32 * 2.0) as f64).to_bits());
                    }
                    if let Some(w) = by_builder(k.name, keys[i], u as usize, f as f32) {
                        let mut s2 = mk();
                        s2.set_option(&key, v.clone()).map_err(|e| format!("failed: {e}"))?;
                        ensure!(format!("{s2:?}") == w, "on a default sampler the option gives {s2:?}, the builder method {w}");
                    }
                } else {
                    ensure!(r.is_err(), "a value of the wrong type was accepted");
                    ensure!(format!("{s:?}") == dbg, "a failing set_option changed the sampler");
                }
            }
            Find::Ambiguous | Find::Unknown => {
                ensure!(r.is_err(), "an {:?} key was accepted", find(&keys, &key));
                ensure!(format!("{s:?}") == dbg, "a failing set_option changed the sampler");
            }
        }
        ensure!(after == want, "options {keys:?} are {after:?}, expected {want:?}");
        // unique read-back through an abbreviated key
        if let Find::At(i) = find(&keys, &key) {
            let x = match s.get_option(&key) {
                Ok(SamplerOptionValue::UInt(x)) => format!("u{x}"),
                Ok(SamplerOptionValue::Float(x)) => format!("f{:x}", x.to_bits()),
                o => return Err(format!("reading back gives {o:?}")),
            };
            ensure!(x == want[i], "reading back through {key:?} gives {x}");
        } else {
            ensure!(s.get_option(&key).is_err(), "reading an unresolvable key works");
        }
        if want.iter().any(|x| x.starts_with("f7ff8")) {
            return Ok(());
        }
    }
    Ok(())
}

/// A user-defined sampler with an arbitrary option table.
#[derive(Debug, Clone)]
struct Tab {
    keys: Vec<(&'static str, SamplerOptionType, bool)>,
    u: Vec<u8>,
    f: Vec<f32>,
    b: Vec<bool>,
    s: Vec<Cow<'static, str>>,
}
impl ConfigurableSampler<u8, f32> for Tab {}
impl HasSamplerMetadata<u8, f32> for Tab {
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, u8, f32>> {
        let v: Vec<_> = self
            .keys
            .iter()
            .zip(self.u.iter_mut().zip(self.f.iter_mut()).zip(self.b.iter_mut().zip(self.s.iter_mut())))
            .map(|((k, t, acc), ((u, f), (b, s)))| {
                (md(k, *t), acc.then(|| match t {
                    SamplerOptionType::UInt => SamplerOptionValueMut::UInt(u),
                    SamplerOptionType::Float => SamplerOptionValueMut::Float(f),
                    SamplerOptionType::Bool => SamplerOptionValueMut::Bool(b),
                    SamplerOptionType::String => SamplerOptionValueMut::String(s),
                }))
            })
            .collect();
        SamplerOptions::from(v)
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, u8, f32>> {
        let v: Vec<_> = self
            .keys
            .iter()
            .enumerate()
            .map(|(i, (k, t, acc))| {
                (md(k, *t), acc.then(|| match t {
                    SamplerOptionType::UInt => SamplerOptionValue::UInt(self.u[i]),
                    SamplerOptionType::Float => SamplerOptionValue::Float(self.f[i]),
                    SamplerOptionType::Bool => SamplerOptionValue::Bool(self.b[i]),
                    SamplerOptionType::String => SamplerOptionValue::String(Cow::from(self.s[i].to_string())),
                }))
            })
            .collect();
        SamplerOptions::from(v)
    }
}
fn tab(g: &mut G) -> Tab {
    const KEYS: &[&str] = &["a", "ab", "abc", "abd", "b", "ba", "min", "min_keep", "m", "é", "éa", "p", "penalty", "x y", ""];
    let n = g.below(5);
    let mut ks: Vec<&'static str> = vec![];
    while ks.len() < n {
        let k = g.pick(KEYS);
        if !ks.contains(&k) && (!k.is_empty() || g.chance(0.1)) {
            ks.push(k);
        }
    }
    let ty = [SamplerOptionType::UInt, SamplerOptionType::Float, SamplerOptionType::Bool, SamplerOptionType::String];
    let all = g.chance(0.7);
    Tab {
        keys: ks.into_iter().map(|k| (k, g.pick(&ty), all || g.chance(0.7))).collect(),
        u: vec![7; n],
        f: vec![0.5; n],
        b: vec![false; n],
        s: vec![Cow::from("init"); n],
    }
}
fn parse_ref(t: &mut Tab, i: usize, v: &str) -> Result<(), &'static str> {
    let v = v.trim();
    match t.keys[i].1 {
        SamplerOptionType::UInt => {
            let x: u64 = v.parse().map_err(|_| "other")?;
            t.u[i] = u8::try_from(x).map_err(|_| "conversion")?;
        }
        SamplerOptionType::Float => {
            let x: f64 = v.parse().map_err(|_| "other")?;
            t.f[i] = x as f32;
        }
        SamplerOptionType::Bool => {
            t.b[i] = match v {
                "true" | "t" | "yes" | "1" => true,
                "false" | "f" | "no" | "0" => false,
                _ => return Err("other"),
            }
        }
        SamplerOptionType::String => t.s[i] = Cow::from(v.to_string()),
    }
    Ok(())
}

pub fn c20(g: &mut G) -> R {
    if g.chance(0.05) {
        // names and tables of the built-in samplers
        let all = known();
        let mut names = vec![];
        for (k, mk) in &all {
            let mut s = mk();
            let m = s.sampler_metadata();
            ensure!(!names.contains(&m.name), "two samplers are named {}", m.name);
            names.push(m.name);
            let opts: Vec<_> = m.options.iter().map(|o| (o.key, o.option_type)).collect();
            for (i, o) in opts.iter().enumerate() {
                ensure!(!opts[..i].iter().any(|p| p.0 == o.0), "{} lists {} twice", m.name, o.0);
            }
            let a: Vec<_> = s.sampler_options().iter().map(|(m, v)| (m.key, v.is_some())).collect();
            let b: Vec<_> = s.sampler_options_mut().iter().map(|(m, v)| (m.key, v.is_some())).collect();
            if !opts.is_empty() || !a.is_empty() {
                ensure!(a == b && a.iter().map(|x| x.0).eq(opts.iter().map(|x| x.0)), "{}: metadata {opts:?}, options {a:?}, mutable {b:?}", m.name);
            }
            let mut w: Vec<_> = k.opts.iter().map(|o| o.0).collect();
            let mut h: Vec<_> = opts.iter().map(|o| o.0).collect();
            w.sort();
            h.sort();
            ensure!(w == h, "{} has options {h:?}, documented {w:?}", m.name);
        }
        return Ok(());
    }
    let mut t = tab(g);
    let keys: Vec<&str> = t.keys.iter().map(|k| k.0).collect();
    if g.chance(0.5) {
        let key = any_key(g, &keys);
        note!("table {:?} key {key:?}", t.keys);
        let o = t.sampler_options();
        let r = o.find_option_definition(&key);
        let w = find(&keys, &key);
        match (&r, &w) {
            (Ok((m, i)), Find::At(j)) => {
                ensure!(m.key == keys[*j] && m.option_type == t.keys[*j].1, "resolved to {}", m.key);
                ensure!(*i == t.keys[*j].2.then_some(*j), "accessible index {i:?} for position {j}");
            }
            (Err(e), Find::Ambiguous) => ensure!(kind(e) == "ambiguous", "reported {e}"),
            (Err(e), Find::Unknown) => ensure!(kind(e) == "unknown", "reported {e}"),
            _ => return Err(format!("got {r:?}, expected {w:?}")),
        }
        return Ok(());
    }
    let mut parts = vec![];
    for _ in 0..g.below(5) {
        let vals = ["1", " 3 ", "300", "-1", "0.5", "true", "no", "inf", "-INF", "nan", "", "text", "a=b", "1e3", "+7", "yes ", "18446744073709551615", "é"];
        let mut v = g.pick(&vals).to_string();
        if g.chance(0.5) && !keys.is_empty() {
            let i = g.below(keys.len());
            v = match t.keys[i].1 {
                SamplerOptionType::UInt => "12",
                SamplerOptionType::Float => "0.25",
                SamplerOptionType::Bool => "t",
                SamplerOptionType::String => "word",
            }
            .to_string();
            parts.push(format!("{}={v}", keys[i]));
            continue;
        }
        let ws = |g: &mut G| g.pick(&["", "", "", " ", "\t"]);
        parts.push(match g.below(5) {
            0 => format!("{}{v}", ws(g)),
            1 => ws(g).to_string(),
            _ => format!("{}{}{}={}{v}{}", ws(g), any_key(g, &keys), ws(g), ws(g), ws(g)),
        });
    }
    let s = format!("{}{}{}", g.pick(&["", " "]), parts.join(":"), g.pick(&["", ":", " ", "::"]));
    note!("table {:?} configure {s:?}", t.keys);
    let mut w = t.clone();
    let mut werr = None;
    for part in s.split(':') {
        let part = part.trim();
        if part.is_empty() {
            continue;
        }
        let (k, v) = match part.find('=') {
            Some(i) => (&part[..i], &part[i + 1..]),
            None => ("", part),
        };
        match find(&keys, k) {
            Find::Ambiguous => werr = Some("ambiguous"),
            Find::Unknown => werr = Some("unknown"),
            Find::At(i) if !w.keys[i].2 => werr = Some("unknown"),
            Find::At(i) => {
                if let Err(e) = parse_ref(&mut w, i, v) {
                    werr = Some(e);
                }
            }
        }
        if werr.is_some() {
            break;
        }
    }
    let r = t.configure(&s);
    note!("-> {r:?} {t:?}");
    match (&r, werr) {
        (Ok(()), None) => {}
        (Err(e), Some(k)) => ensure!(kind(e) == k, "reported {e} ({}), expected {k}", kind(e)),
        _ => return Err(format!("returned {r:?}, expected error {werr:?}")),
    }
    ensure!(format!("{t:?}") == format!("{w:?}"), "options are {t:?}, expected {w:?}");
    Ok(())
}

pub fn c21(g: &mut G) -> R {
    let log: Log = Default::default();
    // the model: per slot its name, kind, and the configured samplers as (origin, val, flag)
    type M = (usize, usize, bool);
    #[derive(Clone, Debug)]
    struct S {
        name: String,
        kind: usize,
        have: Vec<M>,
    }
    let mut slots: Vec<S> = vec![];
    let mut b: SamplerChainBuilder<usize, f32> = SamplerChainBuilder::default();
    let mut first = vec![];
    let n = g.below(6);
    for i in 0..n {
        let name = g.pick(&["a", "b", "c", "ab"]).to_string();
        let kind = g.below(3);
        let lg = log.clone();
        let factory = move || -> Dyn { Box::new(probe(i, &lg)) };
        let mut have = vec![];
        let slot = match kind {
            0 => SamplerSlot::new_static(factory),
            1 => {
                let s = g.chance(0.5).then(|| Probe { val: 40 + i, ..probe(50 + i, &log) });
                if let Some(p) = &s {
                    have.push((p.id, p.val, p.flag));
                }
                SamplerSlot::new_single(factory, s)
            }
            _ => {
                let k = g.below(3);
                let v: Vec<Dyn> = (0..k).map(|j| Box::new(Probe { val: j, ..probe(60 + i, &log) }) as Dyn).collect();
                have.extend((0..k).map(|j| (60 + i, j, false)));
                SamplerSlot::new_chain(factory, v)
            }
        };
        slots.push(S { name: name.clone(), kind, have });
        first.push((name, slot));
    }
    let rest = first.split_off(g.below(first.len() + 1));
    if !first.is_empty() {
        b = SamplerChainBuilder::from(first);
    }
    for (name, slot) in rest {
        match g.below(3) {
            0 => b.push_slot(name, slot),
            1 => b += (name, slot),
            _ => b = b + (name, slot),
        }
    }
    let order: Vec<String> = b.iter().map(|s| s.0.clone()).collect();
    ensure!(order == slots.iter().map(|s| s.name.clone()).collect::<Vec<_>>(), "slots {order:?} instead of {:?}", slots.iter().map(|s| &s.name).collect::<Vec<_>>());
    note!("slots {slots:?}");
    for _ in 0..g.below(7) {
        if g.chance(0.25) && !slots.is_empty() {
            let i = g.below(slots.len());
            note!("ensure_present {i}");
            b[i].1.ensure_present();
            if slots[i].kind != 0 && slots[i].have.is_empty() {
                slots[i].have.push((i, 0, false));
            }
            continue;
        }
        let name = g.pick(&["a", "b", "c", "ab", "", "d"]);
        let cfg = g.pick(&["val=3", "val=5:flag=t", "flag=yes", "", "bogus=1", "val=x", "val=9:val=x", "flag=t:nope=1", " val = 8 "]);
        note!("configure({name:?}, {cfg:?})");
        let r = b.configure(name, cfg);
        note!("-> {r:?}");
        let parse = |m: M| -> (M, bool) {
            let mut m = m;
            for part in cfg.split(':').map(str::trim).filter(|x| !x.is_empty()) {
                let (k, v) = part.split_once('=').unwrap();
                match (k.trim(), v.trim()) {
                    ("val", v) => match v.parse() {
                        Ok(x) => m.1 = x,
                        Err(_) => return (m, false),
                    },
                    ("flag", "t" | "yes") => m.2 = true,
                    _ => return (m, false),
                }
            }
            (m, true)
        };
        match slots.iter().position(|s| s.name == name) {
            None => ensure!(matches!(r.as_ref().err().and_then(|e| e.downcast_ref::<BuildSamplersError>()), Some(BuildSamplersError::UnknownSlot(x)) if x == name), "unknown slot: {r:?}"),
            Some(i) => {
                let s = &mut slots[i];
                match s.kind {
                    0 => ensure!(matches!(r.as_ref().err().and_then(|e| e.downcast_ref::<BuildSamplersError>()), Some(BuildSamplersError::CannotConfigureStatic(x)) if x == name), "static slot: {r:?}"),
                    k => {
                        let update = k == 1 && !s.have.is_empty();
                        let (m, good) = parse(if update { s.have[0] } else { (i, 0, false) });
                        ensure!(r.is_ok() == good, "returned {r:?}");
                        if !good {
                            ensure!(matches!(r.as_ref().err().and_then(|e| e.downcast_ref::<BuildSamplersError>()), Some(BuildSamplersError::ConfigureFailed { name: x, .. }) if x == name), "failing configuration: {r:?}");
                        }
                        if update {
                            s.have[0] = m;
                        } else if good {
                            s.have.push(m);
                        }
                    }
                }
            }
        }
        // nothing but the named slot changed
        for (i, s) in slots.iter().enumerate() {
            let k = match &b[i].1 {
                SamplerSlot::Static { .. } => 0,
                SamplerSlot::Single { sampler, .. } => sampler.is_some() as usize,
                SamplerSlot::Chain { samplers, .. } => samplers.len(),
            };
            ensure!(k == s.have.len(), "slot {i} holds {k} samplers, expected {}", s.have.len());
        }
    }
    let mut want = vec![];
    for (i, s) in slots.iter().enumerate() {
        if s.kind == 0 {
            want.push((i, 0, false));
        }
        want.extend(s.have.iter().copied());
    }
    let c = b.into_chain();
    // what the chain holds, through its public debug output and by running it
    let dbg = format!("{c:?}");
    let got: Vec<M> = dbg
        .split("Probe { id: ")
        .skip(1)
        .map(|x| {
            let f: Vec<&str> = x.split(", ").collect();
            let id = f[0].parse().unwrap_or(9999);
            let val = f.iter().find_map(|y| y.strip_prefix("val: ")).and_then(|y| y.parse().ok()).unwrap_or(9999);
            (id, val, x.contains("flag: true"))
        })
        .collect();
    ensure!(got == want, "the chain holds (origin, val, flag) {got:?}, expected {want:?}");
    let mut c = c;
    log.lock().unwrap().clear();
    let mut l = Logits::default();
    c.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
    let ran: Vec<u32> = ids(&l).iter().map(|x| x - 100).collect();
    ensure!(ran == want.iter().map(|x| x.0 as u32).collect::<Vec<_>>(), "the chain ran {ran:?}, expected {want:?}");
    Ok(())
}

pub fn c22_options(g: &mut G) -> R {
    if !g.chance(0.1) {
        return Ok(());
    }
    let all = known();
    let (k, mk) = all[g.below(all.len())].clone();
    let keys: Vec<&str> = k.opts.iter().map(|o| o.0).collect();
    let mut s = mk();
    let key = any_key(g, &keys);
    let v = g.pick(&["", "1", "-1", "nan", "inf", "1e400", "99999999999999999999", "=", "==", "a=b=c", "\u{0}", "é", "0x10", "18446744073709551615"]);
    let c = format!("{key}={v}");
    note!("{}: configure({c:?})", k.name);
    let _ = s.configure(&c);
    let _ = s.configure(v);
    let _ = s.get_option(&key);
    let mut l = build(&any_scores(g, 5));
    let mut r = Res::new(Some(1), Some(vec![1, 2, 3, 1, 2, 3]));
    let _ = s.sample_token(&mut r, &mut l);
    Ok(())
}
