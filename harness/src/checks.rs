//! Checks of the set of logits and of the samplers (C01-C16, C18, C22, C23).
use crate::util::*;
use crate::{ensure, note};
use llm_samplers::prelude::*;
use rand::distributions::{Distribution, WeightedIndex};

fn ix(l: &Logits) -> Logits {
    let mut c = l.clone();
    c.ensure_softmax().expect("normalising consistent logits with a finite maximum failed");
    c
}

pub fn c01(g: &mut G) -> R {
    let n = len(g);
    let v = if g.chance(0.6) { scores(g, n) } else { any_scores(g, n) };
    note!("scores {:?}", v.iter().map(|x| fl(*x)).collect::<Vec<_>>());
    let nan = v.iter().position(|x| x.is_nan());
    let kind = g.below(3);
    let r = match kind {
        0 => Logits::try_from_iter(v.iter().copied()),
        1 => Logits::try_from(v.clone()),
        _ => Logits::try_from_iter(v.iter().copied().filter(|_| true)),
    };
    match (r, nan) {
        (Err(LogitsError::InvalidLogit(i)), Some(p)) => ensure!(i == p, "failure names position {i}, the first NaN is at {p}"),
        (Err(e), _) => return Err(format!("unexpected error {e:?}")),
        (Ok(_), Some(p)) => return Err(format!("NaN at {p} accepted")),
        (Ok(l), None) => {
            ensure!(l.len() == n, "{} entries for {n} scores", l.len());
            for (i, x) in l.iter().enumerate() {
                ensure!(x.token_id as usize == i, "entry {i} has token id {}", x.token_id);
                ensure!(x.logit.to_bits() == v[i].to_bits(), "entry {i} has score {} not {}", fl(x.logit), fl(v[i]));
            }
            ensure!(!l.get_sorted() && !l.get_softmax(), "fresh logits are marked");
        }
    }
    Ok(())
}

pub fn c02(g: &mut G) -> R {
    let n = len(g);
    let v = if g.chance(0.5) { scores(g, n) } else { any_scores(g, n) };
    let k = any_usize(g, n);
    note!("scores {:?} k {k}", v.iter().map(|x| fl(*x)).collect::<Vec<_>>());
    let l = if g.chance(0.5) { Logits::try_from_iter_top_k(v.iter().copied(), k) } else { Logits::try_from_iter_top_k(v.iter().copied().filter(|_| true), k) };
    let l = l.map_err(|e| format!("failed: {e:?}"))?;
    let mut want: Vec<f32> = v.iter().copied().filter(|x| x.is_finite()).collect();
    want.sort_by(|a, b| b.partial_cmp(a).unwrap());
    want.truncate(k);
    let got: Vec<(usize, f32)> = l.iter().map(|x| (x.token_id as usize, x.logit)).collect();
    ensure!(got.len() == want.len(), "{} entries, expected {}: {got:?}", got.len(), want.len());
    ensure!(got.iter().zip(&want).all(|(a, b)| a.1 == *b), "scores {got:?}, expected {want:?}");
    ensure!(got.iter().all(|a| a.0 < v.len() && v[a.0].to_bits() == a.1.to_bits()), "a score is not at the position its id names: {got:?}");
    let mut seen = got.iter().map(|x| x.0).collect::<Vec<_>>();
    seen.sort_unstable();
    seen.dedup();
    ensure!(seen.len() == got.len(), "a position appears twice: {got:?}");
    Ok(())
}

/// A random built-in sampler (with finite parameters when `fin`).
pub fn any_sampler(g: &mut G, n: usize, fin: bool) -> (String, Box<dyn Sampler>) {
    let f = |g: &mut G| if fin { fin_f32(g) } else { any_f32(g) };
    let pf = |g: &mut G| if g.chance(0.7) { g.f() as f32 } else if fin { fin_f32(g) } else { any_f32(g) };
    let mk = |g: &mut G| any_usize(g, n);
    macro_rules! bx {
        ($e:expr) => {{
            let s = $e;
            (format!("{s:?}"), Box::new(s) as Box<dyn Sampler>)
        }};
    }
    match g.below(14) {
        0 => bx!(SampleTopK::new(mk(g), mk(g))),
        1 => bx!(SampleTopP::new(pf(g), mk(g))),
        2 => bx!(SampleMinP::new(pf(g), mk(g))),
        3 => bx!(SampleTopA::new(pf(g), f(g), mk(g))),
        4 => bx!(SampleTailFree::new(pf(g), mk(g))),
        5 => bx!(SampleLocallyTypical::new(pf(g), mk(g))),
        6 => bx!(SampleMirostat1::new(mk(g), f(g), f(g)).mu(f(g)).m(mk(g))),
        7 => bx!(SampleMirostat2::new(f(g), f(g)).mu(f(g))),
        8 => bx!(SampleGreedy::new()),
        9 => bx!(SampleRandDistrib::new()),
        10 => bx!(SampleFlatBias::new((0..g.below(4)).map(|_| (g.below(n + 2) as u32, f(g))).collect::<Vec<_>>())),
        11 => bx!(SampleRepetition::new(f(g), mk(g))),
        12 => bx!(SampleFreqPresence::new(f(g), f(g), mk(g))),
        _ => {
            if g.chance(0.5) {
                bx!(SampleTemperature::new(f(g)))
            } else {
                let k = g.below(4);
                bx!(SampleSeqRepetition::new(f(g), f(g), if g.chance(0.8) { g.range(1, 4) } else { mk(g) }, if g.chance(0.8) { k } else { mk(g) }, mk(g), if g.chance(0.8) { 64 } else { mk(g) }))
            }
        }
    }
}
pub fn history(g: &mut G, n: usize) -> Vec<u32> {
    let m = len(g).min(40);
    let k = if g.chance(0.5) { 3 } else { n.max(1) + 2 };
    let mut v: Vec<u32> = (0..m).map(|_| g.below(k) as u32).collect();
    if m > 8 && g.chance(0.5) {
        // plant a repeat
        let w = g.range(2, m / 2);
        for i in 0..w {
            v[m - w + i] = v[i];
        }
        if g.chance(0.4) {
            let i = g.below(m);
            v[i] = g.below(k) as u32;
        }
    }
    v
}
fn hist_for(g: &mut G, l: &Logits) -> Vec<u32> {
    let h = history(g, l.len());
    let id = ids(l);
    if id.is_empty() || g.chance(0.2) {
        return h;
    }
    h.iter().map(|x| id[*x as usize % id.len()]).collect()
}
fn markers_ok(l: &Logits) -> R {
    if l.get_sorted() {
        for w in l.windows(2) {
            ensure!(w[0].logit >= w[1].logit, "marked sorted but score {} precedes {}", fl(w[0].logit), fl(w[1].logit));
        }
    }
    if l.get_softmax() && !l.is_empty() {
        let m = l.iter().map(|x| x.logit as f64).fold(f64::NEG_INFINITY, f64::max);
        let t: f64 = l.iter().map(|x| (x.logit as f64 - m).exp()).sum();
        for (i, x) in l.iter().enumerate() {
            let p = (x.logit as f64 - m).exp() / t;
            ensure!(close(x.prob as f64, p, 2e-3, 1e-37), "marked normalised but entry {i} has probability {:e} instead of {p:e}", x.prob);
        }
    }
    Ok(())
}

pub fn c03(g: &mut G) -> R {
    let n = len1(g).min(80);
    let s = scores(g, n);
    let mut l = if g.chance(0.7) { logits_from(g, s.clone()) } else if g.chance(0.5) { Logits::try_from_iter(s.clone()).map_err(|e| e.to_string())? } else { Logits::try_from_iter_top_k(s.clone(), any_usize(g, n)).map_err(|e| e.to_string())? };
    note!("start {}", show(&l));
    markers_ok(&l)?;
    let steps = g.range(1, 6);
    for _ in 0..steps {
        let h = hist_for(g, &l);
        let mut res = Res::new(if g.chance(0.9) { Some(g.u()) } else { None }, if g.chance(0.9) { Some(h) } else { None });
        match g.below(8) {
            0 => {
                let _ = l.ensure_sorted();
                note!("ensure_sorted");
            }
            1 => {
                let _ = l.ensure_softmax();
                note!("ensure_softmax");
            }
            _ => {
                let (d, mut s) = any_sampler(g, l.len(), true);
                note!("{d} with {res:?}");
                let r = s.sample(&mut res, &mut l).map(|_| ());
                note!("-> {r:?}");
            }
        }
        if !l.is_empty() && !finite_max(&l) {
            return Ok(());
        }
        note!("state sorted={} softmax={} {}", l.get_sorted(), l.get_softmax(), show(&l));
        markers_ok(&l)?;
    }
    Ok(())
}

pub fn c04(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    if g.chance(0.3) {
        let (d, mut s) = any_sampler(g, n, true);
        let mut res = Res::new(Some(g.u()), Some(hist_for(g, &l)));
        note!("first {d} with {res:?}");
        let _ = s.sample(&mut res, &mut l);
        if !finite_max(&l) {
            return Ok(());
        }
    }
    let before = l.to_vec();
    let want = sm(&l);
    l.ensure_softmax().map_err(|e| format!("failed: {e}"))?;
    ensure!(l.get_softmax() && l.get_sorted(), "not marked sorted and normalised afterwards");
    ensure!(l.len() == before.len(), "{} tokens became {}", before.len(), l.len());
    for i in 0..l.len() {
        ensure!(
            l[i].token_id == want[i].0.token_id && l[i].logit.to_bits() == want[i].0.logit.to_bits(),
            "position {i} holds ({}, {}) instead of ({}, {})", l[i].token_id, fl(l[i].logit), want[i].0.token_id, fl(want[i].0.logit)
        );
        ensure!(close(l[i].prob as f64, want[i].1, 2e-3, 1e-37), "position {i}: probability {:e} instead of {:e}", l[i].prob, want[i].1);
        ensure!(l[i].prob >= 0.0 && l[i].prob <= 1.0, "position {i}: probability {:e} out of range", l[i].prob);
        ensure!(i == 0 || l[i - 1].prob >= l[i].prob, "probability increases at position {i}");
    }
    let again = snap(&l);
    l.ensure_softmax().map_err(|e| format!("failed: {e}"))?;
    ensure!(snap(&l) == again, "normalising twice changes the set");
    Ok(())
}

pub fn c05(g: &mut G) -> R {
    let n = len(g);
    let s = if g.chance(0.7) { scores(g, n) } else { any_scores(g, n) };
    let mut l = if s.iter().any(|x| x.is_nan()) { build(&s) } else { logits_from(g, s) };
    if g.chance(0.1) && n > 1 {
        let i = g.below(n);
        l[i].token_id = l[0].token_id;
    }
    let (d, mut sp) = any_sampler(g, n, false);
    let mut res = Res::new(if g.chance(0.85) { Some(g.u()) } else { None }, if g.chance(0.85) { Some(hist_for(g, &l)) } else { None });
    let before = l.to_vec();
    note!("sampler {d} with {res:?} on {}", show(&l));
    let r = sp.sample(&mut res, &mut l).map(|_| ());
    note!("-> {r:?}");
    let filter = ["SampleTopK", "SampleTopP", "SampleMinP", "SampleTopA", "SampleTailFree", "SampleLocallyTypical", "SampleMirostat"].iter().any(|p| d.starts_with(p));
    let modifies = ["SampleFlatBias", "SampleRepetition", "SampleFreqPresence", "SampleSeqRepetition", "SampleTemperature"].iter().any(|p| d.starts_with(p));
    if filter {
        ensure!(is_submultiset(&idscore(&l), &idscore(&before)), "tokens after filtering are not a sub-collection: {}", show(&l));
    } else {
        ensure!(same_multiset(&ids(&l), &ids(&before)), "the tokens changed: {:?}", ids(&l));
        if !modifies {
            ensure!(same_multiset(&idscore(&l), &idscore(&before)), "a sampler that must not change scores changed them: {}", show(&l));
        }
    }
    Ok(())
}

pub fn c06(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    let mk = any_usize(g, n);
    let p = if g.chance(0.6) { g.f() as f32 } else { any_f32(g) };
    let q = any_f32(g);
    let mut res = Res::new(if g.chance(0.9) { Some(g.u()) } else { None }, None);
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            note!("{s:?}");
            let r = s.sample(&mut res, &mut l).map(|_| ());
            note!("-> {r:?}");
        }};
    }
    match g.below(8) {
        0 => go!(SampleTopK::new(any_usize(g, n), mk)),
        1 => go!(SampleTopP::new(p, mk)),
        2 => go!(SampleMinP::new(p, mk)),
        3 => go!(SampleTopA::new(p, q, mk)),
        4 => go!(SampleTailFree::new(p, mk)),
        5 => go!(SampleLocallyTypical::new(p, mk)),
        6 => {
            go!(SampleMirostat1::new(any_usize(g, n), p, q).mu(any_f32(g)).m(any_usize(g, n)));
            ensure!(!l.is_empty(), "Mirostat emptied the list");
            return Ok(());
        }
        _ => {
            go!(SampleMirostat2::new(p, q).mu(any_f32(g)));
            ensure!(!l.is_empty(), "Mirostat emptied the list");
            return Ok(());
        }
    }
    ensure!(l.len() >= mk.min(n), "{} tokens left of {n} with min_keep {mk}", l.len());
    Ok(())
}

fn prefix_of(l: &Logits, s: &Logits) -> R {
    ensure!(l.len() <= s.len(), "more tokens than before");
    for i in 0..l.len() {
        ensure!(l[i].token_id == s[i].token_id && l[i].logit.to_bits() == s[i].logit.to_bits(), "position {i} holds ({}, {}), in order of probability it is ({}, {})", l[i].token_id, fl(l[i].logit), s[i].token_id, fl(s[i].logit));
    }
    Ok(())
}
fn probs(s: &Logits) -> Vec<f64> {
    s.iter().map(|x| x.prob as f64).collect()
}

pub fn c07(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    let mk = any_usize(g, n);
    if g.chance(0.4) {
        let k = any_usize(g, n);
        let mut so: Vec<Logit> = l.to_vec();
        so.sort_by(|a, b| b.logit.partial_cmp(&a.logit).unwrap());
        let want = k.max(mk).min(n);
        let mut s = SampleTopK::new(k, mk);
        note!("{s:?}");
        s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
        ensure!(l.len() == want, "{} tokens left instead of {want}", l.len());
        for i in 0..want {
            ensure!(l[i].logit.to_bits() == so[i].logit.to_bits() || l[i].logit == so[i].logit, "position {i} has score {} instead of {}", fl(l[i].logit), fl(so[i].logit));
        }
        ensure!(is_submultiset(&idscore(&l), &idscore(&so)), "tokens invented");
        return Ok(());
    }
    let s0 = ix(&l);
    let pr = probs(&s0);
    let tot: f64 = pr.iter().sum();
    let p = match g.below(6) {
        0 => any_f32(g),
        1 => g.pick(&[0.0, 0.25, 0.5, 0.75, 1.0, 0.125, 2.0, -1.0]),
        2 => {
            // exactly one of the partial sums, in f32
            let k = g.below(n);
            s0.iter().take(k + 1).fold(0f32, |a, x| a + x.prob)
        }
        _ => (g.f() * tot) as f32,
    };
    let mut s = SampleTopP::new(p, mk);
    note!("{s:?}");
    s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
    prefix_of(&l, &s0)?;
    let ex = dyadic(&pr);
    let mut cum = 0f64;
    let mut stops = vec![];
    for k in 0..n {
        cum += pr[k];
        let c = if k + 1 >= mk { ge(cum, p as f64, if ex { 0.0 } else { 2e-5 * cum.max(1e-3) }) } else { Some(false) };
        stops.push((c, k + 1));
    }
    let ok = allowed_cuts(n, &stops);
    ensure!(ok.contains(&l.len()), "{} tokens left, expected one of {ok:?}", l.len());
    Ok(())
}

pub fn c08(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    let mk = any_usize(g, n);
    let s0 = ix(&l);
    let pr = probs(&s0);
    let ratio = |g: &mut G| match g.below(5) {
        0 => any_f32(g),
        1 => g.pick(&[0.0, -0.0, 0.25, 0.5, 1.0, 0.125, 2.0, -1.0]),
        2 => {
            let k = g.below(n);
            s0[k].prob / s0[0].prob
        }
        _ => g.f() as f32,
    };
    let before = (snap(&l), l.get_sorted(), l.get_softmax());
    let (thr, exact, off);
    let mut pwok = true;
    if g.chance(0.5) {
        let p = ratio(g);
        let mut s = SampleMinP::new(p, mk);
        note!("{s:?}");
        s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
        thr = pr[0] * p as f64;
        exact = thr as f32 as f64 == thr;
        off = p == 0.0;
    } else {
        let a1 = ratio(g);
        let a2 = match g.below(4) {
            0 => any_f32(g),
            1 => g.pick(&[0.0, 1.0, 2.0, 0.5, -1.0]),
            _ => (g.f() * 3.0) as f32,
        };
        let mut s = SampleTopA::new(a1, a2, mk);
        note!("{s:?}");
        s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
        let pw = if a2.is_nan() { f64::NAN } else { pr[0].powf(a2 as f64) };
        pwok = pw.abs() > 1e-36 && pw.abs() < 1e38;
        thr = a1 as f64 * pw;
        exact = (a2 == 1.0 || (a2 == 2.0 && (pw as f32) as f64 == pw)) && thr as f32 as f64 == thr;
        off = a1 == 0.0 || a2 == 0.0;
    }
    if off {
        ensure!((snap(&l), l.get_sorted(), l.get_softmax()) == before, "a disabled filter changed the logits");
        return Ok(());
    }
    if thr.is_nan() || !pwok || thr.is_finite() && thr.abs() > 1e38 || (thr != 0.0 && thr.abs() < 1e-36) {
        return Ok(());
    }
    prefix_of(&l, &s0)?;
    let stops: Vec<_> = (mk.max(1)..n).map(|k| (gt(thr, pr[k], if exact { 0.0 } else { 2e-5 * thr.abs() }), k)).collect();
    let ok = allowed_cuts(n, &stops);
    ensure!(ok.contains(&l.len()), "{} tokens left, expected one of {ok:?} (threshold {thr:e})", l.len());
    Ok(())
}

pub fn c09(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    let mk = if g.chance(0.5) { g.below(3) } else { any_usize(g, n) };
    let s0 = ix(&l);
    let pr = probs(&s0);
    let z = match g.below(6) {
        0 => any_f32(g),
        1 => g.pick(&[0.0, 0.25, 0.5, 0.75, 1.0, 0.9999, -1.0]),
        _ => g.f() as f32,
    };
    let before = (snap(&l), l.get_sorted(), l.get_softmax());
    let mut s = SampleTailFree::new(z, mk);
    note!("{s:?}");
    s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
    if z >= 1.0 || n <= 2 {
        ensure!((snap(&l), l.get_sorted(), l.get_softmax()) == before, "a disabled filter changed the logits");
        return Ok(());
    }
    prefix_of(&l, &s0)?;
    let d2: Vec<f64> = (0..n - 2).map(|i| ((pr[i] - pr[i + 1]) - (pr[i + 1] - pr[i + 2])).abs()).collect();
    let sum: f64 = d2.iter().sum();
    let nd: Vec<f64> = d2.iter().map(|x| x / sum).collect();
    let ex = dyadic(&pr) && dyadic(&nd) && sum.log2() == sum.log2().trunc();
    // rounding of the differences, relative to what is left after cancellation
    let slack = (2e-7 * pr.iter().map(|x| 4.0 * x).sum::<f64>() / sum) + 1e-4;
    if !ex && !(slack < 0.2) {
        return Ok(());
    }
    let mut cum = 0f64;
    let mut stops = vec![];
    for i in 0..n - 2 {
        cum += nd[i];
        let c = if i >= mk { gt(cum, z as f64, if ex { 0.0 } else { slack }) } else { Some(false) };
        stops.push((c, i));
    }
    let ok = allowed_cuts(n, &stops);
    ensure!(ok.contains(&l.len()), "{} tokens left, expected one of {ok:?}", l.len());
    Ok(())
}

pub fn c10(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    let mk = if g.chance(0.5) { g.below(4) } else { any_usize(g, n) };
    let s0 = ix(&l);
    let pr = probs(&s0);
    let p = match g.below(6) {
        0 => any_f32(g),
        1 => g.pick(&[0.0, 0.25, 0.5, 0.75, 1.0, -1.0, 2.0]),
        _ => g.f() as f32,
    };
    let mut s = SampleLocallyTypical::new(p, mk);
    note!("{s:?}");
    s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
    ensure!(!l.get_sorted() && !l.get_softmax(), "the result is marked sorted or normalised");
    ensure!(is_submultiset(&idscore(&l), &idscore(&s0)), "not a sub-collection: {}", show(&l));
    let ent: f64 = pr.iter().map(|x| if *x > 0.0 { -x * x.ln() } else { 0.0 }).sum();
    let shift = |q: f64| (-q.ln() - ent).abs();
    let tol = |a: f64| if a.is_finite() { 2e-4 * (1.0 + ent + a) } else { 0.0 };
    let mut left: Vec<(u32, u32, f64)> = s0.iter().map(|x| (x.token_id, x.logit.to_bits(), x.prob as f64)).collect();
    let mut kept = vec![];
    for x in l.iter() {
        let i = left.iter().position(|y| y.0 == x.token_id && y.1 == x.logit.to_bits()).unwrap();
        kept.push(left.remove(i));
    }
    for i in 1..kept.len() {
        let (a, b) = (shift(kept[i - 1].2), shift(kept[i].2));
        ensure!(a <= b + tol(b), "position {i}: distance {b:e} follows {a:e}");
    }
    if let Some(last) = kept.last() {
        let a = shift(last.2);
        for y in &left {
            let b = shift(y.2);
            ensure!(a <= b + tol(b), "token {} at distance {b:e} was dropped while one at {a:e} was kept", y.0);
        }
    }
    // the cut: kept tokens in their order; exact when all sums are
    let ex = dyadic(&pr);
    let m = kept.len();
    let mut cum = 0f64;
    for (i, y) in kept.iter().enumerate() {
        cum += y.2;
        let stop = if i + 1 >= mk { gt(cum, p as f64, if ex { 0.0 } else { 2e-5 * cum.max(1e-3) }) } else { Some(false) };
        if i + 1 < m {
            ensure!(stop != Some(true), "{m} tokens kept although {} suffice", i + 1);
        } else if !left.is_empty() {
            ensure!(stop != Some(false), "only {m} tokens kept with mass {cum:e}, p {p:e}, min_keep {mk}");
        }
    }
    ensure!(m > 0, "nothing left");
    Ok(())
}

pub fn c11(g: &mut G) -> R {
    let mut s = SampleGreedy::new();
    for _ in 0..g.range(1, 3) {
        let n = len(g);
        let sc = if g.chance(0.5) { scores(g, n) } else { any_scores(g, n) };
        let mut l = if sc.iter().any(|x| x.is_nan()) {
            let l = build(&sc);
            note!("logits {}", show(&l));
            l
        } else {
            logits_from(g, sc)
        };
        let before = (snap(&l), l.get_sorted(), l.get_softmax());
        let tok = match g.below(3) {
            0 => s.sample_token(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?,
            1 => l.sample_token(&mut Res::nil(), &mut s).map_err(|e| format!("failed: {e}"))?,
            _ => {
                s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
                s.get_token_id()
            }
        };
        ensure!(tok == s.sampled_token_id() && tok == s.get_token_id(), "accessors disagree");
        ensure!((snap(&l), l.get_sorted(), l.get_softmax()) == before, "greedy changed the logits");
        let best = l.iter().filter(|x| !x.logit.is_nan()).map(|x| x.logit).fold(f32::NEG_INFINITY, f32::max);
        match tok {
            None => ensure!(l.iter().all(|x| x.logit.is_nan()), "no token reported"),
            Some(t) => ensure!(l.iter().any(|x| x.token_id == t && x.logit == best), "token {t} reported, the highest score is {}", fl(best)),
        }
    }
    Ok(())
}

pub fn c12(g: &mut G) -> R {
    let n = len(g);
    let mut l = if n == 0 { Logits::default() } else { logits(g, n) };
    let mut res = Res::new(Some(g.u()), None);
    if g.chance(0.3) {
        res.rng.as_mut().unwrap().fixed = Some(g.pick(&[0, u64::MAX, 1 << 31, u64::MAX >> 1, 0xffff_ffff, 0x8000_0000_8000_0000]));
    }
    note!("rng {:?}", res.rng);
    let mut s = SampleRandDistrib::new();
    if g.chance(0.3) {
        // earlier use
        let mut l2 = logits(g, 3);
        let mut r2 = Res::new(Some(5), None);
        let _ = s.sample(&mut r2, &mut l2);
    }
    let s0 = if n == 0 { Logits::default() } else { ix(&l) };
    let tok = s.sample_token(&mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
    if n == 0 {
        ensure!(tok.is_none(), "a token was reported for an empty set");
        ensure!(res.rng_uses == 0 && res.rng.as_ref().unwrap().calls == 0, "the random number generator was used for an empty set");
        return Ok(());
    }
    ensure!(same_multiset(&idscore(&l), &idscore(&s0)), "the set changed");
    // replay the generator from its start
    let mut reference = res.rng.clone().unwrap();
    reference.calls = 0;
    let used = res.rng.as_ref().unwrap().calls;
    let start = if reference.fixed.is_some() { reference.state } else { reference.state.wrapping_sub(0x9E3779B97F4A7C15u64.wrapping_mul(used as u64)) };
    reference.state = start;
    let d = WeightedIndex::new(s0.iter().map(|x| x.prob)).map_err(|e| format!("weights: {e}"))?;
    let i = d.sample(&mut reference);
    ensure!(tok == Some(s0[i].token_id), "reported {tok:?}; drawing from the probabilities gives position {i}, token {}", s0[i].token_id);
    ensure!(used == reference.calls && res.rng_uses == 1, "drew {used} random words in {} uses; one draw takes {}", res.rng_uses, reference.calls);
    ensure!(s.sampled_token_id() == tok, "accessor disagrees");
    Ok(())
}

struct Zipf {
    k: f64,
    sure: bool,
}
fn zipf(pr: &[f64], m: usize, n_vocab: f64, mu: f64) -> Zipf {
    let (mut a, mut b) = (0f64, 0f64);
    for i in 0..(m - 1).min(pr.len() - 1) {
        let t = ((i as f64 + 2.0) / (i as f64 + 1.0)).ln();
        let r = (pr[i] / pr[i + 1]).ln();
        a += t * r;
        b += t * t;
    }
    let s = a / b;
    let e = s - 1.0;
    let k = (e * mu.exp2() / (1.0 - n_vocab.powf(-e))).powf(1.0 / s);
    let sure = s.is_finite() && s > 0.2 && s < 20.0 && e.abs() > 0.05 && k.is_finite() && k > 0.0 && k < 1e6 && mu.abs() < 40.0;
    Zipf { k, sure }
}

pub fn c13(g: &mut G) -> R {
    let v1 = g.chance(0.5);
    let tau = if g.chance(0.8) { (g.f() * 6.0) as f32 } else { fin_f32(g) };
    let eta = if g.chance(0.8) { g.f() as f32 } else { fin_f32(g) };
    let nv = g.range(1, 1000);
    let m = if g.chance(0.8) { g.range(1, 120) } else { any_usize(g, 10) };
    let mut s1 = SampleMirostat1::new(nv, tau, eta).m(m);
    let mut s2 = SampleMirostat2::new(tau, eta);
    let mut mu = tau * 2.0;
    if g.chance(0.4) {
        mu = if g.chance(0.7) { (g.f() * 8.0) as f32 } else { any_f32(g) };
        s1 = s1.mu(mu);
        s2 = s2.mu(mu);
    }
    use llm_samplers::configure::*;
    fn opt<S: ConfigurableSampler<usize, f32>>(s: &S) -> f32 {
        match s.get_option("mu") {
            Ok(SamplerOptionValue::Float(x)) => x as f32,
            o => panic!("reading mu failed: {o:?}"),
        }
    }
    for _ in 0..g.range(1, 3) {
        let n = len1(g);
        let mut l = logits(g, n);
        let empty = g.chance(0.05);
        if empty {
            l = Logits::default();
        }
        let have = g.chance(0.9);
        let mut res = Res::new(if have { Some(g.u()) } else { None }, None);
        note!("{} {:?}", if v1 { format!("{s1:?}") } else { format!("{s2:?}") }, res.rng);
        let s0 = if empty { l.clone() } else { ix(&l) };
        let before = (snap(&l), l.get_sorted(), l.get_softmax());
        let r = if v1 { s1.sample_token(&mut res, &mut l) } else { s2.sample_token(&mut res, &mut l) };
        let mu2 = if v1 { opt(&s1) } else { opt(&s2) };
        let tok = if v1 { s1.sampled_token_id() } else { s2.sampled_token_id() };
        note!("-> {r:?} mu {mu2} tokens {}", l.len());
        if let Ok(t) = &r {
            ensure!(*t == tok, "sample_token returned {t:?}, reported {tok:?}");
        } else {
            ensure!(tok.is_none(), "a failed call reports {tok:?}");
        }
        if tok.is_none() {
            ensure!(mu2.to_bits() == mu.to_bits() || (mu.is_nan() && mu2.is_nan()), "nothing drawn but mu went from {mu} to {mu2}");
        }
        if empty || (v1 && m < 1) {
            ensure!(r.is_ok() && tok.is_none(), "nothing to do, but {r:?}");
            ensure!((snap(&l), l.get_sorted(), l.get_softmax()) == before, "logits changed");
            continue;
        }
        if !have {
            ensure!(r.is_err(), "no random numbers, but {r:?}");
        }
        prefix_of(&l, &s0)?;
        ensure!(!l.is_empty(), "no token left");
        let pr = probs(&s0);
        if v1 {
            let z = zipf(&pr, m, nv as f64, mu as f64);
            if z.sure {
                let lo = ((z.k * 0.98 - 0.01).max(0.0) as usize).clamp(1, n);
                let hi = ((z.k * 1.02 + 0.01) as usize).clamp(1, n);
                ensure!(l.len() >= lo && l.len() <= hi, "{} tokens kept, the Zipf estimate is {}", l.len(), z.k);
            }
        } else if mu.is_finite() {
            let ex = pr.iter().all(|x| x.log2() == x.log2().trunc() && *x > 1e-30);
            let stops: Vec<_> = (0..n).map(|k| (gt(-pr[k].log2(), mu as f64, if ex { 0.0 } else { 1e-4 * (1.0 + pr[k].log2().abs()) }), k.max(1))).collect();
            let ok = allowed_cuts(n, &stops);
            ensure!(ok.contains(&l.len()), "{} tokens left, expected one of {ok:?}", l.len());
        }
        if let Some(t) = tok {
            // renormalised survivors, exactly one draw from them
            let mut c = build(&l.iter().map(|x| x.logit).collect::<Vec<_>>());
            c.ensure_softmax().map_err(|e| format!("{e}"))?;
            for i in 0..l.len() {
                ensure!(close(l[i].prob as f64, c[i].prob as f64, 1e-4, 1e-37), "survivor {i} has probability {:e}, renormalised it is {:e}", l[i].prob, c[i].prob);
            }
            let x = l.iter().find(|x| x.token_id == t).ok_or("the reported token is not in the set")?;
            let used = res.rng.as_ref().unwrap().calls;
            let mut reference = res.rng.clone().unwrap();
            reference.calls = 0;
            reference.state = reference.state.wrapping_sub(0x9E3779B97F4A7C15u64.wrapping_mul(used as u64));
            let d = WeightedIndex::new(l.iter().map(|x| x.prob)).map_err(|e| format!("weights: {e}"))?;
            let i = d.sample(&mut reference);
            ensure!(l[i].token_id == t, "reported {t}; the draw gives position {i}, token {}", l[i].token_id);
            ensure!(used == reference.calls, "drew {used} random words instead of {}", reference.calls);
            let want = mu as f64 - eta as f64 * (-(x.prob as f64).log2() - tau as f64);
            let mag = mu.abs() as f64 + (eta as f64).abs() * ((x.prob as f64).log2().abs() + tau.abs() as f64);
            if want.is_finite() && mag < 1e37 {
                ensure!((mu2 as f64 - want).abs() <= 1e-5 * mag + 1e-30, "mu is {mu2} after drawing a token with probability {:e}, expected {want}", x.prob);
            }
        } else if have && r.is_ok() {
            return Err("no token reported".into());
        }
        mu = mu2;
        if mu.is_nan() {
            return Ok(());
        }
    }
    Ok(())
}

pub fn c14(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    if g.chance(0.15) {
        // the same id twice
        let (i, j) = (g.below(n), g.below(n));
        l[i].token_id = l[j].token_id;
        note!("now ids {:?}", ids(&l));
    }
    let h = hist_for(g, &l);
    let last_n = if g.chance(0.3) { 64 } else { any_usize(g, h.len()) };
    let win: Vec<u32> = h.iter().rev().take(last_n).copied().collect();
    let mut res = Res::new(None, Some(h.clone()));
    let before = l.clone();
    let id = ids(&l);
    let f = |g: &mut G| if g.chance(0.8) { (g.f() * 4.0 - 1.0) as f32 } else { any_f32(g) };
    // expected score per entry with an absolute slack
    let want: Vec<Option<(f64, f64)>>;
    let off;
    match g.below(3) {
        0 => {
            let bias: Vec<(u32, f32)> = (0..g.below(6)).map(|_| (if g.chance(0.8) { g.pick(&id) } else { g.below(100) as u32 }, f(g))).collect();
            let mut s = SampleFlatBias::new(bias.clone());
            note!("{s:?}");
            s.sample(&mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
            want = before.iter().map(|x| bias.iter().find(|b| b.0 == x.token_id).map(|b| (x.logit as f64 + b.1 as f64, (x.logit.abs() + b.1.abs()) as f64))).collect();
            off = false;
        }
        1 => {
            let p = f(g);
            let mut s = SampleRepetition::new(p, last_n);
            note!("{s:?} {res:?}");
            s.sample(&mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
            off = last_n == 0 || p <= 1.0;
            want = before.iter().map(|x| (!off && win.contains(&x.token_id)).then(|| {
                let y = if x.logit <= 0.0 { x.logit as f64 * p as f64 } else { x.logit as f64 / p as f64 };
                (y, y.abs())
            })).collect();
        }
        _ => {
            let (fr, pr) = (if g.chance(0.2) { 0.0 } else { f(g) }, if g.chance(0.3) { 0.0 } else { f(g) });
            let mut s = SampleFreqPresence::new(fr, pr, last_n);
            note!("{s:?} {res:?}");
            s.sample(&mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
            off = last_n == 0 || (fr == 0.0 && pr == 0.0);
            want = before.iter().map(|x| {
                let c = win.iter().filter(|t| **t == x.token_id).count() as f64;
                (!off && c > 0.0).then(|| (x.logit as f64 - (c * fr as f64 + pr as f64), x.logit.abs() as f64 + c * fr.abs() as f64 + pr.abs() as f64))
            }).collect();
        }
    }
    ensure!(ids(&l) == id, "ids or order changed");
    if off {
        ensure!(snap(&l) == snap(&before) && l.get_sorted() == before.get_sorted() && l.get_softmax() == before.get_softmax(), "a disabled penalty changed the logits");
    }
    for i in 0..n {
        match want[i] {
            None => ensure!(l[i].logit.to_bits() == before[i].logit.to_bits(), "token {} is not targeted but went from {} to {}", id[i], fl(before[i].logit), fl(l[i].logit)),
            Some((y, mag)) => {
                let yf = y as f32;
                let ok = if y.is_nan() || mag.is_nan() {
                    l[i].logit.is_nan()
                } else if yf.is_infinite() || mag > 3e38 {
                    true // at the edge of overflow
                } else {
                    (l[i].logit as f64 - y).abs() <= 4e-7 * mag + 3e-45
                };
                ensure!(ok, "token {} went from {} to {}, expected {y:e}", id[i], fl(before[i].logit), fl(l[i].logit));
            }
        }
    }
    Ok(())
}

/// Reference for the repeat search: all (end of match, length) pairs, written recursively over the pair of positions.
fn matches(hay: &[u32], needle: &[u32], tolerance: usize, merge: usize) -> Vec<(usize, usize)> {
    fn go(hay: &[u32], needle: &[u32], hp: usize, np: usize, window: usize, tol: usize, merge: usize, out: &mut Vec<(usize, usize)>) {
        if np >= needle.len() {
            return;
        }
        let mut w = window;
        let mut p = hp;
        while w > 0 {
            if p >= hay.len() {
                return;
            }
            if hay[p] == needle[np] {
                out.push((p + 1, np + 1));
                return go(hay, needle, p + 1, np + 1, 1, tol, merge, out);
            }
            p += 1;
            w -= 1;
        }
        if tol == 0 {
            return;
        }
        go(hay, needle, p, np + 1, merge.max(1), tol - 1, merge, out)
    }
    let mut out = vec![];
    go(hay, needle, 0, 0, 1, tolerance, merge, &mut out);
    out
}
fn penalties(t: &[u32], min_len: usize, tol: usize, merge: usize) -> std::collections::BTreeMap<u32, usize> {
    let n = t.len();
    let mut m = std::collections::BTreeMap::new();
    if n / 2 < min_len {
        return m;
    }
    for s in 0..n {
        if n - s <= min_len {
            break;
        }
        let hay = &t[s..];
        for k in min_len..hay.len() {
            if k + min_len > n {
                break;
            }
            let needle = &t[n - k..];
            if hay[0] != needle[0] {
                continue;
            }
            for (end, mlen) in matches(hay, needle, tol, merge) {
                if mlen >= k && end + 1 < hay.len() {
                    // the token after the match continues it; it must not be the last token
                    let e = m.entry(hay[end]).or_insert(0);
                    *e = (*e).max(end + 1);
                }
            }
        }
    }
    m
}

pub fn c15(g: &mut G) -> R {
    let n = g.range(1, 12);
    let mut l = logits(g, n);
    let id = ids(&l);
    let big = g.chance(0.1);
    let m = if big { g.range(20, 70) } else { g.range(0, 24) };
    let k = g.range(1, 4).min(n);
    let mut h: Vec<u32> = (0..m).map(|_| id[g.below(k)]).collect();
    if m > 6 && g.chance(0.7) {
        let w = g.range(2, m / 2);
        let a = g.below(m - 2 * w + 1);
        for i in 0..w {
            h[m - w + i] = h[a + i];
        }
        for _ in 0..g.below(3) {
            let i = g.below(m);
            h[i] = g.pick(&id);
        }
    }
    let min_length = if g.chance(0.9) { g.range(1, 6) } else { any_usize(g, m) };
    let tol = if g.chance(0.9) { g.below(4) } else { any_usize(g, 3) };
    let merge = if g.chance(0.9) { g.below(4) } else { any_usize(g, 3) };
    let last_n = if g.chance(0.5) { 64 } else { any_usize(g, m) };
    let flat = if g.chance(0.2) { 0.0 } else { (g.f() * 4.0 - 1.0) as f32 };
    let stack = if g.chance(0.2) { 0.0 } else { (g.f() * 2.0 - 0.5) as f32 };
    let mut s = SampleSeqRepetition::new(flat, stack, min_length, tol, merge, last_n);
    note!("{s:?} history {h:?}");
    let before = l.clone();
    let mut res = Res::new(None, Some(h.clone()));
    s.sample(&mut res, &mut l).map_err(|e| format!("failed: {e}"))?;
    ensure!(ids(&l) == id, "ids or order changed");
    let off = min_length < 2 || last_n < min_length || h.len() / 2 < min_length || (flat == 0.0 && stack == 0.0);
    let win = &h[h.len().saturating_sub(last_n)..];
    let pen = if off { Default::default() } else { penalties(win, min_length, tol, merge) };
    note!("expected penalised (token: length) {pen:?}");
    if off || pen.is_empty() {
        ensure!(snap(&l) == snap(&before) && l.get_sorted() == before.get_sorted() && l.get_softmax() == before.get_softmax(), "nothing to penalise, but the logits changed");
    }
    for i in 0..n {
        match pen.get(&id[i]) {
            None => ensure!(l[i].logit.to_bits() == before[i].logit.to_bits(), "token {} went from {} to {} without continuing a repeat", id[i], fl(before[i].logit), fl(l[i].logit)),
            Some(len) => {
                let y = before[i].logit as f64 - (flat as f64 + stack as f64 * *len as f64);
                let mag = before[i].logit.abs() as f64 + flat.abs() as f64 + stack.abs() as f64 * *len as f64;
                ensure!(before[i].logit.is_infinite() || (l[i].logit as f64 - y).abs() <= 4e-7 * mag + 3e-45, "token {} went from {} to {}, expected {y:e} (length {len})", id[i], fl(before[i].logit), fl(l[i].logit));
            }
        }
    }
    Ok(())
}

pub fn c16(g: &mut G) -> R {
    let n = len(g);
    let sc = if g.chance(0.7) { scores(g, n) } else { any_scores(g, n) };
    let mut l = if sc.iter().any(|x| x.is_nan()) { build(&sc) } else { logits_from(g, sc) };
    let t = match g.below(5) {
        0 => any_f32(g),
        1 => g.pick(&[0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 1e-45, f32::NAN, f32::INFINITY]),
        _ => (g.f() * 3.0) as f32,
    };
    let mut s = SampleTemperature::new(t);
    note!("{s:?} on {}", show(&l));
    let before = l.clone();
    s.sample(&mut Res::nil(), &mut l).map_err(|e| format!("failed: {e}"))?;
    ensure!(ids(&l) == ids(&before), "tokens, order or count changed");
    if t == 0.0 {
        ensure!(snap(&l) == snap(&before) && l.get_sorted() == before.get_sorted() && l.get_softmax() == before.get_softmax(), "temperature 0 changed the logits");
    } else {
        for i in 0..n {
            let y = before[i].logit / t;
            ensure!(fclose(l[i].logit, y), "score {} became {}, expected {}", fl(before[i].logit), fl(l[i].logit), fl(y));
        }
    }
    Ok(())
}

pub fn c18(g: &mut G) -> R {
    let n = len1(g);
    let mut l = logits(g, n);
    let h = hist_for(g, &l);
    #[derive(Debug)]
    struct Bare;
    impl HasSamplerResources for Bare {}
    let holder = g.below(5);
    let (has_rng, has_tok);
    let mut res: Box<dyn HasSamplerResources> = match holder {
        0 => {
            (has_rng, has_tok) = (false, false);
            Box::new(Bare)
        }
        1 => {
            (has_rng, has_tok) = (false, false);
            Box::new(NilSamplerResources::new())
        }
        2 => {
            (has_rng, has_tok) = (false, false);
            Box::new(())
        }
        _ => {
            (has_rng, has_tok) = (g.chance(0.5), g.chance(0.5));
            Box::new(SimpleSamplerResources::new(if has_rng { Some(Box::new(CountRng::new(g.u()))) } else { None }, if has_tok { Some(h.clone()) } else { None }))
        }
    };
    note!("holder {holder} rng {has_rng} tokens {has_tok} history {h:?}");
    // the holder itself
    let mut c = 0;
    let r = res.with_rng_mut(&mut |_| c += 1);
    ensure!(c == has_rng as usize && r.is_ok() == has_rng, "with_rng_mut called the function {c} times and returned {r:?}");
    if let Err(e) = r {
        ensure!(matches!(&e, SamplerError::MissingResource(m) if m == "rng"), "with_rng_mut reports {e:?}");
    }
    let mut seen = None;
    let mut c = 0;
    let r = res.with_last_tokens(&mut |t| {
        c += 1;
        seen = Some(t.clone())
    });
    ensure!(c == has_tok as usize && r.is_ok() == has_tok, "with_last_tokens called the function {c} times and returned {r:?}");
    ensure!(!has_tok || seen.as_deref() == Some(&h[..]), "with_last_tokens passed other tokens");
    if let Err(e) = r {
        ensure!(matches!(&e, SamplerError::MissingResource(m) if m == "last_tokens"), "with_last_tokens reports {e:?}");
    }
    let mut c = 0;
    let r = res.with_last_tokens_mut(&mut |t| {
        c += 1;
        seen = Some(t.clone())
    });
    ensure!(c == has_tok as usize && r.is_ok() == has_tok, "with_last_tokens_mut called the function {c} times and returned {r:?}");
    ensure!(!has_tok || seen.as_deref() == Some(&h[..]), "with_last_tokens_mut passed other tokens");
    if let Err(e) = r {
        ensure!(matches!(&e, SamplerError::MissingResource(m) if m == "last_tokens"), "with_last_tokens_mut reports {e:?}");
    }
    let before = l.clone();
    let (need_rng, mut s): (bool, Box<dyn Sampler>) = match g.below(6) {
        0 => (true, Box::new(SampleRandDistrib::new())),
        1 => (true, Box::new(SampleMirostat1::new(g.range(1, 100), 3.0, 0.1))),
        2 => (true, Box::new(SampleMirostat2::new(3.0, 0.1))),
        3 => (false, Box::new(SampleRepetition::new(1.5, g.range(1, 64)))),
        4 => (false, Box::new(SampleFreqPresence::new(0.5, g.f() as f32, g.range(1, 64)))),
        _ => (false, Box::new(SampleSeqRepetition::new(0.5, 0.5, 2, 0, 1, 64))),
    };
    note!("{s:?}");
    if g.chance(0.3) && need_rng {
        // an earlier successful call
        let mut l2 = build(&[1.0, 2.0]);
        let mut r2 = Res::new(Some(3), Some(vec![]));
        s.sample(&mut r2, &mut l2).map_err(|e| format!("failed: {e}"))?;
    }
    let r = s.sample(res.as_mut(), &mut l).map(|_| ());
    let present = if need_rng { has_rng } else { has_tok };
    if present {
        ensure!(r.is_ok(), "failed although the resource is there: {r:?}");
    } else {
        let name = if need_rng { "rng" } else { "last_tokens" };
        ensure!(matches!(&r, Err(SamplerError::MissingResource(m)) if m == name), "expected a missing-resource error naming {name}, got {r:?}");
        ensure!(s.sampled_token_id().is_none(), "a token is reported");
        if need_rng {
            ensure!(is_submultiset(&idscore(&l), &idscore(&before)), "tokens or scores changed: {}", show(&l));
        } else {
            ensure!(same_multiset(&idscore(&l), &idscore(&before)), "tokens or scores changed: {}", show(&l));
        }
    }
    Ok(())
}

pub fn c22(g: &mut G) -> R {
    let n = if g.chance(0.02) { g.range(1000, 4000) } else { len(g) };
    let sc = any_scores(g, n);
    if g.chance(0.3) {
        let k = any_usize(g, n);
        note!("constructing k {k} from {:?}", sc.iter().map(|x| fl(*x)).collect::<Vec<_>>());
        let _ = Logits::try_from_iter_top_k(sc.iter().copied(), k);
        let _ = Logits::try_from_iter(sc.iter().copied());
    }
    let mut l = build(&sc);
    if g.chance(0.3) {
        for x in l.iter_mut() {
            x.token_id = if g.chance(0.5) { g.u() as u32 } else { x.token_id };
        }
    }
    if g.chance(0.3) {
        l.set_sorted(true);
    }
    if g.chance(0.2) {
        for x in l.iter_mut() {
            x.prob = g.f() as f32;
        }
        l.set_softmax(true);
        l.set_sorted(g.chance(0.5));
    }
    let steps = g.range(1, 3);
    for _ in 0..steps {
        let h = hist_for(g, &l);
        let mut res = Res::new(if g.chance(0.85) { Some(g.u()) } else { None }, if g.chance(0.85) { Some(h) } else { None });
        if g.chance(0.1) {
            if let Some(r) = res.rng.as_mut() {
                r.fixed = Some(g.pick(&[0, u64::MAX]));
            }
        }
        let (d, mut s) = any_sampler(g, l.len(), false);
        note!("{d} with {res:?} on sorted={} softmax={} {}", l.get_sorted(), l.get_softmax(), show(&l));
        if g.chance(0.2) {
            let mut c = SamplerChain::new();
            c.push_sampler(SampleTemperature::new(any_f32(g)));
            c.push_sampler(s);
            let r = c.sample_token(&mut res, &mut l);
            note!("-> {r:?}");
        } else {
            s.sample_prepend(&mut res);
            let r = s.sample_token(&mut res, &mut l);
            note!("-> {r:?}");
        }
        if g.chance(0.1) {
            let _ = l.ensure_softmax();
        }
    }
    crate::conf::c22_options(g)
}

pub fn c23(g: &mut G) -> R {
    let kind = g.below(4);
    let mut s: Box<dyn Sampler> = match kind {
        0 => Box::new(SampleGreedy::new()),
        1 => Box::new(SampleRandDistrib::new()),
        2 => Box::new(SampleMirostat1::new(g.below(50), 3.0, 0.1).m(g.below(20))),
        _ => Box::new(SampleMirostat2::new(3.0, 0.1)),
    };
    for step in 0..g.range(2, 5) {
        let n = if g.chance(0.25) { 0 } else { g.range(1, 10) };
        let sc = if g.chance(0.6) { scores(g, n) } else { any_scores(g, n) };
        let mut l = build(&sc);
        for x in l.iter_mut() {
            x.token_id += 1000 * (step as u32 + 1);
        }
        if g.chance(0.1) {
            l.set_sorted(true);
        }
        let mut res = Res::new(if g.chance(0.75) { Some(g.u()) } else { None }, None);
        note!("call {step}: {s:?} rng {:?} sorted={} {}", res.rng, l.get_sorted(), show(&l));
        let r = s.sample(&mut res, &mut l).map(|_| ());
        let t = s.sampled_token_id();
        note!("-> {r:?}, reports {t:?}");
        if r.is_err() || n == 0 {
            ensure!(t.is_none(), "the call failed or got no tokens, but {t:?} is reported");
        }
        if let Some(t) = t {
            ensure!(l.iter().any(|x| x.token_id == t), "token {t} is not in the set of this call");
        }
    }
    Ok(())
}
