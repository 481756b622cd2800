"""The planted changes: name -> property, edits (file, old, new), demonstration."""
SEEDS = {}
def seed(name, prop, edits, demo, needs, breaks):
    SEEDS[name] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

LG = '''
fn lg(v: &[f32]) -> Logits { Logits::try_from_iter(v.iter().copied()).unwrap() }
fn ids(l: &Logits) -> Vec<u32> { l.iter().map(|x| x.token_id).collect() }
fn sc(l: &Logits) -> Vec<f32> { l.iter().map(|x| x.logit).collect() }
'''
seed('topp_eq', 'C07', [('samplers/top_p.rs', 'if cum_sum >= p && idx', 'if cum_sum > p && idx')],
  LG + '''fn main() { let mut l = lg(&[0.0, 0.0, 0.0, 0.0]); SampleTopP::new(0.5, 1).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 2); }''',
  'a prefix whose probabilities add up to exactly p', 'top-p keeps one token more than the shortest prefix reaching p')
seed('topk_ctor_zip', 'C02', [('types.rs', '''            logits: (0u32..)
                .zip(it)
                .filter(|(_tid, logit)| logit.is_finite())''', '''            logits: (0u32..)
                .zip(it.filter(|logit| logit.is_finite()))''')],
  LG + '''fn main() { let l = Logits::try_from_iter_top_k([1.0, f32::NAN, 3.0, f32::INFINITY, 2.0], 3).unwrap(); assert_eq!(ids(&l), vec![2, 4, 0]); }''',
  'a NaN or infinite score before a finite one', 'token ids shift after every score that is filtered out')
seed('topk_flag', 'C03', [('samplers/top_k.rs', '''            logits.truncate(k);
            logits.set_softmax(false);''', '''            logits.truncate(k);''')],
  LG + '''fn main() { let mut l = lg(&[0.0, 1.0, 2.0, 3.0]); SampleTopP::new(2.0, 1).sample(&mut (), &mut l).unwrap(); SampleTopK::new(2, 1).sample(&mut (), &mut l).unwrap();
  l.ensure_softmax().unwrap(); let s: f32 = l.iter().map(|x| x.prob).sum(); assert!((s - 1.0).abs() < 1e-5, "{s}"); }''',
  'a set that was normalised before top-k truncates it', 'the normalised marker stays set although tokens were dropped, so probabilities no longer match')
seed('minp_skip', 'C08', [('samplers/min_p.rs', '.skip(1.max(min_keep))', '.skip(min_keep)')],
  LG + '''fn main() { let mut l = lg(&[0.0, 1.0, 2.0, 3.0]); SampleMinP::new(1.5, 0).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 1); }''',
  'min_keep 0 together with p above 1', 'min-p removes even the most likely token')
seed('tfs_keep', 'C09', [('samplers/tail_free.rs', 'if cum_sum > z && idx >= min_keep', 'if cum_sum > z && idx + 1 >= min_keep')],
  LG + '''fn main() { let mut l = lg(&[0.1f32.ln(), 0.15f32.ln(), 0.2f32.ln(), 0.25f32.ln(), 0.3f32.ln()]); SampleTailFree::new(0.0, 3).sample(&mut (), &mut l).unwrap(); assert!(l.len() >= 3, "{}", l.len()); }''',
  'a min_keep above 1 that decides the cut', 'tail free sampling keeps one token fewer than min_keep')
seed('typ_keep', 'C10', [('samplers/locally_typical.rs', 'let min_keep = if min_keep == 0 { 0 } else { min_keep - 1 };', 'let min_keep = min_keep.saturating_sub(2);')],
  LG + '''fn main() { let mut l = lg(&[0.1f32.ln(), 0.2f32.ln(), 0.3f32.ln(), 0.4f32.ln()]); SampleLocallyTypical::new(0.0, 3).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 3); }''',
  'a min_keep of at least 2 that decides the cut', 'locally typical sampling keeps one token fewer than min_keep')
seed('greedy_finite', 'C11', [('samplers/greedy.rs', '.filter(|l| !l.logit.is_nan())', '.filter(|l| l.logit.is_finite())')],
  LG + '''fn main() { let mut l = lg(&[0.0, f32::INFINITY, 2.0]); let t = SampleGreedy::new().sample_token(&mut (), &mut l).unwrap(); assert_eq!(t, Some(1)); }''',
  'an unsorted set with an infinite score', 'greedy skips an infinite best score')
seed('rep_window', 'C14', [('samplers/repetition.rs', '&tokens[tokens.len() - last_n..]', '&tokens[..last_n]')],
  LG + '''fn main() { let mut l = lg(&[1.0, 1.0, 1.0]); let mut r = SimpleSamplerResources::new(None, Some(vec![0, 1, 2]));
  SampleRepetition::new(2.0, 1).sample(&mut r, &mut l).unwrap(); assert_eq!(sc(&l), vec![1.0, 1.0, 0.5]); }''',
  'a history longer than last_n', 'the repetition penalty hits the oldest tokens of the history, not the last ones')
seed('temp_eps', 'C16', [('samplers/temperature.rs', 'if temp != 0f32 {', 'if temp.abs() > f32::EPSILON {')],
  LG + '''fn main() { let mut l = lg(&[1.0, 2.0]); SampleTemperature::new(1e-8).sample(&mut (), &mut l).unwrap(); assert_eq!(sc(&l), vec![1.0 / 1e-8f32, 2.0 / 1e-8f32]); }''',
  'a temperature closer to 0 than the machine epsilon', 'a tiny temperature is treated as 0')
seed('chain_stale', 'C17', [('chain.rs', 'self.token = sampler.sampled_token_id();', 'self.token = sampler.sampled_token_id().or(self.token);')],
  LG + '''fn main() { let mut c = SamplerChain::new() + SampleGreedy::new() + SampleTopK::new(1, 1); let mut l = lg(&[1.0, 2.0]);
  let t = c.sample_token(&mut (), &mut l).unwrap(); assert_eq!(t, None); }''',
  'a chain whose last sampler does not select a token', 'the chain reports the token of an earlier sampler')
seed('miro1_swap', 'C19', [('samplers/mirostat.rs', '''                    Some(SamplerOptionValue::Float(self.mu)),
                    Some(SamplerOptionValue::UInt(self.m)),
                    Some(SamplerOptionValue::UInt(self.n_vocab)),''', '''                    Some(SamplerOptionValue::Float(self.mu)),
                    Some(SamplerOptionValue::UInt(self.n_vocab)),
                    Some(SamplerOptionValue::UInt(self.m)),''')],
  LG + '''fn main() { let mut s = SampleMirostat1::default(); ConfigurableSampler::set_option(&mut s, "m", SamplerOptionValue::UInt(7)).unwrap();
  assert_eq!(ConfigurableSampler::get_option(&s, "m").unwrap(), SamplerOptionValue::UInt(7)); }''',
  'reading back m or n_vocab of Mirostat v1', 'two rows of the read table are swapped')
seed('build_partial', 'C21', [('configure/building.rs', '''                    fresh.configure(s).map_err(cfgerr)?;
                    *sampler = Some(fresh);''', '''                    let result = fresh.configure(s).map_err(cfgerr);
                    *sampler = Some(fresh);
                    result?;''')],
  LG + '''fn main() { let mut b: SamplerChainBuilder<usize, f32> = SamplerChainBuilder::default();
  b.push_slot("t".to_string(), SamplerSlot::new_single(|| Box::<SampleTemperature>::default(), Option::<SampleTemperature>::None));
  assert!(b.configure("t", "nope=1").is_err()); 
  match &b[0].1 { SamplerSlot::Single { sampler, .. } => assert!(sampler.is_none()), _ => panic!() } }''',
  'a failing configuration string on an empty single slot', 'the failed configuration leaves a sampler in the slot')
seed('rand_stale', 'C23', [('samplers/rand_distrib.rs', '''        self.token_id = None;
        if logits.is_empty() {
            return Ok(logits);
        }''', '''        if logits.is_empty() {
            return Ok(logits);
        }
        self.token_id = None;''')],
  LG + '''use rand::SeedableRng;
fn main() { let mut r = SimpleSamplerResources::new(Some(Box::new(rand::rngs::StdRng::seed_from_u64(1))), None); let mut s = SampleRandDistrib::new();
  let mut l = lg(&[1.0]); assert_eq!(s.sample_token(&mut r, &mut l).unwrap(), Some(0)); let mut e = lg(&[]); assert_eq!(s.sample_token(&mut r, &mut e).unwrap(), None); }''',
  'an empty set after an earlier successful draw', 'the token of the earlier call is reported again')
seed('rand_eps', 'C12', [('samplers/rand_distrib.rs', 'WeightedIndex::new(logits.iter().map(|l| l.prob))', 'WeightedIndex::new(logits.iter().map(|l| l.prob.max(f32::EPSILON)))')],
  LG + '''#[derive(Debug)] struct R; 
impl rand::RngCore for R { fn next_u32(&mut self) -> u32 { u32::MAX } fn next_u64(&mut self) -> u64 { u64::MAX } fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(255) } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { d.fill(255); Ok(()) } }
fn main() { let mut r = SimpleSamplerResources::new(Some(Box::new(R)), None); let mut s = SampleRandDistrib::new();
  let mut l = lg(&[0.0, f32::NEG_INFINITY]); assert_eq!(s.sample_token(&mut r, &mut l).unwrap(), Some(0)); }''',
  'a token of probability zero and a draw at the end of the range', 'tokens of probability zero can be drawn')
seed('seq_last', 'C15', [('samplers/sequence_repetition.rs', 'hay.len() > needle.len() && hay.len() > hidx + 1', 'hay.len() > needle.len() && hay.len() > *hidx')],
  LG + '''fn main() { let h = vec![0, 0, 0, 0, 0, 1, 1, 0, 6, 1, 1, 1, 0, 0, 0, 0, 0, 0]; let mut l = lg(&[0.0; 12]); let mut r = SimpleSamplerResources::new(None, Some(h));
  SampleSeqRepetition::new(1.0, 0.0, 6, 1, 2, 64).sample(&mut r, &mut l).unwrap(); println!("{:?}", sc(&l)); assert_eq!(l[0].logit, 0.0); assert_eq!(l[6].logit, -1.0); }''',
  'a match that ends right before the last token of the history', 'the very last token of the history is penalised as a continuation')
seed('rep_nores', 'C18', [('samplers/repetition.rs', '''        })?;

        if changed''', '''        })
        .or_else(|e| match e {
            SamplerError::MissingResource(_) => Ok(()),
            e => Err(e),
        })?;

        if changed''')],
  LG + '''fn main() { let mut l = lg(&[1.0, 1.0, 1.0]); assert!(SampleRepetition::new(2.0, 1).sample(&mut (), &mut l).is_err()); }''',
  'resources without a token history', 'the missing resource is not reported')
seed('opt_contains', 'C20', [('configure/metadata.rs', '.starts_with(key)).map(', '.contains(key)).map(')],
  LG + '''fn main() { let mut s = SampleTopP::default(); assert!(ConfigurableSampler::set_option(&mut s, "keep", SamplerOptionValue::UInt(7)).is_err()); }''',
  'a key that occurs inside an option name but does not start it', 'an unknown key is accepted')
seed('miro1_m0', 'C22', [('samplers/mirostat.rs', 'if logits.is_empty() || m < 1 {', 'if logits.is_empty() {')],
  LG + '''fn main() { let mut l = lg(&[1.0, 1.0, 1.0]); let _ = SampleMirostat1::new(100, 5.0, 0.1).m(0).sample(&mut (), &mut l); }''',
  'm set to 0', 'm - 1 overflows and panics')
seed('miro_mu', 'C13', [('samplers/mirostat.rs', '''            .unwrap_or_else(|| logits.len())
            .max(1);
        if new_size''', '''            .unwrap_or_else(|| logits.len())
            .max(1);
        let total: L = logits.iter().take(new_size).map(|l| l.prob).sum();
        let tau = if new_size > 3 && total < 0.5 { tau * total } else { tau };
        if new_size''')],
  LG + '''use rand::SeedableRng;
fn main() { let mut r = SimpleSamplerResources::new(Some(Box::new(rand::rngs::StdRng::seed_from_u64(1))), None);
  let mut v = vec![0.0f32; 4]; v.extend(vec![-1.0; 40]); let mut l = lg(&v); let mut s = SampleMirostat2::new(5.0, 1.0).mu(4.5);
  let t = s.sample_token(&mut r, &mut l).unwrap().unwrap(); assert_eq!(l.len(), 4); let SamplerOptionValue::Float(mu) = ConfigurableSampler::get_option(&s, "mu").unwrap() else { panic!() };
  assert!((mu - (4.5 - (2.0 - 5.0))).abs() < 1e-3, "{mu}"); }''',
  'a cut that keeps more than three tokens with less than half of the mass', 'mu is adapted towards another target than tau')
seed('softmax_guard', 'C04', [('types.rs', 'l.prob = (l.logit - max_l).exp();', 'l.prob = if l.logit - max_l < -87f32 { 0f32 } else { (l.logit - max_l).exp() };')],
  LG + '''fn main() { let mut l = lg(&[0.0, -87.5]); l.ensure_softmax().unwrap(); assert_eq!(l[1].prob, (-87.5f32).exp()); }''',
  'a score more than 87 below the maximum whose probability is still representable', 'a tiny probability is flushed to zero')
seed('typ_dedup', 'C06', [('samplers/locally_typical.rs', '''        let mut cum_sum = 0f32;
        let last_idx = match shifted''', '''        shifted.dedup_by(|a, b| a.1 == 0f32 && b.1 == 0f32 && a.0 == b.0);
        shifted.dedup_by_key(|(l, _)| if l.prob == 0f32 { l.logit.to_bits() as u64 } else { u64::MAX - l.token_id as u64 });
        let mut cum_sum = 0f32;
        let last_idx = match shifted''')],
  LG + '''fn main() { let mut l = lg(&[0.0, f32::NEG_INFINITY, f32::NEG_INFINITY]); SampleLocallyTypical::new(2.0, 3).sample(&mut (), &mut l).unwrap(); assert_eq!(l.len(), 3); }''',
  'two tokens of probability zero with equal scores', 'tokens of probability zero are merged, so fewer than min_keep remain')
seed('softmax_shift', 'C05', [('types.rs', """        let max_l = self[0].logit;
""", """        if self[0].logit > 80f32 && self[0].logit.is_finite() {
            let top = self[0].logit;
            self.iter_mut().for_each(|l| l.logit -= top);
        }
        let max_l = self[0].logit;
""")],
  LG + '''fn main() { let mut l = lg(&[100.0, 99.0]); SampleTopP::new(2.0, 1).sample(&mut (), &mut l).unwrap(); assert_eq!(sc(&l), vec![100.0, 99.0]); }''',
  'a score above 80', 'normalising replaces the scores by shifted ones')
