//! Choice tape: every generator draws bounded integers from a tape.  A fresh run
//! records the draws of a seeded PRNG; a replay (or a shrink attempt) feeds an
//! edited tape back through the same generator.  0 is always the simplest choice,
//! and an exhausted tape answers 0, so any tape is a valid input.

pub struct Rng(u64, u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x9E37_79B9_7F4A_7C15), mix(seed.wrapping_add(77)) | 1)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64 with a per-seed odd increment
        self.0 = self.0.wrapping_add(self.1);
        mix(self.0)
    }
}

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub record: Vec<u64>,
    /// [start, end) of list elements in the record, for shrinking by deletion
    pub spans: Vec<(usize, usize)>,
    /// every draw is also appended here at once (survives a crash of the process)
    pub sink: Option<std::fs::File>,
}

impl Src {
    fn push(&mut self, v: u64) {
        self.record.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
    }
    pub fn fresh(seed: u64) -> Src {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), record: vec![], spans: vec![], sink: None }
    }
    pub fn replay(tape: &[u64]) -> Src {
        Src { tape: tape.to_vec(), pos: 0, rng: None, record: vec![], spans: vec![], sink: None }
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.next() % n,
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
        };
        self.push(v);
        v
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        self.push(v);
        v
    }
    pub fn usize_in(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn i64_in(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// index with the given weights
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// list of min..=max elements, about `avg` long
    pub fn list<T>(
        &mut self,
        min: usize,
        max: usize,
        avg: usize,
        mut f: impl FnMut(&mut Src, usize) -> T,
    ) -> Vec<T> {
        let mut out = Vec::new();
        loop {
            let start = self.record.len();
            if out.len() >= max {
                break;
            }
            if out.len() >= min {
                let extra = avg.saturating_sub(min).max(1) as u64;
                if !self.chance(extra, extra + 1) {
                    break;
                }
            }
            let i = out.len();
            out.push(f(self, i));
            self.spans.push((start, self.record.len()));
        }
        out
    }
}

/// the lists of the recording: runs of spans that follow each other, longest first
fn chains(spans: &[(usize, usize)]) -> Vec<Vec<(usize, usize)>> {
    let mut by_start: std::collections::HashMap<usize, Vec<(usize, usize)>> = Default::default();
    for s in spans {
        by_start.entry(s.0).or_default().push(*s);
    }
    let mut sorted = spans.to_vec();
    sorted.sort();
    let mut used = std::collections::HashSet::new();
    let mut out = vec![];
    for s in sorted {
        if !used.insert(s) {
            continue;
        }
        let mut chain = vec![s];
        let mut end = s.1;
        while let Some(n) = by_start.get(&end).and_then(|v| v.iter().filter(|x| x.1 > x.0 && !used.contains(*x)).max_by_key(|x| x.1)) {
            used.insert(*n);
            chain.push(*n);
            end = n.1;
        }
        if chain.len() > 3 {
            out.push(chain);
        }
    }
    out.sort_by_key(|c| std::cmp::Reverse(c.len()));
    out
}

/// Shrink `tape` while `fails` keeps returning true for the edited tape.
/// `fails` returns the recorded (canonical) tape and spans of a failing run.
pub fn shrink(
    tape: Vec<u64>,
    spans: Vec<(usize, usize)>,
    budget: usize,
    deadline: std::time::Instant,
    mut fails: impl FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>)>,
) -> Vec<u64> {
    let mut best = tape;
    let mut spans = spans;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 || std::time::Instant::now() > deadline {
                return best;
            }
            left -= 1;
            match fails(&cand) {
                Some((rec, sp)) => {
                    let better = rec.len() < best.len()
                        || (rec.len() == best.len() && rec.iter().map(|x| *x as u128).sum::<u128>() < best.iter().map(|x| *x as u128).sum::<u128>());
                    if better {
                        best = rec;
                        spans = sp;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete runs of neighbouring list elements, long runs first
        let mut tried = 0;
        'runs: while tried < 12 {
            tried += 1;
            for chain in chains(&spans) {
                let mut size = chain.len() / 2;
                while size >= 2 {
                    for c in chain.chunks(size) {
                        let (a, b) = (c[0].0, c[c.len() - 1].1);
                        if b > best.len() || c.len() < 2 {
                            continue;
                        }
                        let mut cand = best[..a].to_vec();
                        cand.extend_from_slice(&best[b..]);
                        if attempt!(cand) {
                            tried = 0;
                            continue 'runs;
                        }
                    }
                    size /= 2;
                }
            }
            break;
        }
        // delete list elements, largest first
        let mut again = true;
        while again {
            again = false;
            let mut order = spans.clone();
            order.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
            for (a, b) in order {
                if b > best.len() || a >= b {
                    continue;
                }
                let mut cand = best[..a].to_vec();
                cand.extend_from_slice(&best[b..]);
                if attempt!(cand) {
                    again = true;
                    break;
                }
            }
        }
        // delete / zero chunks
        let mut size = 32usize.min(best.len().max(1));
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let j = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[j..]);
                if attempt!(cand) {
                    continue;
                }
                if best[i..j.min(best.len())].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..j] {
                        *x = 0;
                    }
                    if attempt!(cand) && best.len() < j {
                        continue;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !attempt!(cand) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
