//! Choice sequences: every random decision of a generated case is drawn from
//! here, so a case is a pure function of a vector of integers.

#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            0
        } else {
            ((self.next() >> 32) as u32) % n
        }
    }
}

/// Mixes several integers into a seed.
pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x1234_5678_9ABC_DEF0);
    let mut acc = 0u64;
    for p in parts {
        r.0 ^= p.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        acc = acc.rotate_left(17) ^ r.next();
        r.0 ^= acc;
    }
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// Source of choices. In random mode choices come from the PRNG and are
/// recorded; in replay mode they come from `data` (0 once exhausted).
#[derive(Clone, Debug)]
pub struct Src {
    pub data: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { data: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(data: Vec<u32>) -> Self {
        Src { data, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// Uniform in `0..n` (`0` is the simplest choice).
    pub fn draw(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        match &mut self.rng {
            Some(r) => {
                let v = r.below(n);
                self.data.push(v);
                self.pos += 1;
                v
            }
            None => {
                let v = self.data.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        }
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    /// True with probability `num / den`; `false` is the simplest choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    /// Weighted choice of an index.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u32) as usize]
    }
    /// Length biased towards small values.
    pub fn small(&mut self, max: u32) -> u32 {
        let a = self.draw(max + 1);
        let b = self.draw(max + 1);
        a.min(b)
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.draw((xs.len() - i) as u32) as usize;
            xs.swap(i, j);
        }
    }
}

/// Shrink candidates of a choice sequence, most aggressive first.
pub fn candidates(data: &[u32]) -> Vec<Vec<u32>> {
    let n = data.len();
    let mut out: Vec<Vec<u32>> = Vec::new();
    let mut push = |v: Vec<u32>| {
        if v.as_slice() != data && !out.contains(&v) {
            out.push(v)
        }
    };
    if n == 0 {
        return out;
    }
    push(Vec::new());
    let mut k = n;
    while k > 1 {
        k /= 2;
        push(data[..k].to_vec());
        push(data[n - k..].to_vec());
    }
    push(data[..n - 1].to_vec());
    let mut size = n / 2;
    while size >= 1 {
        let mut i = 0;
        while i < n {
            let j = (i + size).min(n);
            let mut v = data[..i].to_vec();
            v.extend_from_slice(&data[j..]);
            push(v);
            if data[i..j].iter().any(|x| *x != 0) {
                let mut v = data.to_vec();
                for x in &mut v[i..j] {
                    *x = 0;
                }
                push(v);
            }
            i += size;
        }
        if out_len_cap(size, n) {
            size /= 2;
        } else {
            break;
        }
    }
    for i in 0..n {
        if data[i] > 1 {
            let mut v = data.to_vec();
            v[i] /= 2;
            push(v);
            let mut v = data.to_vec();
            v[i] -= 1;
            push(v);
        }
    }
    out
}

fn out_len_cap(size: usize, _n: usize) -> bool {
    size > 1
}

/// In-process shrinking: smallest choice sequence found that still fails.
pub fn shrink(mut data: Vec<u32>, mut budget: usize, fails: &mut dyn FnMut(&[u32]) -> bool) -> Vec<u32> {
    'outer: loop {
        for c in candidates(&data) {
            if budget == 0 {
                return data;
            }
            budget -= 1;
            if (c.len(), c.iter().map(|x| *x as u64).sum::<u64>())
                < (data.len(), data.iter().map(|x| *x as u64).sum::<u64>())
                && fails(&c)
            {
                data = c;
                continue 'outer;
            }
        }
        return data;
    }
}
