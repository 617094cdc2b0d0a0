//! Ranking/unranking of the finite spaces that are enumerated.

/// Mixed-radix decoding: digits of `i`, first radix varying fastest.
pub fn digits(mut i: u64, radices: &[usize]) -> Vec<usize> {
    radices
        .iter()
        .map(|&r| {
            let d = (i % r as u64) as usize;
            i /= r as u64;
            d
        })
        .collect()
}

pub fn product(radices: &[usize]) -> u64 {
    radices.iter().map(|&r| r as u64).product()
}

/// Number of words of length 0..=n over k letters.
pub fn words_upto(k: usize, n: usize) -> u64 {
    (0..=n as u32).map(|l| (k as u64).pow(l)).sum()
}

/// The `i`-th word (shortest first) over `k` letters.
pub fn word(mut i: u64, k: usize) -> Vec<usize> {
    let mut len = 0u32;
    loop {
        let c = (k as u64).pow(len);
        if i < c {
            break;
        }
        i -= c;
        len += 1;
    }
    let mut w = vec![0; len as usize];
    for p in (0..len as usize).rev() {
        w[p] = (i % k as u64) as usize;
        i /= k as u64;
    }
    w
}

pub fn word_string(i: u64, letters: &[&str]) -> String {
    word(i, letters.len()).into_iter().map(|d| letters[d]).collect()
}

/// All assignments to menus in which at most `k` fields differ from their
/// default (menu index 0).
pub struct Deviations {
    radices: Vec<usize>,
    blocks: Vec<(u64, Vec<usize>)>,
    pub total: u64,
}

impl Deviations {
    pub fn new(radices: &[usize], k: usize) -> Self {
        let mut blocks = vec![];
        let mut total = 0;
        for size in 0..=k.min(radices.len()) {
            let mut subset: Vec<usize> = (0..size).collect();
            loop {
                let c: u64 = subset
                    .iter()
                    .map(|&f| radices[f] as u64 - 1)
                    .product();
                blocks.push((total, subset.clone()));
                total += c;
                // next combination
                let mut p = size;
                loop {
                    if p == 0 {
                        break;
                    }
                    p -= 1;
                    if subset[p] < radices.len() - size + p {
                        subset[p] += 1;
                        for q in p + 1..size {
                            subset[q] = subset[q - 1] + 1;
                        }
                        break;
                    }
                    if p == 0 {
                        p = usize::MAX;
                        break;
                    }
                }
                if size == 0 || p == usize::MAX {
                    break;
                }
            }
        }
        Self { radices: radices.to_vec(), blocks, total }
    }

    pub fn get(&self, i: u64) -> Vec<usize> {
        let b = self.blocks.partition_point(|x| x.0 <= i) - 1;
        // skip empty blocks sharing the same start
        let (start, subset) = &self.blocks[b];
        let mut r = i - start;
        let mut out = vec![0; self.radices.len()];
        for &f in subset {
            let m = self.radices[f] as u64 - 1;
            out[f] = 1 + (r % m) as usize;
            r /= m;
        }
        out
    }
}

/// All ordered selections without repetition of up to `n` of `k` items.
pub fn selections(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n.min(k) {
        let mut cur = vec![];
        for s in &last {
            for x in 0..k {
                if !s.contains(&x) {
                    let mut t = s.clone();
                    t.push(x);
                    cur.push(t);
                }
            }
        }
        out.extend(cur.iter().cloned());
        last = cur;
    }
    out
}

/// All subsets of up to `n` of `k` items, in increasing order.
pub fn subsets(k: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n.min(k) {
        let mut cur = vec![];
        for s in &last {
            let from = s.last().map(|x| x + 1).unwrap_or(0);
            for x in from..k {
                let mut t = s.clone();
                t.push(x);
                cur.push(t);
            }
        }
        out.extend(cur.iter().cloned());
        last = cur;
    }
    out
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    selections(n, n).into_iter().filter(|s| s.len() == n).collect()
}

#[cfg(test)]
mod tests {
    use super::*;
    use std::collections::HashSet;

    #[test]
    fn deviations_complete() {
        let r = [3, 1, 4, 2];
        for k in 0..=4 {
            let d = Deviations::new(&r, k);
            let got: HashSet<Vec<usize>> =
                (0..d.total).map(|i| d.get(i)).collect();
            assert_eq!(got.len() as u64, d.total);
            let want: HashSet<Vec<usize>> = (0..product(&r))
                .map(|i| digits(i, &r))
                .filter(|v| v.iter().filter(|&&x| x != 0).count() <= k)
                .collect();
            assert_eq!(got, want);
        }
    }

    #[test]
    fn words_complete() {
        let got: HashSet<Vec<usize>> =
            (0..words_upto(3, 4)).map(|i| word(i, 3)).collect();
        assert_eq!(got.len() as u64, words_upto(3, 4));
        assert!(got.iter().all(|w| w.len() <= 4));
    }
}
