//! Odometer over a product of small alphabets and other enumeration helpers.

/// Calls `f` with every tuple of length `n` over `0..k`; stops when `f` returns false.
pub fn tuples(n: usize, k: usize, mut f: impl FnMut(&[usize]) -> bool) {
    let mut t = vec![0usize; n];
    if k == 0 && n > 0 {
        return;
    }
    loop {
        if !f(&t) {
            return;
        }
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            t[i] += 1;
            if t[i] < k {
                break;
            }
            t[i] = 0;
        }
    }
}

/// All vectors of length `n` over the alphabet `a`.
pub fn all<T: Copy>(n: usize, a: &[T]) -> Vec<Vec<T>> {
    let mut v = vec![];
    tuples(n, a.len(), |t| {
        v.push(t.iter().map(|&i| a[i]).collect());
        true
    });
    v
}

/// All subsets of size `k` of `0..n`, in lexicographic order.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in from..n {
            cur.push(i);
            rec(n, k, i + 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(n, k, 0, &mut vec![], &mut out);
    out
}

/// All permutations of `v`.
pub fn permutations<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}

pub fn hash128(bytes: &[u8]) -> u128 {
    // two independent FNV-1a style lanes; collisions only merge states, 2^-100-ish for our sizes
    let mut a: u64 = 0xcbf29ce484222325;
    let mut b: u64 = 0x9e3779b97f4a7c15;
    for &x in bytes {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(5) ^ x as u64).wrapping_mul(0xff51afd7ed558ccd);
        b ^= b >> 29;
    }
    ((a as u128) << 64) | b as u128
}
