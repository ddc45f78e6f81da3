//! Indexable finite enumerations: `count` elements, element `i` computed on demand.

use std::sync::Arc;

pub struct E<T> {
    pub count: u64,
    f: Arc<dyn Fn(u64) -> T + Send + Sync>,
}

impl<T> Clone for E<T> {
    fn clone(&self) -> Self {
        E {
            count: self.count,
            f: self.f.clone(),
        }
    }
}

impl<T: 'static> E<T> {
    pub fn new(count: u64, f: impl Fn(u64) -> T + Send + Sync + 'static) -> Self {
        E {
            count,
            f: Arc::new(f),
        }
    }
    pub fn get(&self, i: u64) -> T {
        debug_assert!(i < self.count);
        (self.f)(i)
    }
    pub fn empty() -> Self {
        E::new(0, |_| unreachable!())
    }
    pub fn map<U: 'static>(&self, g: impl Fn(T) -> U + Send + Sync + 'static) -> E<U> {
        let f = self.f.clone();
        E::new(self.count, move |i| g(f(i)))
    }
    pub fn prod<U: 'static>(&self, o: &E<U>) -> E<(T, U)> {
        let (a, b) = (self.clone(), o.clone());
        let n = b.count;
        E::new(
            a.count.checked_mul(n).expect("space too large"),
            move |i| (a.get(i / n), b.get(i % n)),
        )
    }
}

pub fn list<T: Clone + Send + Sync + 'static>(v: Vec<T>) -> E<T> {
    E::new(v.len() as u64, move |i| v[i as usize].clone())
}

pub fn sum<T: 'static>(v: Vec<E<T>>) -> E<T> {
    let v: Vec<E<T>> = v.into_iter().filter(|e| e.count > 0).collect();
    let mut ends = Vec::new();
    let mut tot = 0u64;
    for e in &v {
        tot = tot.checked_add(e.count).expect("space too large");
        ends.push(tot);
    }
    E::new(tot, move |i| {
        let k = ends.partition_point(|&e| e <= i);
        let lo = if k == 0 { 0 } else { ends[k - 1] };
        v[k].get(i - lo)
    })
}

/// All lists over `0..base` of exactly `len` digits; digit 0 varies slowest.
pub fn digits(mut i: u64, base: u64, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for k in (0..len).rev() {
        v[k] = (i % base) as usize;
        i /= base;
    }
    v
}

pub fn pow(b: u64, e: usize) -> u64 {
    b.checked_pow(e as u32).expect("space too large")
}

/// Number of lists over an alphabet of `b` with length `lo..=hi`.
pub fn strings_count(b: u64, lo: usize, hi: usize) -> u64 {
    (lo..=hi).map(|l| pow(b, l)).sum()
}

/// The `i`-th list over `0..b` with length `lo..=hi`, shortest first.
pub fn nth_string(mut i: u64, b: u64, lo: usize, hi: usize) -> Vec<usize> {
    for l in lo..=hi {
        let n = pow(b, l);
        if i < n {
            return digits(i, b, l);
        }
        i -= n;
    }
    unreachable!()
}
