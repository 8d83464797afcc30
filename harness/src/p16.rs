//! The priority queue.
use crate::sym::*;
use std::cmp::Ordering;
use trellis::priority_queue::PQ;

/// Ordered by key only.
#[derive(Clone, Copy)]
struct It {
    key: u8,
    id: u8,
}
impl PartialEq for It {
    fn eq(&self, o: &It) -> bool {
        self.key == o.key
    }
}
impl Eq for It {}
impl PartialOrd for It {
    fn partial_cmp(&self, o: &It) -> Option<Ordering> {
        Some(self.key.cmp(&o.key))
    }
}
impl Ord for It {
    fn cmp(&self, o: &It) -> Ordering {
        self.key.cmp(&o.key)
    }
}

#[cfg(not(feature = "thorough"))]
const K: usize = 6;
#[cfg(feature = "thorough")]
const K: usize = 8;

struct M {
    n: usize,
    key: [u8; 12],
    here: [bool; 12],
}
fn put(q: &mut PQ<It>, m: &mut M, key: u8) {
    q.insert(It { key, id: m.n as u8 });
    m.key[m.n] = key;
    m.here[m.n] = true;
    m.n += 1;
}
fn take(q: &mut PQ<It>, m: &mut M) {
    match q.remove() {
        None => {
            for k in 0..m.n {
                check(!m.here[k], 1);
            }
        }
        Some(x) => {
            let i = x.id as usize;
            check(i < m.n && m.here[i] && m.key[i] == x.key, 2);
            m.here[i] = false;
            for k in 0..m.n {
                check(!m.here[k] || m.key[k] <= x.key, 3);
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_p16_history() {
    let mut q = if split(int(0, 1)) == 0 { PQ::new() } else { PQ::with_capacity(2) };
    let mut m = M { n: 0, key: [0; 12], here: [false; 12] };
    for _ in 0..K {
        let ins = split(int(0, 1)) == 1;
        let key = wide(0, 255) as u8;
        if ins {
            put(&mut q, &mut m, key);
        } else {
            take(&mut q, &mut m);
        }
    }
    if flag() {
        q.clear();
        check(q.remove().is_none(), 4);
        q.insert(It { key: 3, id: 9 });
        check(q.remove().map(|x| x.id) == Some(9), 5);
    }
    reach(1);
}

/// Fill, then empty.
#[no_mangle]
pub extern "C" fn h_p16_sort() {
    let mut q = PQ::new();
    let mut m = M { n: 0, key: [0; 12], here: [false; 12] };
    const N: usize = K - 1;
    let n = split(int(0, N as i64)) as usize;
    for k in 0..N {
        let key = int(0, N as i64) as u8;
        if k < n {
            put(&mut q, &mut m, key);
        }
    }
    for _ in 0..n + 1 {
        take(&mut q, &mut m);
    }
    for k in 0..n {
        check(!m.here[k], 6);
    }
    reach(1);
}

/// A large queue: the keys follow a pattern, but for two.
#[no_mangle]
pub extern "C" fn h_p16_large() {
    const N: usize = 26;
    let pattern = split(int(0, 4));
    let n = [9, 17, 26][split(int(0, 2)) as usize];
    let early = split(int(0, 3));
    let u = [3 * int(0, 9) as usize, 3 * int(0, 9) as usize + 1];
    let mut q = PQ::new();
    let mut key = [0usize; N];
    let mut here = [false; N];
    let mut take = |q: &mut PQ<It>, key: &[usize; N], here: &mut [bool; N]| {
        let x = q.remove();
        let mut best = 0;
        let mut any = false;
        for k in 0..N {
            any |= here[k];
            best = if here[k] && key[k] > best { key[k] } else { best };
        }
        match x {
            None => check(!any, 10),
            Some(x) => {
                let i = x.id as usize;
                check(i < N && here[i] && key[i] == best && x.key as usize == best, 11);
                here[i] = false;
            }
        }
    };
    for k in 0..n {
        key[k] = match pattern {
            0 => k,
            1 => n - k,
            2 => (k * 7) % n,
            3 => 10 + k % 2,
            _ => (k * k) % 13,
        };
        key[k] = if k == n / 3 { u[0] } else if k == n - 2 { u[1] } else { key[k] };
        q.insert(It { key: key[k] as u8, id: k as u8 });
        here[k] = true;
        // some are taken before all are in
        if early > 0 && k as i64 % (early + 2) == early {
            take(&mut q, &key, &mut here);
        }
    }
    for _ in 0..n + 1 {
        take(&mut q, &key, &mut here);
    }
    for k in 0..n {
        check(!here[k], 12);
    }
    reach(1);
}

/// Many items; one of them unknown.
#[no_mangle]
pub extern "C" fn h_p16_many() {
    let n = [300, 1030][split(int(0, 1)) as usize];
    let down = split(int(0, 1)) == 1;
    let u = [0, 255, 256, 299][int(0, 3) as usize];
    let mut q: PQ<u32> = PQ::with_capacity(7);
    for k in 0..n {
        q.insert(2 * if down { n - 1 - k } else { k });
    }
    q.insert(2 * u + 1);
    let mut k = n;
    let mut m = 0;
    for _ in 0..n + 1 {
        let x = q.remove();
        let mine = k == u + 1 && m == 0;
        check(x == Some(if mine { 2 * u + 1 } else { 2 * k.wrapping_sub(1) }), 20);
        m += mine as u32;
        k -= !mine as u32;
    }
    check(k == 0 && q.remove().is_none(), 21);
    q.insert(5);
    q.clear();
    check(q.remove().is_none(), 22);
    reach(1);
}

list!(h_p16_many, h_p16_history, h_p16_sort, h_p16_large);
