//! RampTableBuilder groups pairs given in any order.
use crate::sym::*;
use trellis::ramp_table::RampTableBuilder;

#[cfg(not(feature = "thorough"))]
const L: usize = 4;
#[cfg(feature = "thorough")]
const L: usize = 5;
const KEY: i64 = 4;

#[no_mangle]
pub extern "C" fn h_p07_group() {
    let n = split(int(0, L as i64)) as usize;
    let how = split(int(0, 2));
    let mut b = if how == 0 { RampTableBuilder::new() } else { RampTableBuilder::with_capacity(2) };
    let mut key = [0usize; L];
    for i in 0..L {
        key[i] = int(0, KEY) as usize;
    }
    if how < 2 {
        for i in 0..n {
            b.push(key[i] as u32, 10 + i as u8);
        }
    } else {
        // the first by push, the others at once
        if n > 0 {
            b.push(key[0] as u32, 10);
            b.extend((1..n).map(|i| (key[i] as u32, 10 + i as u8)));
        } else {
            b.extend(std::iter::empty());
        }
    }
    let t = b.finish();
    let mut keys = 0;
    for i in 0..n {
        if key[i] + 1 > keys {
            keys = key[i] + 1;
        }
    }
    check(t.len() == keys, 1);
    check(t.num_values() == n, 2);
    for k in 0..KEY as usize + 1 {
        if k < keys {
            let s = t.entry_values(k);
            let mut c = 0;
            for i in 0..n {
                if key[i] == k {
                    check(c < s.len() && s[c] == 10 + i as u8, 3);
                    c += 1;
                }
            }
            check(c == s.len(), 4);
        }
    }
    reach(1);
}

/// Long lists, which are sorted by other means: some keys unknown, the others in a pattern.
#[no_mangle]
pub extern "C" fn h_p07_many() {
    const M: usize = 36;
    let n = [21, 36][split(int(0, 1)) as usize];
    let (a, b) = (split(int(0, 2)) as usize, split(int(1, 3)) as usize);
    let mut t = RampTableBuilder::new();
    let mut key = [0usize; M];
    let u = [int(0, 2) as usize, int(0, 2) as usize];
    for i in 0..n {
        key[i] = if i == 3 { u[0] } else if i == n - 4 { u[1] } else { (a * i + i / b) % 3 };
        t.push(key[i] as u32, i as u8);
    }
    let t = t.finish();
    let mut c = [0usize; 3];
    for i in 0..n {
        let k = key[i];
        check(k < t.len(), 10);
        let s = t.entry_values(k);
        check(c[k] < s.len() && s[c[k]] == i as u8, 11);
        c[k] += 1;
    }
    check(t.num_values() == n, 12);
    reach(1);
}

/// Keys far apart, and tables of many keys.
#[no_mangle]
pub extern "C" fn h_p07_sparse() {
    const AT: [usize; 8] = [0, 1, 63, 64, 255, 256, 299, 300];
    let n = split(int(0, 4)) as usize;
    let mut key = [0usize; 4];
    let mut b = RampTableBuilder::new();
    for i in 0..4 {
        key[i] = if i < 2 { AT[split(int(0, 7)) as usize] } else { AT[int(0, 7) as usize] };
        if i < n {
            b.push(key[i] as u32, 10 + i as u8);
        }
        assume(i < n || key[i] == 0);
    }
    let t = b.finish();
    let mut keys = 0;
    for i in 0..n {
        keys = if key[i] + 1 > keys { key[i] + 1 } else { keys };
    }
    check(t.len() == keys && t.num_values() == n, 20);
    let mut seen = 0;
    for k in AT {
        if k < keys {
            let s = t.entry_values(k);
            let mut c = 0;
            for i in 0..n {
                if key[i] == k {
                    check(c < s.len() && s[c] == 10 + i as u8, 21);
                    c += 1;
                }
            }
            check(c == s.len(), 22);
            seen += c;
        }
    }
    check(seen == n, 23);
    reach(1);
}

/// A key, and a number of pairs, of more than 16 bits.
#[no_mangle]
pub extern "C" fn h_p07_huge() {
    let k = [65535usize, 65536, 65537, 70000][split(int(0, 3)) as usize];
    let x = int(0, 63);
    let mut b = RampTableBuilder::new();
    b.push(k as u32, x as u8);
    b.push(1, 2);
    b.push(k as u32 - 65535, 3);
    let t = b.finish();
    check(t.len() == k + 1 && t.num_values() == 3, 30);
    check(t[k] == [x as u8], 31);
    let low = k - 65535;
    if low == 1 {
        check(t[1] == [2, 3], 32);
    } else {
        check(t[1] == [2] && t[low] == [3], 33);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn h_p07_pairs() {
    let n = 65535 + split(int(0, 2)) as usize;
    let u = int(0, 1) as u32;
    let mut b = RampTableBuilder::new();
    for i in 0..n {
        b.push((i & 1) as u32, i as u8);
    }
    b.push(u, 77);
    let t = b.finish();
    check(t.len() == 2 && t.num_values() == n + 1, 34);
    let z = (n + 1) / 2;
    check(t[0].len() == if u == 0 { z + 1 } else { z } && t[u as usize].last() == Some(&77), 35);
    for i in 0..n / 2 {
        check(t[0][i] == (2 * i) as u8 && t[1][i] == (2 * i + 1) as u8, 36);
    }
    reach(1);
}

list!(h_p07_huge, h_p07_pairs, h_p07_group, h_p07_many, h_p07_sparse);
