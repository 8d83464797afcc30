//! RampTable: histories, lookups and iteration.
use crate::sym::*;
use trellis::ramp_table::RampTable;

const MK: usize = 10;
const MV: usize = 12;
/// The reference: keys hold consecutive slices of the values.
struct Model {
    keys: usize,
    start: [usize; MK + 1],
    n: usize,
    v: [u8; MV],
}
impl Model {
    fn push(&mut self, x: u8) {
        self.v[self.n] = x;
        self.n += 1;
    }
    fn finish(&mut self) {
        self.keys += 1;
        self.start[self.keys] = self.n;
    }
}

#[cfg(not(feature = "thorough"))]
const K: u8 = 4;
#[cfg(feature = "thorough")]
const K: u8 = 5;

fn step(t: &mut RampTable<u8>, m: &mut Model, x: u8) {
    let op = split(int(0, 7));
    let i = int(0, 3) as usize;
    match op {
        0 => {
            t.push_value(x);
            m.push(x);
        }
        1 => {
            let k = t.finish_key();
            check(k == m.keys, 1);
            m.finish();
        }
        2 => {
            t.push_entry_copy(&[x, x + 1]);
            m.push(x);
            m.push(x + 1);
            m.finish();
        }
        3 => {
            t.push_entry_clone(&[x]);
            m.push(x);
            m.finish();
        }
        4 => {
            t.push_entry_extend([x, x + 1].iter().copied());
            m.push(x);
            m.push(x + 1);
            m.finish();
        }
        5 => {
            t.clear();
            m.keys = 0;
            m.n = 0;
        }
        6 => {
            if i < m.keys {
                let s = t.entry_values_mut(i);
                check(s.len() == m.start[i + 1] - m.start[i], 2);
                if s.len() > 0 {
                    s[s.len() - 1] = x;
                    m.v[m.start[i + 1] - 1] = x;
                }
            }
        }
        _ => {
            if i < m.keys {
                let s = &mut t[i];
                check(s.len() == m.start[i + 1] - m.start[i], 3);
                if s.len() > 0 {
                    s[0] = x;
                    m.v[m.start[i]] = x;
                }
            }
        }
    }
}

fn history() -> (RampTable<u8>, Model) {
    let mut t = match split(int(0, 2)) {
        0 => RampTable::new(),
        1 => RampTable::with_capacity(1, 1),
        _ => RampTable::default(),
    };
    let mut m = Model { keys: 0, start: [0; MK + 1], n: 0, v: [0; MV] };
    for _ in 0..K {
        step(&mut t, &mut m, wide(0, 249) as u8);
    }
    (t, m)
}

#[no_mangle]
pub extern "C" fn h_p06_lookup() {
    let (mut t, m) = history();
    check(t.len() == m.keys && t.is_empty() == (m.keys == 0), 10);
    check(t.num_values() == m.n, 11);
    #[allow(deprecated)]
    let keys = t.num_keys();
    check(keys == m.keys, 9);
    check(t.all_values().len() == m.n, 12);
    for i in 0..m.n {
        check(t.all_values()[i] == m.v[i], 13);
        observe(m.v[i] as u64);
    }
    for k in 0..m.keys {
        let r = t.entry_values_range(k);
        check(r.start == m.start[k] && r.end == m.start[k + 1], 14);
        let s = t.entry_values(k);
        check(s.len() == m.start[k + 1] - m.start[k], 15);
        for i in 0..s.len() {
            check(s[i] == m.v[m.start[k] + i], 16);
        }
        check(t[k].len() == s.len(), 17);
    }
    // a clone is equal to the table, and a table that differs in one value is not
    let c = t.clone();
    check(c == t, 18);
    if m.n > 0 {
        let i = int(0, 3) as usize;
        assume(i < m.n);
        t.all_values_mut()[i] = m.v[i] ^ 1;
        check(c != t, 19);
        check(c.all_values()[i] == m.v[i], 20);
    } else {
        int(0, 3);
    }
    reach(1);
}

#[no_mangle]
pub extern "C" fn h_p06_iter() {
    let (mut t, m) = history();
    let owned = m.start[m.keys];
    let mut k = 0;
    for s in t.iter() {
        check(k < m.keys && s.len() == m.start[k + 1] - m.start[k], 30);
        for i in 0..s.len() {
            check(s[i] == m.v[m.start[k] + i], 31);
        }
        k += 1;
    }
    check(k == m.keys && t.iter().len() == k, 32);
    for s in t.iter().rev() {
        k -= 1;
        check(s.len() == m.start[k + 1] - m.start[k], 33);
        if s.len() > 0 {
            check(s[0] == m.v[m.start[k]], 34);
        }
    }
    check(k == 0, 35);
    let mut c = 0;
    for (key, x) in t.iter_pairs() {
        check(c < owned && *x == m.v[c], 36);
        check(key < m.keys && m.start[key] <= c && c < m.start[key + 1], 37);
        c += 1;
    }
    check(c == owned, 38);
    let mut c = 0;
    for (key, x) in t.iter_pairs_manual() {
        check(c < owned && *x == m.v[c], 39);
        check(key < m.keys && m.start[key] <= c && c < m.start[key + 1], 40);
        c += 1;
    }
    check(c == owned, 41);
    let mut k = 0;
    for s in t.iter_mut() {
        check(k < m.keys && s.len() == m.start[k + 1] - m.start[k], 42);
        for i in 0..s.len() {
            check(s[i] == m.v[m.start[k] + i], 43);
            s[i] = s[i] + 1;
        }
        k += 1;
    }
    check(k == m.keys, 44);
    for i in 0..m.n {
        check(t.all_values()[i] == m.v[i] + (i < owned) as u8, 45);
    }
    reach(1);
}

/// Long entries and many keys.
#[no_mangle]
pub extern "C" fn h_p06_long() {
    const N: usize = 600;
    let a = [0, 1, 255, 256, 257, 300][split(int(0, 5)) as usize];
    let b = [0, 1, 256, 300][int(0, 3) as usize];
    let k = [0, 1, 255, 256][split(int(0, 3)) as usize];
    let mut t = RampTable::new();
    let mut v = [0u8; N];
    let mut n = 0;
    for i in 0..a {
        v[n] = i as u8;
        t.push_value(v[n]);
        n += 1;
    }
    t.finish_key();
    for _ in 0..k {
        t.finish_key();
    }
    let x = wide(0, 255) as u8;
    for i in 0..300 {
        if i < b {
            v[n + i] = x ^ i as u8;
            t.push_value(v[n + i]);
        }
    }
    n += b;
    let last = t.finish_key();
    check(last == k + 1 && t.len() == k + 2 && t.num_values() == n, 50);
    check(t.entry_values(0).len() == a && t[last].len() == b, 51);
    for i in 0..k {
        check(t.entry_values(1 + i).len() == 0, 52);
    }
    let mut c = 0;
    for (key, y) in t.iter_pairs() {
        check(key == if c < a { 0 } else { last } && *y == v[c], 53);
        c += 1;
    }
    check(c == n, 54);
    let mut c = 0;
    for (key, y) in t.iter_pairs_manual() {
        check(key == if c < a { 0 } else { last } && *y == v[c], 55);
        c += 1;
    }
    check(c == n, 56);
    let mut i = 0;
    for s in t.iter_mut() {
        check(s.len() == if i == 0 { a } else if i == last { b } else { 0 }, 57);
        i += 1;
    }
    check(i == last + 1, 58);
    reach(1);
}

/// A key that is not there.
#[no_mangle]
pub extern "C" fn h_p06_range() {
    let mut t = RampTable::new();
    let n = split(int(0, 3)) as usize;
    for i in 0..n {
        for x in 0..i {
            t.push_value(x as u8);
        }
        t.finish_key();
    }
    t.push_value(7);
    let i = int(0, 5) as usize;
    let op = split(int(0, 4));
    allow_panic(i >= n);
    let l = match op {
        0 => t.entry_values(i).len(),
        1 => t.entry_values_mut(i).len(),
        2 => t[i].len(),
        3 => {
            let r = &mut t[i];
            r.len()
        }
        _ => t.entry_values_range(i).len(),
    };
    check(i < n && l == i, 60);
    reach(1);
}

/// Iteration from both ends at once.
#[no_mangle]
pub extern "C" fn h_p06_ends() {
    let mut t = RampTable::new();
    let mut m = Model { keys: 0, start: [0; MK + 1], n: 0, v: [0; MV] };
    let keys = split(int(0, 3));
    for i in 0..3 {
        let n = split(int(0, 2));
        if i < keys {
            for _ in 0..n {
                let x = m.n as u8;
                t.push_value(x);
                m.push(x);
            }
            t.finish_key();
            m.finish();
        }
    }
    let mut it = t.iter();
    let (mut a, mut b) = (0, m.keys);
    for _ in 0..4 {
        let back = int(0, 1) == 1;
        check(it.len() == b - a, 70);
        let s = if back { it.next_back() } else { it.next() };
        if a == b {
            check(s.is_none(), 71);
        } else {
            let k = if back { b - 1 } else { a };
            match s {
                Some(s) => {
                    check(s.len() == m.start[k + 1] - m.start[k], 72);
                    if s.len() > 0 {
                        check(s[0] == m.v[m.start[k]], 73);
                    }
                }
                None => check(false, 74),
            }
            if back {
                b -= 1;
            } else {
                a += 1;
            }
        }
    }
    reach(1);
}

/// The text of a table names the keys with values.
#[no_mangle]
pub extern "C" fn h_p06_text() {
    let mut t = RampTable::new();
    let mut e = String::new();
    e.push('{');
    let mut first = true;
    for k in 0..3u8 {
        let n = split(int(0, 2)) as usize;
        let xs = [int(0, 9), int(0, 9)];
        for i in 0..n {
            let x = xs[i] as u8;
            t.push_value(x);
            if i == 0 {
                if !first {
                    e.push_str(", ");
                }
                first = false;
                e.push((b'0' + k) as char);
                e.push_str(": [");
            } else {
                e.push_str(", ");
            }
            e.push((b'0' + x) as char);
        }
        if n > 0 {
            e.push(']');
        }
        t.finish_key();
    }
    e.push('}');
    let s = format!("{:?}", t);
    check(s == e, 80);
    reach(1);
}

/// More values than 16 bits count, and more keys.
#[no_mangle]
pub extern "C" fn h_p06_huge() {
    let x = int(0, 63);
    let n = 65534 + split(int(0, 3)) as usize;
    let mut t = RampTable::new();
    if split(int(0, 1)) == 0 {
        for i in 0..n {
            t.push_value(i as u8);
        }
        t.finish_key();
        t.push_value(x as u8);
        t.push_value(1);
        t.finish_key();
        t.push_value(2);
        check(t.finish_key() == 2, 90);
        check(t.len() == 3 && t.num_values() == n + 3, 91);
        check(t[0].len() == n && t[1] == [x as u8, 1] && t[2] == [2], 92);
        check(t.entry_values_range(0) == (0..n) && t.entry_values_range(1) == (n..n + 2), 93);
        check(t[0][n - 1] == (n - 1) as u8, 94);
        let mut p = t.iter_pairs();
        check(p.nth(n - 1) == Some((0, &((n - 1) as u8))) && p.next() == Some((1, &(x as u8))), 95);
    } else {
        for _ in 0..n {
            t.finish_key();
        }
        t.push_value(x as u8);
        check(t.finish_key() == n, 96);
        check(t.len() == n + 1 && t.num_values() == 1 && t[n] == [x as u8] && t[n - 1].len() == 0, 97);
        check(t.iter_pairs().next() == Some((n, &(x as u8))), 98);
    }
    reach(1);
}

list!(h_p06_huge, h_p06_long, h_p06_range, h_p06_ends, h_p06_text, h_p06_lookup, h_p06_iter);
