//! Where the errors of a dot text are said to be.
use crate::sym::*;
use dot_parser::lexer::Lexer;

const MC: usize = 24;

/// The number is at this place of the text; the place after it.
fn number(o: &[u8], mut at: usize, v: u16) -> usize {
    let mut p = if v >= 100 {
        100
    } else if v >= 10 {
        10
    } else {
        1
    };
    let mut v = v;
    while p > 0 {
        check(at < o.len() && o[at] as u16 == b'0' as u16 + v / p, 10);
        v %= p;
        p /= 10;
        at += 1;
    }
    at
}

/// The text up to `n`, its lexer driven to the end; the places and the number of the errors.
fn judge(c: &[char], n: usize, big: usize) {
    let mut s = String::with_capacity(1000);
    for i in 0..n {
        s.push(c[i]);
    }
    let mut l = Lexer::new(&s);
    for _ in 0..MC + 1 {
        let _ = l.next();
    }
    let mut line = [0u16; MC];
    let mut col = [0u16; MC];
    let mut m = 0i64;
    // the place of the character; the quote a string began at
    let (mut a, mut b) = (1, 1);
    let (mut quote, mut qa, mut qb) = (false, 0, 0);
    let mut escaped = false;
    for i in 0..n {
        let x = c[i];
        if !quote {
            if x == '$' || x == '\\' || x == '\u{e9}' || (big > 0 && i + big == n) {
                line[m as usize] = a;
                col[m as usize] = b;
                m += 1;
            } else if x == '"' {
                quote = true;
                qa = a;
                qb = b;
            }
        } else {
            if escaped {
                escaped = false;
            } else if x == '\\' {
                escaped = true;
            } else if x == '"' {
                quote = false;
            }
        }
        a = if x == '\n' { a + 1 } else { a };
        b = if x == '\n' { 1 } else { b + 1 };
    }
    if quote {
        line[m as usize] = qa;
        col[m as usize] = qb;
        m += 1;
    }
    let m = split(m) as usize;
    check(l.errors().len() == m && l.has_errors() == (m > 0), 1);
    let mut o = String::new();
    check(l.write_errors(&mut o).is_ok(), 2);
    // (line, column): message
    let o = o.as_bytes();
    let mut at = 0;
    for k in 0..m {
        check(at < o.len() && o[at] == b'(', 3);
        at = number(o, at + 1, line[k]);
        check(at + 1 < o.len() && o[at] == b',' && o[at + 1] == b' ', 4);
        at = number(o, at + 2, col[k]);
        check(
            at + 2 < o.len() && o[at] == b')' && o[at + 1] == b':' && o[at + 2] == b' ',
            5,
        );
        at += 3;
        let b = at;
        while at < o.len() && o[at] != b'\n' {
            at += 1;
        }
        check(at > b && at < o.len(), 6);
        at += 1;
    }
    check(at == o.len(), 7);
    observe(m as u64);
    if m == 0 {
        reach(1);
    } else if m == 1 {
        reach(2);
    } else {
        reach(3);
    }
}

fn pick(a: &[char]) -> char {
    a[int(0, a.len() as i64 - 1) as usize]
}

#[cfg(not(feature = "thorough"))]
const L: usize = 4;
#[cfg(feature = "thorough")]
const L: usize = 5;

#[no_mangle]
pub extern "C" fn h_p28_places() {
    let mut c = [' '; MC];
    let n = split(int(0, L as i64)) as usize;
    for k in 0..L {
        let x = pick(&['$', '"', '\n', ' ', 'a', '\\', ';']);
        c[k] = if k < n { x } else { ' ' };
    }
    judge(&c, n, 0);
}

/// A number that is too great, after other characters of one or more bytes.
#[no_mangle]
pub extern "C" fn h_p28_number() {
    let mut c = ['9'; MC];
    for k in 0..3 {
        let x = int(0, 3);
        c[k] = [';', '\n', '\u{2003}', '\u{e9}'][if k == 0 { split(x) } else { x } as usize];
    }
    judge(&c, MC - 1, MC - 4);
}

/// Behind many characters or lines.
#[no_mangle]
pub extern "C" fn h_p28_far() {
    const P: [usize; 7] = [1, 7, 8, 9, 98, 255, 300];
    let p = P[split(int(0, 6)) as usize];
    let f = [' ', '\n', '\u{2003}'][split(int(0, 2)) as usize];
    let mut c = [f; 302];
    c[p] = pick(&['$', '"', '\n', 'a']);
    c[p + 1] = pick(&['$', '"', '\n', 'a']);
    judge(&c, p + 2, 0);
}

/// Behind more characters or lines than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p28_huge() {
    let n = 65534 + split(int(0, 2)) as usize;
    let kind = split(int(0, 2)) as usize;
    let f = [' ', '\n', '\u{2003}'][kind];
    let x = pick(&['$', '"', '9']);
    let mut s = String::with_capacity(4 * n);
    for _ in 0..n {
        s.push(f);
    }
    s.push(x);
    s.push('8');
    s.push('$');
    let mut l = Lexer::new(&s);
    for _ in 0..4 {
        let _ = l.next();
    }
    let (a, b) = if kind == 1 { (n + 1, 1) } else { (1, n + 1) };
    let b = if x == '9' { b + 2 } else { b };
    let mut o = String::new();
    check(l.write_errors(&mut o).is_ok(), 20);
    let o = o.as_bytes();
    let mut at = 1;
    let mut num = |v: usize| {
        let mut p = if v >= 10000 { 10000 } else { 1 };
        while p > 0 {
            check(at < o.len() && o[at] as usize == b'0' as usize + v / p % 10, 21);
            at += 1;
            p /= 10;
        }
        at += 2;
    };
    num(a);
    num(b);
    check(o[0] == b'(' && o[at - 2] == b')' && o[at - 1] == b':', 22);
    reach(1);
}

list!(h_p28_huge, h_p28_far, h_p28_places, h_p28_number);
