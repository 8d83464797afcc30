//! Tokens of a dot text.
use crate::sym::*;
use dot_parser::lexer::{Lexer, Token};

const MC: usize = 340;
const MB: usize = 1000;

/// A text of characters picked by unknown numbers.
struct Text {
    n: usize,
    c: [char; MC],
}
impl Text {
    fn new() -> Text {
        Text { n: 0, c: [' '; MC] }
    }
    fn push(&mut self, c: char) {
        self.c[self.n] = c;
        self.n += 1;
    }
    fn text(&self) -> String {
        let mut s = String::with_capacity(MB);
        for i in 0..self.n {
            s.push(self.c[i]);
        }
        s
    }
    fn get(&self, i: usize) -> char {
        if i < self.n {
            self.c[i]
        } else {
            '\0'
        }
    }
}

fn starts_ident(c: char) -> bool {
    (c >= 'a') & (c <= 'z') | (c >= 'A') & (c <= 'Z') | (c == '_')
}
fn digit(c: char) -> bool {
    (c >= '0') & (c <= '9')
}
fn space(c: char) -> bool {
    (c >= '\u{9}') & (c <= '\u{d}') | (c == ' ') | (c == '\u{85}') | (c == '\u{a0}') | (c == '\u{1680}') | (c >= '\u{2000}') & (c <= '\u{200a}') | (c == '\u{2028}') | (c == '\u{2029}') | (c == '\u{202f}') | (c == '\u{205f}') | (c == '\u{3000}')
}
fn same(s: &str, e: &[char], n: usize) -> bool {
    let mut i = 0;
    let mut ok = true;
    for c in s.chars() {
        ok &= i < n && c == e[i];
        i += 1;
    }
    ok & (i == n)
}

/// The tokens of the text, one by one.
fn judge(t: &Text) {
    let s = t.text();
    let mut l = Lexer::new(&s);
    let mut i = 0;
    // one more than there can be
    for _ in 0..t.n + 1 {
        while i < t.n && space(t.c[i]) {
            i += 1;
        }
        let tok = l.next();
        let c = t.get(i);
        let single = match c {
            '=' => Some(Token::Equals),
            '{' => Some(Token::LCurly),
            '}' => Some(Token::RCurly),
            '[' => Some(Token::LSquare),
            ']' => Some(Token::RSquare),
            ',' => Some(Token::Comma),
            ';' => Some(Token::Semicolon),
            _ => None,
        };
        if i >= t.n {
            check(tok.is_none() && !l.has_errors() && l.errors().len() == 0, 1);
            reach(1);
            observe(1);
            return;
        } else if single.is_some() {
            check(tok == single, 2);
            i += 1;
        } else if c == '-' && t.get(i + 1) == '>' {
            check(tok == Some(Token::Arrow), 3);
            i += 2;
        } else if starts_ident(c) {
            let b = i;
            while i < t.n && (starts_ident(t.c[i]) || digit(t.c[i])) {
                i += 1;
            }
            match tok {
                Some(Token::Ident(x)) => check(same(&x, &t.c[b..], i - b), 4),
                _ => check(false, 5),
            }
        } else if digit(c) {
            let mut v: i64 = 0;
            let mut dots = 0;
            let mut scale = 1i64;
            let mut over = false;
            loop {
                let c = t.get(i);
                if digit(c) {
                    let d = c as i64 - '0' as i64;
                    over |= v > (i64::MAX - d) / 10;
                    v = if over { 0 } else { v * 10 + d };
                    if dots > 0 {
                        scale *= 10;
                    }
                    i += 1;
                } else if c == '.' && digit(t.get(i + 1)) {
                    dots += 1;
                    i += 1;
                } else {
                    break;
                }
            }
            if dots > 1 || (dots == 0 && over) {
                check(tok.is_none() && l.errors().len() == 1, 6);
                reach(2);
                observe(2);
                return;
            }
            match tok {
                Some(Token::Integer(x)) => check(dots == 0 && x == v, 7),
                Some(Token::Float(x)) => check(dots == 1 && x == v as f64 / scale as f64, 8),
                _ => check(false, 9),
            }
        } else if c == '"' {
            let mut e = ['\0'; MC];
            let mut n = 0;
            let mut end = false;
            i += 1;
            while i < t.n && !end {
                let c = t.c[i];
                i += 1;
                if c == '"' {
                    end = true;
                } else if c == '\\' {
                    if i < t.n {
                        let d = t.c[i];
                        i += 1;
                        match d {
                            'n' => e[n] = '\n',
                            't' => e[n] = '\t',
                            'r' => e[n] = '\r',
                            d => {
                                e[n] = '\\';
                                n += 1;
                                e[n] = d;
                            }
                        }
                        n += 1;
                    }
                } else {
                    e[n] = c;
                    n += 1;
                }
            }
            if !end {
                check(tok.is_none() && l.errors().len() == 1, 10);
                reach(3);
                observe(3);
                return;
            }
            match tok {
                Some(Token::String(x)) => check(same(&x, &e, n), 11),
                _ => check(false, 12),
            }
        } else {
            // no token starts here
            check(tok.is_none() && l.has_errors() && l.errors().len() == 1, 13);
            reach(4);
            observe(4);
            return;
        }
    }
    check(false, 14);
}

fn pick(a: &[char]) -> char {
    a[int(0, a.len() as i64 - 1) as usize]
}

/// Of up to N characters out of the alphabet, after the given beginning.
fn text<const N: usize>(begin: &str, a: &[char]) -> Text {
    let mut t = Text::new();
    for c in begin.chars() {
        t.push(c);
    }
    let n = split(int(0, N as i64)) as usize;
    for k in 0..N {
        let c = pick(a);
        if k < n {
            t.push(c);
        }
    }
    t
}

#[cfg(not(feature = "thorough"))]
const L: usize = 4;
#[cfg(feature = "thorough")]
const L: usize = 5;

#[no_mangle]
pub extern "C" fn h_p23_marks() {
    judge(&text::<L>("", &['=', '{', '}', '[', ']', ',', ';', '-', '>', ' ', '\t', '\r', '\n', '%', '\\', 'a', '0']));
}
#[no_mangle]
pub extern "C" fn h_p23_idents() {
    judge(&text::<4>("", &['a', 'z', 'A', 'Z', '_', '0', '9', '-', ' ', '@', '[', '`', '{', '/', ':', '>']));
}
#[no_mangle]
pub extern "C" fn h_p23_strings() {
    judge(&text::<{ L + 1 }>("\"", &['"', '\\', 'n', 't', 'r', 'x', ' ', '\n', '\t']));
}
/// Digits, points and others at every place.
#[no_mangle]
pub extern "C" fn h_p23_numbers() {
    let mut t = Text::new();
    let n = split(int(1, N)) as usize;
    for k in 0..N as usize {
        let a = split(int(0, 2));
        let d = int(0, 2);
        if k < n {
            t.push(match a {
                0 => ['0', '1', '9'][d as usize],
                1 => '.',
                _ => [' ', 'a', '-'][d as usize],
            });
        }
    }
    judge(&t);
}
const N: i64 = 5;
/// Around the greatest number.
#[no_mangle]
pub extern "C" fn h_p23_big() {
    judge(&text::<3>("92233720368547758", &['0', '6', '7', '8', '9', ' ']));
}
/// Characters of more than one byte.
#[no_mangle]
pub extern "C" fn h_p23_wide() {
    let mut t = Text::new();
    for _ in 0..3 {
        match split(int(0, 5)) {
            0 => t.push('"'),
            1 => t.push('\u{e9}'),
            2 => t.push('\u{2003}'),
            3 => t.push('\u{1f600}'),
            4 => t.push('\\'),
            _ => t.push('a'),
        }
    }
    t.push('"');
    judge(&t);
}

/// White space, letters and digits of other scripts.
#[no_mangle]
pub extern "C" fn h_p23_scripts() {
    const A: [char; 32] = [
        '\u{0}', '\u{8}', '\u{9}', '\u{b}', '\u{c}', '\u{e}', '\u{1f}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{ad}', '\u{e9}', '\u{130}', '\u{17f}', '\u{37e}', '\u{663}', '\u{1680}', '\u{180e}', '\u{1fff}', '\u{2000}', '\u{200a}', '\u{200b}', '\u{2028}', '\u{2029}', '\u{202f}',
        '\u{205f}', '\u{2060}', '\u{3000}', '\u{feff}', '\u{ff11}', '\u{1d7d8}',
    ];
    let mut t = Text::new();
    match split(int(0, 3)) {
        0 => {}
        1 => t.push('a'),
        2 => t.push('7'),
        _ => t.push('='),
    }
    t.push(A[split(int(0, 31)) as usize]);
    match split(int(0, 3)) {
        0 => {}
        1 => t.push('b'),
        2 => t.push('8'),
        _ => t.push(A[split(int(0, 31)) as usize]),
    }
    judge(&t);
}

/// Long tokens and texts with an unknown character inside and behind.
#[no_mangle]
pub extern "C" fn h_p23_long() {
    let n = [17usize, 64, 130, 300][split(int(0, 3)) as usize];
    let kind = split(int(0, 6));
    let at = [0, 1, n / 2, n - 1][split(int(0, 3)) as usize];
    let (mut x, mut y) = (int(0, 7) as usize, int(0, 7) as usize);
    if kind == 4 {
        // a fraction of few digits behind many noughts
        assume(n == 17 && at > 1);
        x = split(x as i64) as usize;
        y = split(y as i64) as usize;
    }
    let mut t = Text::new();
    let odd: [char; 8] = match kind {
        0 => ['a', 'Z', '_', '0', '-', ' ', '\u{e9}', '='],
        1 | 2 => ['"', '\\', 'n', '\u{e9}', '\u{1f600}', '\n', 'x', ' '],
        3 => ['0', '1', '9', ',', ' ', 'e', '-', '_'],
        4 => ['0', '1', '9', '.', ' ', 'e', '-', '_'],
        _ => ['a', '0', ';', ' ', '"', '\u{2003}', '%', '-'],
    };
    if kind == 1 || kind == 2 {
        t.push('"');
    }
    for k in 0..n {
        if k == at {
            t.push(odd[x]);
        } else {
            t.push(match kind {
                0 => ['q', 'R', '_', '5'][if k == 0 { 0 } else { k % 4 }],
                1 => 's',
                2 => ['\\', 'n'][k % 2],
                3 => '0',
                4 => if k == 1 { '.' } else { '0' },
                5 => ['a', ';', '1', ','][k % 4],
                _ => [' ', '\n', '\t', '\r'][k % 4],
            });
        }
    }
    t.push(odd[y]);
    if kind == 1 || kind == 2 {
        t.push('"');
    } else {
        t.push('b');
    }
    judge(&t);
}

/// Tokens and white space of more characters than 16 bits count.
#[no_mangle]
pub extern "C" fn h_p23_huge() {
    let n = 65534 + split(int(0, 3)) as usize;
    let kind = split(int(0, 2));
    let y = ['a', '_', '7', '=', ' ', '-'][int(0, 5) as usize];
    let mut s = String::with_capacity(2 * n);
    if kind == 1 {
        s.push('"');
    }
    for _ in 0..n {
        s.push([' ', 's', 'k'][kind as usize]);
    }
    s.push(y);
    if kind == 1 {
        s.push('"');
    }
    s.push(';');
    let mut l = Lexer::new(&s);
    match kind {
        1 => match l.next() {
            Some(Token::String(x)) => check(x.len() == n + 1 && x.as_bytes()[n] == y as u8 && x.as_bytes()[n - 1] == b's', 60),
            _ => check(false, 61),
        },
        2 => match l.next() {
            Some(Token::Ident(x)) => {
                let more = y == 'a' || y == '_' || y == '7';
                check(x.len() == if more { n + 1 } else { n } && x.as_bytes()[n - 1] == b'k', 62);
                check(!more || x.as_bytes()[n] == y as u8, 63);
            }
            _ => check(false, 64),
        },
        _ => {}
    }
    if kind == 0 && (y == 'a' || y == '_' || y == '7') {
        let t = l.next();
        check(if y == '7' { t == Some(Token::Integer(7)) } else { matches!(t, Some(Token::Ident(_))) }, 65);
    }
    if kind != 1 && y == '=' {
        check(l.next() == Some(Token::Equals), 66);
    }
    if kind != 1 && y == '-' {
        check(l.next().is_none() && l.errors().len() == 1, 67);
    } else {
        check(l.next() == Some(Token::Semicolon), 68);
        check(l.next().is_none() && !l.has_errors(), 69);
    }
    reach(1);
}

list!(h_p23_huge, h_p23_marks, h_p23_idents, h_p23_strings, h_p23_numbers, h_p23_big, h_p23_wide, h_p23_scripts, h_p23_long);
