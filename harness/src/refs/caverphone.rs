//! Caverphone 1 and 2: their published lists of steps, in order.

#[derive(Clone, Copy)]
pub enum Step {
    /// Everywhere.
    All(&'static str, &'static str),
    /// At the start.
    Start(&'static str, &'static str),
    /// At the end.
    End(&'static str, &'static str),
    /// A vowel at the start is A, the other vowels are 3.
    Vowels,
    /// A run of the same letter of these is one capital.
    Runs(&'static str),
}
use Step::*;

pub const ONE: &[Step] = &[
    Start("cough", "cou2f"),
    Start("rough", "rou2f"),
    Start("tough", "tou2f"),
    Start("enough", "enou2f"),
    Start("gn", "2n"),
    End("mb", "m2"),
    All("cq", "2q"),
    All("ci", "si"),
    All("ce", "se"),
    All("cy", "sy"),
    All("tch", "2ch"),
    All("c", "k"),
    All("q", "k"),
    All("x", "k"),
    All("v", "f"),
    All("dg", "2g"),
    All("tio", "sio"),
    All("tia", "sia"),
    All("d", "t"),
    All("ph", "fh"),
    All("b", "p"),
    All("sh", "s2"),
    All("z", "s"),
    Vowels,
    All("3gh3", "3kh3"),
    All("gh", "22"),
    All("g", "k"),
    Runs("stpkfmn"),
    All("w3", "W3"),
    All("wy", "Wy"),
    All("wh3", "Wh3"),
    All("why", "Why"),
    All("w", "2"),
    Start("h", "A"),
    All("h", "2"),
    All("r3", "R3"),
    All("ry", "Ry"),
    All("r", "2"),
    All("l3", "L3"),
    All("ly", "Ly"),
    All("l", "2"),
    All("j", "y"),
    All("y3", "Y3"),
    All("y", "2"),
    All("2", ""),
    All("3", ""),
];

pub const TWO: &[Step] = &[
    End("e", ""),
    Start("cough", "cou2f"),
    Start("rough", "rou2f"),
    Start("tough", "tou2f"),
    Start("enough", "enou2f"),
    Start("trough", "trou2f"),
    Start("gn", "2n"),
    End("mb", "m2"),
    All("cq", "2q"),
    All("ci", "si"),
    All("ce", "se"),
    All("cy", "sy"),
    All("tch", "2ch"),
    All("c", "k"),
    All("q", "k"),
    All("x", "k"),
    All("v", "f"),
    All("dg", "2g"),
    All("tio", "sio"),
    All("tia", "sia"),
    All("d", "t"),
    All("ph", "fh"),
    All("b", "p"),
    All("sh", "s2"),
    All("z", "s"),
    Vowels,
    All("j", "y"),
    Start("y3", "Y3"),
    Start("y", "A"),
    All("y", "3"),
    All("3gh3", "3kh3"),
    All("gh", "22"),
    All("g", "k"),
    Runs("stpkfmn"),
    All("w3", "W3"),
    All("wh3", "Wh3"),
    End("w", "3"),
    All("w", "2"),
    Start("h", "A"),
    All("h", "2"),
    All("r3", "R3"),
    End("r", "3"),
    All("r", "2"),
    All("l3", "L3"),
    End("l", "3"),
    All("l", "2"),
    All("2", ""),
    End("3", "A"),
    All("3", ""),
];

fn here(t: &[u8], i: usize, p: &[u8]) -> bool {
    if i + p.len() > t.len() {
        return false;
    }
    for j in 0..p.len() {
        if t[i + j] != p[j] {
            return false;
        }
    }
    true
}

fn vowel(c: u8) -> bool {
    c == b'a' || c == b'e' || c == b'i' || c == b'o' || c == b'u'
}

fn step(t: Vec<u8>, s: Step) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len() + 8);
    let mut i = 0;
    match s {
        All(p, r) => {
            while i < t.len() {
                if here(&t, i, p.as_bytes()) {
                    o.extend_from_slice(r.as_bytes());
                    i += p.len();
                } else {
                    o.push(t[i]);
                    i += 1;
                }
            }
        }
        Start(p, r) => {
            if here(&t, 0, p.as_bytes()) {
                o.extend_from_slice(r.as_bytes());
                i = p.len();
            }
            o.extend_from_slice(&t[i..]);
        }
        End(p, r) => {
            if t.len() >= p.len() && here(&t, t.len() - p.len(), p.as_bytes()) {
                o.extend_from_slice(&t[..t.len() - p.len()]);
                o.extend_from_slice(r.as_bytes());
            } else {
                return t;
            }
        }
        Vowels => {
            for c in t {
                let f = o.is_empty();
                o.push(if !vowel(c) {
                    c
                } else if f {
                    b'A'
                } else {
                    b'3'
                });
            }
        }
        Runs(l) => {
            for i in 0..t.len() {
                if !l.as_bytes().contains(&t[i]) {
                    o.push(t[i]);
                } else if i == 0 || t[i - 1] != t[i] {
                    o.push(t[i] - 32);
                }
            }
        }
    }
    o
}

fn code(steps: &[Step], n: usize, s: &str) -> String {
    let mut t: Vec<u8> = Vec::new();
    for c in s.to_lowercase().chars() {
        if c >= 'a' && c <= 'z' {
            t.push(c as u8);
        }
    }
    for s in steps {
        t = step(t, *s);
    }
    t.resize(n.max(t.len()), b'1');
    t.truncate(n);
    String::from_utf8(t).unwrap_or_default()
}

pub fn one(s: &str) -> String {
    code(ONE, 6, s)
}
pub fn two(s: &str) -> String {
    code(TWO, 10, s)
}
