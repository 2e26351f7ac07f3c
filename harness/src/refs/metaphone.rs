//! Metaphone.

fn vowel(c: char) -> bool {
    matches!(c, 'A' | 'E' | 'I' | 'O' | 'U')
}
fn front(c: char) -> bool {
    matches!(c, 'E' | 'I' | 'Y')
}

pub fn metaphone(s: &[char], max: Option<usize>) -> String {
    let up: Vec<char> = s.iter().flat_map(|c| c.to_uppercase()).collect();
    if s.len() == 1 {
        return up.into_iter().collect();
    }
    let at = |v: &[char], i: usize| if i < v.len() { v[i] } else { ' ' };
    // the start: KN, GN, PN, AE and WR lose their first letter, X sounds like S, WH like W
    let mut w = up;
    match (at(&w, 0), at(&w, 1)) {
        ('K' | 'G' | 'P', 'N') | ('A', 'E') | ('W', 'R') => {
            w.remove(0);
        }
        ('W', 'H') => {
            w.remove(1);
        }
        ('X', _) => w[0] = 'S',
        _ => (),
    }
    let n = w.len();
    let has = |i: usize, p: &str| p.chars().enumerate().all(|(k, c)| i + k < n && w[i + k] == c);
    let mut out = String::new();
    let mut i = 0;
    while i < n && max != Some(out.len()) {
        let c = w[i];
        let prev = if i > 0 { w[i - 1] } else { ' ' };
        let next = if i + 1 < n { w[i + 1] } else { ' ' };
        let next2 = if i + 2 < n { w[i + 2] } else { ' ' };
        i += 1;
        if i > 1 && c == prev && c != 'C' {
            continue;
        }
        match c {
            'A' | 'E' | 'I' | 'O' | 'U' => {
                if i == 1 {
                    out.push(c)
                }
            }
            'B' => {
                // silent in a final MB
                if !(prev == 'M' && i == n) {
                    out.push('B')
                }
            }
            'C' => {
                if front(next) && prev == 'S' {
                } else if next == 'I' && next2 == 'A' {
                    out.push('X')
                } else if front(next) {
                    out.push('S')
                } else if next == 'H' {
                    let hard = prev == 'S' || (i == 1 && vowel(next2));
                    out.push(if hard { 'K' } else { 'X' })
                } else {
                    out.push('K')
                }
            }
            'D' => {
                if next == 'G' && front(next2) {
                    out.push('J');
                    i += 2;
                } else {
                    out.push('T')
                }
            }
            'G' => {
                let silent_gh = next == 'H' && !vowel(next2);
                let silent_gn = i > 1 && next == 'N';
                if silent_gh || silent_gn {
                } else if front(next) {
                    out.push('J')
                } else {
                    out.push('K')
                }
            }
            'H' => {
                if vowel(next) && !matches!(prev, 'C' | 'S' | 'P' | 'T' | 'G') {
                    out.push('H')
                }
            }
            'F' | 'J' | 'L' | 'M' | 'N' | 'R' => out.push(c),
            'K' => {
                if prev != 'C' {
                    out.push('K')
                }
            }
            'P' => out.push(if next == 'H' { 'F' } else { 'P' }),
            'Q' => out.push('K'),
            'S' => {
                let i = i - 1;
                out.push(if has(i, "SH") || has(i, "SIO") || has(i, "SIA") { 'X' } else { 'S' })
            }
            'T' => {
                let i = i - 1;
                if has(i, "TIA") || has(i, "TIO") {
                    out.push('X')
                } else if has(i, "TCH") {
                } else if has(i, "TH") {
                    out.push('0')
                } else {
                    out.push('T')
                }
            }
            'V' => out.push('F'),
            'W' | 'Y' => {
                if vowel(next) {
                    out.push(c)
                }
            }
            'X' => out.push_str("KS"),
            'Z' => out.push('S'),
            _ => (),
        }
        if let Some(m) = max {
            if out.len() > m {
                out.truncate(m)
            }
        }
    }
    out
}
