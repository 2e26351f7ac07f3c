//! Phonex.
use super::soundex::letters;

fn vowel(c: char) -> bool {
    matches!(c, 'A' | 'E' | 'I' | 'O' | 'U' | 'Y')
}

pub fn phonex(s: &[char], max: usize) -> String {
    let mut v = letters(s);
    while v.last() == Some(&'S') {
        v.pop();
    }
    if v.len() >= 2 {
        v[0] = match (v[0], v[1]) {
            ('K', 'N') => 'N',
            ('P', 'H') => 'F',
            ('W', 'R') => 'R',
            (c, _) => c,
        };
    }
    if v.first() == Some(&'H') {
        v.remove(0);
    }
    if let Some(c) = v.first_mut() {
        *c = match *c {
            'E' | 'I' | 'O' | 'U' | 'Y' => 'A',
            'P' => 'B',
            'V' => 'F',
            'K' | 'Q' => 'C',
            'J' => 'G',
            'Z' => 'S',
            c => c,
        };
    }
    let mut out: Vec<char> = vec![];
    // `code`: the digit of this letter, or of the one before when this one has none.
    // `last`: what it is compared with, the last symbol put out (after the first letter, its digit).
    let (mut code, mut last) = ('0', '0');
    let mut i = 0;
    while i < v.len() && out.len() < max {
        let first = i == 0;
        if first {
            out.push(v[0]);
        }
        let next = if i + 1 < v.len() { v[i + 1] } else { ' ' };
        let end = i + 1 == v.len();
        let mut pair = false;
        match v[i] {
            'B' | 'P' | 'F' | 'V' => code = '1',
            'C' | 'S' | 'K' | 'G' | 'J' | 'Q' | 'X' | 'Z' => code = '2',
            'D' | 'T' => {
                if next != 'C' {
                    code = '3'
                }
            }
            'L' => {
                if end || vowel(next) {
                    code = '4'
                }
            }
            'M' | 'N' => {
                code = '5';
                pair = next == 'D' || next == 'G';
            }
            'R' => {
                if end || vowel(next) {
                    code = '6'
                }
            }
            _ => code = '0',
        }
        if pair {
            i += 1;
        }
        // only a first letter alone is not followed by its own digit
        if i > 0 && code != '0' && code != last && out.len() < max {
            out.push(code);
        }
        last = if i == 0 { code } else { out[out.len() - 1] };
        i += 1;
    }
    while out.len() < max {
        out.push('0');
    }
    out.into_iter().collect()
}
