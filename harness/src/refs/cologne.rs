//! Kölner Phonetik.

fn is(c: char, set: &str) -> bool {
    set.contains(c)
}

/// The letters of the name in upper case, the umlauts as their vowel. Other characters stay: they
/// have no code but keep the letters around them apart.
pub fn cologne(s: &str) -> String {
    let t: Vec<char> = s
        .to_uppercase()
        .chars()
        .map(|c| match c {
            'Ä' => 'A',
            'Ö' => 'O',
            'Ü' => 'U',
            c => c,
        })
        .collect();
    let mut out = String::new();
    // the digit of the previous letter, `-` for H, `/` at the start
    let mut last = '/';
    // the previous letter
    let mut prev = '-';
    for i in 0..t.len() {
        let c = t[i];
        let next = if i + 1 < t.len() { t[i + 1] } else { '-' };
        if c < 'A' || c > 'Z' {
            continue;
        }
        let (d, e) = match c {
            'A' | 'E' | 'I' | 'J' | 'O' | 'U' | 'Y' => ('0', ' '),
            'H' => ('-', ' '),
            'B' => ('1', ' '),
            'P' => (if next == 'H' { '3' } else { '1' }, ' '),
            'D' | 'T' => (if is(next, "CSZ") { '8' } else { '2' }, ' '),
            'F' | 'V' | 'W' => ('3', ' '),
            'G' | 'K' | 'Q' => ('4', ' '),
            'X' => {
                if is(prev, "CKQ") {
                    ('8', ' ')
                } else {
                    ('4', '8')
                }
            }
            'L' => ('5', ' '),
            'M' | 'N' => ('6', ' '),
            'R' => ('7', ' '),
            'S' | 'Z' => ('8', ' '),
            _ => {
                // C, at the start of the code or not
                let hard = if out.is_empty() { is(next, "AHKLOQRUX") } else { !is(prev, "SZ") && is(next, "AHKOQUX") };
                (if hard { '4' } else { '8' }, ' ')
            }
        };
        for d in [d, e] {
            if d == ' ' {
                continue;
            }
            if d != '-' && d != last && (d != '0' || out.is_empty()) {
                out.push(d);
            }
            last = d;
        }
        prev = c;
    }
    out
}
