//! Double Metaphone, without a limit: a limited code is the start of it.

struct W {
    v: Vec<char>,
    slavo: bool,
    germanic: bool,
    p: String,
    a: String,
}

fn vowel(c: char) -> bool {
    matches!(c, 'A' | 'E' | 'I' | 'O' | 'U' | 'Y')
}

impl W {
    /// The character at `i`, none before the start or after the end.
    fn at(&self, i: isize) -> char {
        if i >= 0 && (i as usize) < self.v.len() {
            self.v[i as usize]
        } else {
            '\0'
        }
    }
    fn n(&self) -> isize {
        self.v.len() as isize
    }
    fn has(&self, i: isize, t: &str) -> bool {
        let t = t.as_bytes();
        if i < 0 || i + t.len() as isize > self.n() {
            return false;
        }
        for k in 0..t.len() {
            if self.v[i as usize + k] != t[k] as char {
                return false;
            }
        }
        true
    }
    /// One of these texts is at `i`.
    fn any(&self, i: isize, t: &[&str]) -> bool {
        t.iter().any(|t| self.has(i, t))
    }
    fn one(&self, i: isize, set: &str) -> bool {
        let c = self.at(i);
        c != '\0' && (c as u32) < 128 && set.as_bytes().contains(&(c as u8))
    }
    fn both(&mut self, s: &str) {
        self.p.push_str(s);
        self.a.push_str(s);
    }
    fn two(&mut self, p: &str, a: &str) {
        self.p.push_str(p);
        self.a.push_str(a);
    }
}

pub fn code(s: &str) -> (String, String) {
    let v: Vec<char> = s.trim().to_uppercase().chars().collect();
    let mut w = W { v, slavo: false, germanic: false, p: String::new(), a: String::new() };
    let n = w.n();
    for i in 0..n {
        if w.one(i, "WK") || w.has(i, "CZ") {
            w.slavo = true;
        }
    }
    // WITZ has a W
    w.germanic = w.any(0, &["VAN ", "VON ", "SCH"]);
    let mut i = if w.any(0, &["GN", "KN", "PN", "WR", "PS"]) { 1 } else { 0 };
    while i < n {
        let c = w.at(i);
        i += 1 + sound(&mut w, c, i);
    }
    (w.p, w.a)
}

/// Puts out the sound of the letter at `i`, returns how many letters after it belong to it.
fn sound(w: &mut W, c: char, i: isize) -> isize {
    let n = w.n();
    let next = w.at(i + 1);
    // a doubled letter is one
    let twice = (next == c) as isize;
    match c {
        'A' | 'E' | 'I' | 'O' | 'U' | 'Y' => {
            if i == 0 {
                w.both("A");
            }
            0
        }
        'B' => {
            w.both("P");
            twice
        }
        'Ç' => {
            w.both("S");
            0
        }
        'Ñ' => {
            w.both("N");
            0
        }
        'F' | 'K' | 'N' => {
            let c = c.to_string();
            w.both(&c);
            twice
        }
        'Q' => {
            w.both("K");
            twice
        }
        'V' => {
            w.both("F");
            twice
        }
        'C' => letter_c(w, i, next),
        'D' => {
            if next == 'G' {
                if w.one(i + 2, "IEY") {
                    w.both("J");
                    2
                } else {
                    w.both("TK");
                    1
                }
            } else {
                w.both("T");
                (next == 'T' || next == 'D') as isize
            }
        }
        'G' => letter_g(w, i, next),
        'H' => {
            if (i == 0 || vowel(w.at(i - 1))) && vowel(next) {
                w.both("H");
                1
            } else {
                0
            }
        }
        'J' => {
            let san = w.has(0, "SAN ");
            if san || w.has(i, "JOSE") {
                if san || n == 4 || (i == 0 && w.at(4) == ' ') {
                    w.both("H");
                } else {
                    w.two("J", "H");
                }
                return 0;
            }
            if i == 0 {
                w.two("J", "A");
            } else if vowel(w.at(i - 1)) && !w.slavo && (next == 'A' || next == 'O') {
                w.two("J", "H");
            } else if i == n - 1 {
                w.two("J", " ");
            } else if !w.one(i + 1, "LTKSNMBZ") && !w.one(i - 1, "SKL") {
                w.both("J");
            }
            twice
        }
        'L' => {
            if next == 'L' {
                let spanish = (i == n - 3 && w.any(i - 1, &["ILLO", "ILLA", "ALLE"]))
                    || ((w.any(n - 2, &["AS", "OS"]) || w.one(n - 1, "AO")) && w.has(i - 1, "ALLE"));
                w.two("L", if spanish { "" } else { "L" });
                1
            } else {
                w.both("L");
                0
            }
        }
        'M' => {
            w.both("M");
            let umb = w.has(i - 1, "UMB") && (i + 1 == n - 1 || w.has(i + 2, "ER"));
            (umb || next == 'M') as isize
        }
        'P' => {
            if next == 'H' {
                w.both("F");
                1
            } else {
                w.both("P");
                (next == 'P' || next == 'B') as isize
            }
        }
        'R' => {
            let french = i == n - 1 && !w.slavo && w.has(i - 2, "IE") && !w.any(i - 4, &["ME", "MA"]);
            w.two(if french { "" } else { "R" }, "R");
            twice
        }
        'S' => letter_s(w, i, next),
        'T' => {
            if w.any(i, &["TION", "TIA", "TCH"]) {
                w.both("X");
                2
            } else if next == 'H' || w.has(i, "TTH") {
                if w.any(i + 2, &["OM", "AM"]) || w.germanic {
                    w.both("T");
                } else {
                    w.two("0", "T");
                }
                1
            } else {
                w.both("T");
                (next == 'T' || next == 'D') as isize
            }
        }
        'W' => {
            if next == 'R' {
                w.both("R");
                1
            } else if i == 0 && vowel(next) {
                w.two("A", "F");
                0
            } else if i == 0 && next == 'H' {
                w.both("A");
                0
            } else if (i == n - 1 && i > 0 && vowel(w.at(i - 1))) || w.any(i - 1, &["EWSKI", "EWSKY", "OWSKI", "OWSKY"]) || w.has(0, "SCH") {
                w.two("", "F");
                0
            } else if w.any(i, &["WICZ", "WITZ"]) {
                w.two("TS", "FX");
                3
            } else {
                0
            }
        }
        'X' => {
            if i == 0 {
                w.both("S");
                return 0;
            }
            let silent = i == n - 1 && (w.any(i - 3, &["IAU", "EAU"]) || w.any(i - 2, &["AU", "OU"]));
            if !silent {
                w.both("KS");
            }
            (next == 'C' || next == 'X') as isize
        }
        'Z' => {
            if next == 'H' {
                w.both("J");
                return 1;
            }
            let slav = w.slavo && i > 0 && w.at(i - 1) != 'T';
            w.two("S", if slav || w.any(i + 1, &["ZO", "ZI", "ZA"]) { "TS" } else { "S" });
            twice
        }
        _ => 0,
    }
}

fn letter_c(w: &mut W, i: isize, next: char) -> isize {
    let n = w.n();
    // various germanic
    let ach = i > 1
        && !vowel(w.at(i - 2))
        && w.has(i - 1, "ACH")
        && (!w.one(i + 2, "IE") || w.any(i - 2, &["BACHER", "MACHER"]));
    if w.has(i, "CHIA") || ach {
        w.both("K");
        return 1;
    }
    if i == 0 && w.has(0, "CAESAR") {
        w.both("S");
        return 1;
    }
    if next == 'H' {
        let greek = i == 0 && w.any(1, &["HARAC", "HARIS", "HOR", "HYM", "HIA", "HEM"]) && !w.has(0, "CHORE");
        let kh = w.germanic
            || w.any(i - 2, &["ORCHES", "ARCHIT", "ORCHID"])
            || w.one(i + 2, "TS")
            || ((i == 0 || w.one(i - 1, "AOUE")) && (w.one(i + 2, "LRNMBHFVW ") || i + 1 == n - 1));
        if i > 0 && w.has(i, "CHAE") {
            w.two("K", "X");
        } else if greek || kh {
            w.both("K");
        } else if i == 0 {
            w.both("X");
        } else if w.has(0, "MC") {
            w.both("K");
        } else {
            w.two("X", "K");
        }
        return 1;
    }
    if next == 'Z' && !w.has(i - 2, "WICZ") {
        w.two("S", "X");
        return 1;
    }
    if w.has(i + 1, "CIA") {
        w.both("X");
        return 2;
    }
    if next == 'C' && !(i == 1 && w.at(0) == 'M') {
        if w.one(i + 2, "IEH") && !w.has(i + 2, "HU") {
            if (i == 1 && w.at(0) == 'A') || w.any(i - 1, &["UCCEE", "UCCES"]) {
                w.both("KS");
            } else {
                w.both("X");
            }
            return 2;
        }
        w.both("K");
        return 1;
    }
    if matches!(next, 'K' | 'G' | 'Q') {
        w.both("K");
        return 1;
    }
    if matches!(next, 'I' | 'E' | 'Y') {
        let italian = next == 'I' && w.one(i + 2, "OEA");
        w.two("S", if italian { "X" } else { "S" });
        return 1;
    }
    w.both("K");
    if next == ' ' && w.one(i + 2, "CQG") {
        2
    } else if next == 'C' && !w.one(i + 2, "EI") {
        1
    } else {
        0
    }
}

fn letter_g(w: &mut W, i: isize, next: char) -> isize {
    let prev = w.at(i - 1);
    if next == 'H' {
        if i == 0 {
            w.both(if w.at(2) == 'I' { "J" } else { "K" });
        } else if !vowel(prev) {
            w.both("K");
        } else if w.one(i - 2, "BHD") || w.one(i - 3, "BHD") || w.one(i - 4, "BH") {
            // Parker's rule: silent
        } else if prev == 'U' && w.one(i - 3, "CGLRT") {
            w.both("F");
        } else if prev != 'I' {
            w.both("K");
        }
        return 1;
    }
    if next == 'N' {
        if w.slavo {
            w.both("KN");
        } else if i == 1 && vowel(w.at(0)) {
            w.two("KN", "N");
        } else if !w.has(i + 2, "EY") {
            w.two("N", "KN");
        } else {
            w.both("KN");
        }
        return 1;
    }
    if w.has(i + 1, "LI") && !w.slavo {
        w.two("KL", "L");
        return 1;
    }
    let start = i == 0 && (next == 'Y' || w.any(1, &["ES", "EP", "EB", "EL", "EY", "IB", "IL", "IN", "IE", "EI", "ER"]));
    let ger = (next == 'Y' || w.has(i + 1, "ER"))
        && !w.any(0, &["DANGER", "RANGER", "MANGER"])
        && prev != 'E'
        && prev != 'I'
        && !w.any(i - 1, &["RGY", "OGY"]);
    if start || ger {
        w.two("K", "J");
        return 1;
    }
    if matches!(next, 'E' | 'I' | 'Y') || w.any(i - 1, &["AGGI", "OGGI"]) {
        if w.germanic || w.has(i + 1, "ET") {
            w.both("K");
        } else if w.has(i + 1, "IER") {
            w.both("J");
        } else {
            w.two("J", "K");
        }
        return 1;
    }
    w.both("K");
    (next == 'G') as isize
}

fn letter_s(w: &mut W, i: isize, next: char) -> isize {
    let n = w.n();
    if w.any(i - 1, &["ISL", "YSL"]) {
        return 0;
    }
    if i == 0 && w.has(0, "SUGAR") {
        w.two("X", "S");
        return 0;
    }
    if next == 'H' {
        let germanic = w.any(i + 1, &["HEIM", "HOEK", "HOLM", "HOLZ"]);
        w.both(if germanic { "S" } else { "X" });
        return 1;
    }
    if w.any(i, &["SIO", "SIA"]) {
        w.two("S", if w.slavo { "S" } else { "X" });
        return 2;
    }
    if next == 'Z' {
        w.two("S", "X");
        return 1;
    }
    if i == 0 && matches!(next, 'M' | 'N' | 'L' | 'W') {
        w.two("S", "X");
        return 0;
    }
    if next == 'C' {
        if w.at(i + 2) == 'H' {
            if w.any(i + 3, &["ER", "EN"]) {
                w.two("X", "SK");
            } else if w.any(i + 3, &["OO", "UY", "ED", "EM"]) {
                w.both("SK");
            } else if i == 0 && !vowel(w.at(3)) && w.at(3) != 'W' {
                w.two("X", "S");
            } else {
                w.both("X");
            }
        } else if w.one(i + 2, "IEY") {
            w.both("S");
        } else {
            w.both("SK");
        }
        return 2;
    }
    let french = i == n - 1 && w.any(i - 2, &["AI", "OI"]);
    w.two(if french { "" } else { "S" }, "S");
    (next == 'S') as isize
}
