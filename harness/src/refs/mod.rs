//! Reference models, written from the description of the algorithms.
pub mod bm;
pub mod caverphone;
pub mod cologne;
pub mod daitch;
pub mod dmetaphone;
pub mod metaphone;
pub mod mra;
pub mod nysiis;
pub mod phonex;
pub mod rx;
pub mod soundex;

#[cfg(feature = "native")]
pub fn by_key(k: &str, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let t = |t: &str| t.chars().collect::<Vec<char>>();
    match k {
        "sx" => soundex::soundex(&t(soundex::DEFAULT), true, &c),
        "sg" => soundex::soundex(&t(soundex::GENEALOGY), false, &c),
        "rs" => soundex::refined(&t(soundex::REFINED), &c),
        "co" => cologne::cologne(s),
        "c1" => caverphone::one(s),
        "c2" => caverphone::two(s),
        "ny" => nysiis::nysiis(&c, true),
        "nx" => nysiis::nysiis(&c, false),
        "px" => phonex::phonex(&c, 4),
        "me" => metaphone::metaphone(&c, Some(4)),
        "mx" => metaphone::metaphone(&c, None),
        "dp" => {
            let (p, a) = dmetaphone::code(s);
            let t = |s: String| s.chars().take(4).collect::<String>();
            format!("{}/{}", t(p), t(a))
        }
        "dx" => {
            let (p, a) = dmetaphone::code(s);
            format!("{p}/{a}")
        }
        "mr" => mra::encode(s),
        "mq" => {
            let (a, b) = s.split_once('\u{1}').unwrap();
            mra::matches(a, b).to_string()
        }
        _ => "?".into(),
    }
}
