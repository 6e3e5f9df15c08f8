//@ property=B01
// The consonant base-16 text form: what is printed parses back, what parses is canonical.
use ringrtc::lite::call_links::base16::*;

const ALPHABET: &[u8; 16] = b"bcdfghkmnpqrstxz";

fn digit(c: u8) -> Option<u8> {
    let mut i = 0;
    let mut r = None;
    while i < 16 {
        if ALPHABET[i] == c {
            r = Some(i as u8);
        }
        i += 1;
    }
    r
}

//@ harness bound="any_0..3_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_b16_roundtrip() {
    let n = sx::pick(0, 3) as usize;
    let v = sx::vec(n);
    let s = format!("{}", ConsonantBase16::from(&v[..]));
    sx::check!(s.len() == 2 * n);
    for i in 0..n {
        sx::check!(s.as_bytes()[2 * i] == ALPHABET[(v[i] >> 4) as usize]);
        sx::check!(s.as_bytes()[2 * i + 1] == ALPHABET[(v[i] & 15) as usize]);
    }
    sx::cover!(n == 3);
}

//@ harness bound="any_0..1_bytes,parsed_back"
#[unsafe(no_mangle)]
pub extern "C" fn hx_b16_parse_back() {
    let n = sx::pick(0, 1) as usize;
    let v = sx::vec(n);
    let s = format!("{}", ConsonantBase16::from(&v[..]));
    let back = ConsonantBase16::parse(&s);
    sx::check!(matches!(&back, Ok(b) if *b == v));
    sx::cover!(n == 1);
}

//@ harness bound="any_ASCII_text_of_0..4_characters"
#[unsafe(no_mangle)]
pub extern "C" fn hx_b16_parse_any() {
    let n = sx::pick(0, 4) as usize;
    let s = sx::ascii(n);
    let b = s.as_bytes();
    match ConsonantBase16::parse(&s) {
        Ok(v) => {
            sx::check!(v.len() * 2 == n);
            for i in 0..v.len() {
                sx::check!(digit(b[2 * i]) == Some(v[i] >> 4));
                sx::check!(digit(b[2 * i + 1]) == Some(v[i] & 15));
            }
            sx::cover!(n == 4);
        }
        Err(DecodeError::OddLengthInput) => {
            sx::check!(n % 2 == 1);
            sx::cover!();
        }
        Err(DecodeError::MissingSeparator(_)) => sx::check!(false),
        Err(DecodeError::UnexpectedSeparator(p)) => {
            sx::check!(p < n && b[p] == b'-');
            sx::cover!();
        }
        Err(DecodeError::BadCharacter(p, c)) => {
            sx::check!(p < n && b[p] as char == c && digit(b[p]).is_none());
            sx::cover!();
        }
    }
}

/// With separators every so many bytes: exactly the printed form parses.
//@ harness bound="any_ASCII_text_of_5_characters_with_a_separator_every_byte"
#[unsafe(no_mangle)]
pub extern "C" fn hx_b16_separated() {
    let s = sx::ascii(5);
    let b = s.as_bytes();
    match ConsonantBase16::parse_with_separators(&s, [1usize, 1]) {
        Ok(v) => {
            sx::check!(v.len() == 2 && b[2] == b'-');
            sx::check!(format!("{:-^.1}", ConsonantBase16::from(&v[..])) == s);
            sx::cover!();
        }
        Err(_) => {
            let good = digit(b[0]).is_some()
                && digit(b[1]).is_some()
                && b[2] == b'-'
                && digit(b[3]).is_some()
                && digit(b[4]).is_some();
            sx::check!(!good);
            sx::cover!();
        }
    }
}

/// Text of any kind, beyond ASCII too: an error, never a crash.
//@ harness bound="any_valid_UTF-8_text_of_1..4_bytes"
#[unsafe(no_mangle)]
pub extern "C" fn hx_b16_utf8() {
    let n = sx::pick(1, 4) as usize;
    let v = sx::vec(n);
    let Ok(s) = std::str::from_utf8(&v) else { return };
    let ascii = v.iter().all(|c| *c < 0x80);
    match ConsonantBase16::parse(s) {
        Ok(_) => sx::check!(ascii),
        Err(DecodeError::OddLengthInput) => sx::check!(ascii),
        Err(DecodeError::MissingSeparator(_)) => sx::check!(false),
        // the first character that is not a digit, as what it is
        Err(DecodeError::UnexpectedSeparator(p)) => {
            sx::check!(p < n && v[p] == b'-');
            sx::check!(v[..p].iter().all(|c| digit(*c).is_some()));
        }
        Err(DecodeError::BadCharacter(p, c)) => {
            sx::check!(p < n && v[p] != b'-');
            sx::check!(v[..p].iter().all(|c| digit(*c).is_some()));
            let mut want = [0; 4];
            let want = c.encode_utf8(&mut want).as_bytes();
            sx::check!(p + want.len() <= n && v[p..p + want.len()] == *want);
        }
    }
    sx::cover!(!ascii);
}

/// With a fixed number of groups, nothing may follow the last one.
//@ harness bound="any_ASCII_text_of_0_to_5_characters,1_group_of_1_byte"
#[unsafe(no_mangle)]
pub extern "C" fn hx_b16_groups() {
    let n = sx::pick(0, 5) as usize;
    let s = sx::ascii(n);
    match ConsonantBase16::parse_with_separators(&s, [1usize]) {
        Ok(v) => {
            sx::check!(v.len() * 2 == n && v.len() <= 1);
            sx::cover!(n == 2);
        }
        Err(DecodeError::UnexpectedSeparator(p)) => {
            sx::check!(p < n && s.as_bytes()[p] == b'-');
            sx::cover!(p == 2 && n == 5);
        }
        Err(_) => sx::check!(n > 0),
    }
}
