//@ property=A02
// Version numbers: text form and order.
use ringrtc::common::SemanticVersion;
use std::cmp::Ordering;

//@ harness bound="any_part_of_0..1023,9999,10000,65535_in_each_place,the_others_65535"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_roundtrip() {
    let any = match sx::pick(0, 3) {
        0 => sx::range(0, 1023) as u16,
        1 => 9999,
        2 => 10000,
        _ => u16::MAX,
    };
    let other = u16::MAX;
    let k = sx::pick(0, 2);
    let at = |i| if i == k { any } else { other };
    let (a, b, c) = (at(0), at(1), at(2));
    let v = SemanticVersion::new(a, b, c);
    let s = v.to_string();
    let r = SemanticVersion::try_from(s.as_str());
    sx::check!(r.is_ok_and(|r| r == v));
    sx::cover!(s.len() == 17);
    sx::cover!(s.len() == 13);
}

//@ harness bound="any_16-bit_parts"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_order() {
    let v = |_| (sx::u16(), sx::u16(), sx::u16());
    let ((a, b, c), (x, y, z)) = (v(0), v(1));
    let (l, r) = (SemanticVersion::new(a, b, c), SemanticVersion::new(x, y, z));
    let key = |a: u16, b: u16, c: u16| (a as u64) << 32 | (b as u64) << 16 | c as u64;
    let (p, q) = (key(a, b, c), key(x, y, z));
    let want = if p < q {
        Ordering::Less
    } else if p > q {
        Ordering::Greater
    } else {
        Ordering::Equal
    };
    sx::check!(l.cmp(&r) == want);
    sx::check!(l.partial_cmp(&r) == Some(want));
    sx::check!((l == r) == (want == Ordering::Equal));
    sx::cover!(want == Ordering::Equal);
    sx::cover!(want == Ordering::Greater);
}

/// A number as the text form writes it, if it fits.
fn number(s: &[u8]) -> Option<u64> {
    let s = if s.len() > 1 && s[0] == b'+' { &s[1..] } else { s };
    if s.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for c in s {
        if !(b'0'..=b'9').contains(c) {
            return None;
        }
        v = v * 10 + (*c - b'0') as u64;
    }
    Some(v)
}

//@ harness bound="any_text_of_0..7_digits,dots_and_other_characters"
#[unsafe(no_mangle)]
pub extern "C" fn hx_v_parse() {
    let n = sx::pick(0, 7) as usize;
    let s = sx::ascii(n);
    let b = s.as_bytes();
    let mut part: Vec<Vec<u8>> = vec![vec![]];
    for k in 0..n {
        if sx::concb(b[k] == b'.') {
            part.push(vec![]);
        } else {
            part.last_mut().unwrap().push(b[k]);
        }
    }
    let want = if part.len() < 3 {
        None
    } else {
        match (number(&part[0]), number(&part[1]), number(&part[2])) {
            (Some(a), Some(b), Some(c)) if a <= 0xffff && b <= 0xffff && c <= 0xffff => {
                Some(SemanticVersion::new(a as u16, b as u16, c as u16))
            }
            _ => None,
        }
    };
    let got = SemanticVersion::try_from(s.as_str()).ok();
    sx::check!(got == want);
    sx::cover!(want.is_some() && n == 7);
    sx::cover!(want.is_none() && part.len() == 3 && n == 7);
}
