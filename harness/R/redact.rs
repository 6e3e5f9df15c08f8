//@ property=P01
// What is logged has no addresses, passwords or candidate foundations in it.
use ringrtc::core::util::redact_string;

fn digits(n: usize) -> Vec<u8> {
    let v = sx::vec(n);
    sx::assume(v.iter().all(|b| b.is_ascii_digit()));
    v
}
fn text(v: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(v) }
}
/// Text around that is no part of an address.
const AROUND: [(&str, &str); 4] = [("", ""), ("x ", " y"), ("<", ">"), ("a=k:", "\n@")];

//@ harness bound="segments_of_1_to_3_symbolic_digits,4_surroundings"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_v4() {
    let (pre, post) = AROUND[sx::pick(0, 3) as usize];
    let mut v = pre.as_bytes().to_vec();
    for k in 0..4 {
        if k > 0 {
            v.push(b'.');
        }
        let n = if k == 1 || k == 3 { sx::pick(1, 3) } else { 1 } as usize;
        v.extend(digits(n));
    }
    v.extend(post.as_bytes());
    let r = redact_string(text(&v));
    sx::check!(r.as_bytes() == [pre.as_bytes(), b"[REDACTED ipv4]", post.as_bytes()].concat());
    sx::cover!();
}
/// Hexadecimal groups joined by colons, the first with a symbolic digit.
fn groups(n: usize, sym: bool) -> Vec<u8> {
    const G: [&str; 8] = ["0", "2001", "db8", "f", "Ab", "fe80", "ffff", "1c2D"];
    let mut v = vec![];
    for i in 0..n {
        if i > 0 {
            v.push(b':');
        }
        if i == 0 && sym {
            let d = sx::u8();
            sx::assume(d.is_ascii_hexdigit());
            v.push(d);
        } else {
            v.extend(G[(i + n) % 8].bytes());
        }
    }
    v
}
fn redacted_v6(addr: &[u8]) {
    redacted(addr, &[("", ""), ("x <", "> y")]);
}
fn redacted(addr: &[u8], around: &[(&str, &str)]) {
    for (pre, post) in around {
        let v = [pre.as_bytes(), addr, post.as_bytes()].concat();
        let r = redact_string(text(&v));
        sx::check!(r.as_bytes() == [pre.as_bytes(), b"[REDACTED ipv6]", post.as_bytes()].concat());
    }
}
//@ harness bound="k_groups_then_::_then_m_groups,k+m<=7,a_symbolic_digit"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_v6() {
    let k = sx::pick(0, 7) as usize;
    let m = sx::pick(0, 7 - k as u64) as usize;
    redacted_v6(&[&groups(k, true)[..], b"::", &groups(m, k == 0)].concat());
    sx::cover!();
}
//@ harness bound="embedded_v4_after_every_form,a_symbolic_digit"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_v6_v4() {
    let k = sx::pick(0, 6) as usize;
    let mut v = groups(k, false);
    if k < 6 {
        let m = sx::pick(0, 5 - k as u64) as usize;
        v.extend(b"::");
        v.extend(groups(m, true));
        if m > 0 {
            v.push(b':');
        }
        sx::cover!(m == 0);
        sx::cover!(m == 5);
    } else {
        v.push(b':');
        sx::cover!();
    }
    v.extend(b"192.0.");
    v.extend(digits(1));
    v.extend(b".33");
    redacted_v6(&v);
}
//@ harness bound="8_groups_and_link-local_with_zone,symbolic_digits"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_v6_full() {
    if sx::pick(0, 1) == 0 {
        redacted_v6(&groups(8, true));
        sx::cover!();
    } else {
        let m = sx::pick(1, 4) as usize;
        let z = sx::u8();
        sx::assume(z.is_ascii_alphanumeric());
        redacted_v6(&[b"fe80::", &groups(m, false)[..], b"%", &[z]].concat());
        sx::cover!();
    }
}
/// One group (or, if it may already be redacted in part, "x") of those of the address is unknown.
fn unknown_group(x: bool) -> Vec<u8> {
    if x && sx::pick(0, 2) == 2 {
        return b"x".to_vec();
    }
    let d = sx::u8();
    sx::assume(d.is_ascii_hexdigit());
    match sx::pick(0, 1) {
        0 => vec![d],
        _ => vec![d, b'0', b'c', b'0'],
    }
}
//@ harness bound="8_groups,any_one_of_1_or_4_digits,one_symbolic,or_x"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_v6_any_of_8() {
    let at = sx::pick(0, 7) as usize;
    let mut v = vec![];
    for i in 0..8 {
        if i > 0 {
            v.push(b':');
        }
        if i == at {
            v.extend(unknown_group(true));
        } else {
            v.extend([&b"0"[..], b"2001", b"db8", b"Ab"][i % 4]);
        }
    }
    redacted(&v, &[("<", ">")]);
    sx::cover!(v[0] == b'x');
}
//@ harness bound="k_groups_then_::_then_1_or_all_groups,any_one_of_1_or_4_digits,one_symbolic,or_x_after_::,or_link-local"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_v6_any() {
    let local = sx::pick(0, 1) == 1;
    let k = if local { 0 } else { sx::pick(0, 6) as usize };
    // as many as there can be, or one
    let most = if local { 3 } else { 7 - k };
    let m = [most, 1][sx::pick(0, 1) as usize];
    let at = [0, k, k + m - 1][sx::pick(0, 2) as usize];
    let mut v = vec![];
    if local {
        v.extend([&b"fe80:"[..], b"FE80:"][sx::pick(0, 1) as usize]);
    }
    for i in 0..k + m {
        if i == k && k > 0 || i == 0 {
            if i == k {
                v.extend(if k == 0 && local { &b":"[..] } else { b"::" });
            }
        } else {
            v.push(b':');
        }
        if i == at {
            v.extend(unknown_group(i >= k));
        } else {
            v.extend([&b"0"[..], b"2001", b"db8", b"Ab"][i % 4]);
        }
    }
    if local {
        v.extend(b"%eth0");
    }
    redacted(&v, &[("<", ">")]);
    sx::cover!(local);
    sx::cover!(!local && at >= k && k == 3);
}
//@ harness bound="embedded_v4_after_any_form,any_one_group_of_1_or_4_digits,one_symbolic,last_v4_segment_may_be_x"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_v6_v4_any() {
    let k = sx::pick(0, 6) as usize;
    let m = if k < 6 { sx::pick(0, 5 - k as u64) as usize } else { 0 };
    let at = [0, k.max(1) - 1, (k + m).max(1) - 1, k + m][sx::pick(0, 3) as usize];
    let g = |v: &mut Vec<u8>, i: usize| {
        if i == at {
            v.extend(unknown_group(false));
        } else {
            v.extend([&b"0"[..], b"2001", b"db8", b"Ab"][i % 4]);
        }
    };
    let mut v = vec![];
    for i in 0..k {
        g(&mut v, i);
        v.push(b':');
    }
    if k < 6 {
        v.extend(if k == 0 { &b"::"[..] } else { b":" });
    }
    for i in k..k + m {
        g(&mut v, i);
        v.push(b':');
    }
    v.extend(b"192.0.");
    if at == k + m {
        v.extend(digits(sx::pick(1, 3) as usize));
        v.extend(b".x");
    } else {
        v.extend(b"0.255");
    }
    redacted(&v, &[("<", ">")]);
    sx::cover!(at == k + m);
    sx::cover!(at < k);
}
//@ harness bound="a_line_with_an_ICE_password_anywhere_in_4,symbolic_password"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_ice() {
    let at = sx::pick(0, 3) as usize;
    let twice = sx::pick(0, 1) == 1;
    let end = [&b"\n"[..], b"\r\n"][sx::pick(0, 1) as usize];
    let pw = sx::vec(4);
    sx::assume(pw.iter().all(|b| (0x21..0x7f).contains(b)));
    let lines: [&[u8]; 4] = [b"v=0", b"a=ice-ufrag:u", b"m=audio", b"s=-"];
    let secret = [&b"a=ice-pwd:"[..], &pw].concat();
    let mut v = vec![];
    let mut want: Vec<u8> = vec![];
    for i in 0..4 {
        let hit = i == at || (twice && i == 3);
        v.extend(if hit { &secret[..] } else { lines[i] });
        want.extend(if hit { b"a=ice-pwd:[ REDACTED ]" } else { lines[i] });
        if i < 3 {
            v.extend(end);
            want.extend(b"\n");
        }
    }
    let r = redact_string(text(&v));
    sx::check!(r.as_bytes() == want);
    sx::cover!();
}
//@ harness bound="candidate_line_with_foundation_of_1_to_4_symbolic_digits"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_candidate() {
    let n = sx::pick(1, 4) as usize;
    let v6 = sx::pick(0, 1) == 1;
    let f = digits(n);
    let addr: &[u8] = if v6 { b"2001:db8::7" } else { b"10.0.0.7" };
    let v = [b"a=candidate:", &f[..], b" 1 udp 2113 ", addr, b" 3478 typ relay"].concat();
    let r = redact_string(text(&v));
    let a: &[u8] = if v6 { b"[REDACTED ipv6]" } else { b"[REDACTED ipv4]" };
    let want = [&b"a=candidate:****** 1 udp 2113 "[..], a, b" 3478 typ relay"].concat();
    sx::check!(r.as_bytes() == want);
    sx::cover!();
}
//@ harness bound="2_symbolic_characters_beside_what_is_no_address"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_plain() {
    // No "::" and too few dots for an address.
    let v = sx::vec(2);
    sx::assume(v.iter().all(|b| b.is_ascii() && *b != b':'));
    let t = [b"12:34:56.", &v[..]].concat();
    sx::check!(redact_string(text(&t)).as_bytes() == t);
    sx::cover!();
}
