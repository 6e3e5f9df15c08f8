//@ property=W01
// HTTP requests by way of the application: each response to its own caller, once.
use ringrtc::lite::http::{
    Client, Delegate, DelegatingClient, Method, Request, Response, ResponseStatus,
    parse_json_response,
};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

//@ harness bound="any_status_code"
#[unsafe(no_mangle)]
pub extern "C" fn hx_w_status() {
    let code = sx::u16();
    let s = ResponseStatus::from(code);
    sx::check!(s.code == code);
    sx::check!(s.is_success() == (200..300).contains(&code));
    sx::check!(s.is_error() == (400..800).contains(&code));
    sx::cover!(s.is_success());
    sx::cover!(s.is_error());
    sx::cover!(!s.is_error() && code >= 800);
}

//@ harness bound="any_status_code,body_up_to_4_ASCII_characters_as_an_8-bit_number"
#[unsafe(no_mangle)]
pub extern "C" fn hx_w_json() {
    if sx::concb(sx::bool()) {
        let r: Result<u8, ResponseStatus> = parse_json_response(None);
        sx::check!(r == Err(ResponseStatus::REQUEST_FAILED));
        sx::cover!();
        return;
    }
    let code = sx::u16();
    let n = sx::pick(0, 4) as usize;
    let body = sx::vec(n);
    sx::assume(body.iter().all(|b| b.is_ascii_digit() || *b == b' ' || *b == b'x'));
    let resp = Response {
        status: code.into(),
        body: body.clone(),
    };
    let r: Result<u8, ResponseStatus> = parse_json_response(Some(&resp));
    if !(200..300).contains(&code) {
        sx::check!(r == Err(ResponseStatus { code }));
        sx::cover!();
        return;
    }
    // a number with spaces around it, without a leading zero
    let lo = body.iter().take_while(|b| **b == b' ').count();
    let hi = n - body[lo..].iter().rev().take_while(|b| **b == b' ').count();
    let t = &body[lo..hi];
    let mut v = 0u32;
    let mut ok = !t.is_empty() && (t.len() == 1 || t[0] != b'0');
    for b in t {
        ok &= b.is_ascii_digit();
        v = v * 10 + (*b as u32).wrapping_sub(48);
    }
    if ok && v < 256 {
        sx::check!(r == Ok(v as u8));
        sx::cover!();
    } else {
        sx::check!(r == Err(ResponseStatus::INVALID_RESPONSE_BODY_JSON));
        sx::cover!();
    }
}

#[derive(Default)]
struct Seen {
    // by request: the id under which the application got it
    ids: Vec<Option<u32>>,
    // by request: the responses its caller got
    got: Vec<Vec<Option<(u16, Vec<u8>)>>>,
    dropped: usize,
}
struct App(Arc<Mutex<Seen>>, bool);

fn request(k: usize) -> Request {
    let mut headers = HashMap::new();
    headers.insert("h".to_string(), format!("v{k}"));
    Request {
        method: [Method::Get, Method::Put, Method::Post, Method::Delete][k % 4],
        url: format!("u{k}"),
        headers,
        body: if k % 2 == 0 { None } else { Some(vec![k as u8; k]) },
    }
}
impl Delegate for App {
    fn send_request(&self, id: u32, r: Request) {
        let k = (r.url.as_bytes()[1] - b'0') as usize;
        let want = request(k);
        sx::check!(r.url == want.url && r.method == want.method && r.body == want.body);
        sx::check!(r.headers == want.headers);
        {
            let mut s = self.0.lock().unwrap();
            // asked once, under an id no other request has
            sx::check!(s.ids[k].is_none() && !s.ids.contains(&Some(id)));
            s.ids[k] = Some(id);
        }
        if self.1 {
            sx::yield_now();
        }
    }
}
struct OnDrop(Arc<Mutex<Seen>>);
impl Drop for OnDrop {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped += 1;
    }
}

fn send(c: &DelegatingClient, seen: &Arc<Mutex<Seen>>, k: usize, then: bool) {
    let (s2, c2) = (seen.clone(), if then { Some(c.clone()) } else { None });
    let d = OnDrop(seen.clone());
    c.send_request(
        request(k),
        Box::new(move |r| {
            let _d = d;
            s2.lock().unwrap().got[k].push(r.map(|r| (r.status.code, r.body)));
            // a caller may ask again at once
            if let Some(c) = c2 {
                let k2 = {
                    let mut s = s2.lock().unwrap();
                    s.ids.push(None);
                    s.got.push(vec![]);
                    s.ids.len() - 1
                };
                send(&c, &s2, k2, false);
            }
        }),
    );
}

fn client(ops: usize) {
    let seen: Arc<Mutex<Seen>> = Default::default();
    let c = DelegatingClient::new(App(seen.clone(), false));
    let mut want: Vec<Vec<Option<(u16, Vec<u8>)>>> = vec![];
    let mut again: Vec<bool> = vec![];
    for _ in 0..ops {
        if sx::concb(sx::bool()) {
            let k = {
                let mut s = seen.lock().unwrap();
                s.ids.push(None);
                s.got.push(vec![]);
                s.ids.len() - 1
            };
            let then = sx::concb(sx::bool());
            send(&c, &seen, k, then);
            want.push(vec![]);
            again.push(then);
        } else {
            // one of those given out, or another
            let known: Vec<u32> = seen.lock().unwrap().ids.iter().flatten().copied().collect();
            let k = sx::pick(0, known.len() as u64 + 1) as usize;
            let next = known.iter().max().map_or(0, |m| m.wrapping_add(1));
            let id = *known.get(k).unwrap_or(if k == known.len() { &next } else { &u32::MAX });
            let resp = if sx::concb(sx::bool()) {
                Some((sx::u16(), sx::bytes::<2>().to_vec()))
            } else {
                None
            };
            let r = resp.clone().map(|(code, body)| Response {
                status: code.into(),
                body,
            });
            let mut hit = None;
            for (k, i) in seen.lock().unwrap().ids.iter().enumerate() {
                if *i == Some(id) {
                    hit = Some(k);
                }
            }
            c.received_response(id, r);
            if let Some(k) = hit {
                if want[k].is_empty() {
                    want[k].push(resp);
                    if again[k] {
                        want.push(vec![]);
                        again.push(false);
                        sx::cover!();
                    }
                } else {
                    sx::cover!();
                }
            } else {
                sx::cover!(!want.is_empty());
            }
        }
        let s = seen.lock().unwrap();
        sx::check!(s.got == want);
        sx::check!(s.ids.iter().all(|i| i.is_some()));
        sx::check!(s.dropped == want.iter().filter(|w| !w.is_empty()).count());
    }
}
//@ harness bound="4_requests_and_responses,known_and_unknown_ids,any_status_and_2-byte_body"
#[unsafe(no_mangle)]
pub extern "C" fn hx_w_client() {
    client(4);
}
//@ harness bound="5_requests_and_responses,known_and_unknown_ids,any_status_and_2-byte_body" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_w_client5() {
    client(5);
}

/// Threads ask while the application answers from another thread, even before its delegate
/// returns.
fn threads(n: usize, each: usize) {
    sx::explore(true);
    let seen: Arc<Mutex<Seen>> = Default::default();
    for _ in 0..n * each {
        let mut s = seen.lock().unwrap();
        s.ids.push(None);
        s.got.push(vec![]);
    }
    let c = DelegatingClient::new(App(seen.clone(), true));
    let mut ts = vec![];
    for t in 0..n {
        let (c, seen) = (c.clone(), seen.clone());
        ts.push(std::thread::spawn(move || {
            for k in 0..each {
                send(&c, &seen, t * each + k, false);
            }
        }));
    }
    let (mut early, mut tries) = (false, 0);
    let mut left: Vec<usize> = (0..n * each).collect();
    while !left.is_empty() {
        let mut answered = None;
        for k in &left {
            let id = seen.lock().unwrap().ids[*k];
            if let Some(id) = id {
                c.received_response(
                    id,
                    Some(Response {
                        status: (200 + *k as u16).into(),
                        body: vec![*k as u8],
                    }),
                );
                answered = Some(*k);
                break;
            }
        }
        match answered {
            Some(k) => {
                sx::check!(seen.lock().unwrap().got[k] == vec![Some((200 + k as u16, vec![k as u8]))]);
                early |= !ts[k / each].is_finished();
                left.retain(|x| *x != k);
            }
            None if tries < 4 => {
                tries += 1;
                sx::yield_now();
            }
            None => sx::idle(),
        }
    }
    for t in ts {
        t.join().unwrap();
    }
    let s = seen.lock().unwrap();
    sx::check!(s.got.iter().all(|g| g.len() == 1));
    sx::check!(s.dropped == n * each);
    sx::cover!(early);
}
//@ harness bound="2_threads_with_2_requests_each,every_schedule"
#[unsafe(no_mangle)]
pub extern "C" fn hx_w_threads() {
    threads(2, 2);
}
