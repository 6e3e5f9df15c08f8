//@ property=E02
// The cache of endorsements, against a model of what it was told.
use ringrtc::core::endorsements::EndorsementsCache;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::{Duration, SystemTime};
use zkgroup::{
    Timestamp,
    call_links::CallLinkSecretParams,
    groups::GroupSendEndorsement,
};

const SEC: u64 = 1_000_000_000;
const KEY: u8 = 7;

fn ts(e: u64) -> Timestamp {
    Timestamp::from_epoch_seconds(e)
}
fn user(n: u8) -> Vec<u8> {
    vec![n; 2]
}

#[derive(Default)]
struct Model {
    sets: BTreeMap<u64, BTreeMap<u8, u8>>,
    /// Marked invalid since the set came.
    bad: HashSet<u64>,
    /// Something unknown was bad since the last set came.
    doubt: bool,
    /// Came since the latest were handed out.
    fresh: HashSet<u64>,
}
impl Model {
    fn valid(&self, e: u64) -> bool {
        self.sets.contains_key(&e) && !self.bad.contains(&e) && !self.doubt
    }
    fn latest(&self) -> Option<u64> {
        self.sets.keys().last().copied()
    }
}

fn same(got: &HashMap<Vec<u8>, GroupSendEndorsement>, want: &BTreeMap<u8, u8>) {
    sx::check!(got.len() == want.len());
    for (u, v) in want {
        sx::check!(got[&user(*u)].of == [*u, *v]);
    }
}

fn agree(c: &EndorsementsCache, m: &Model, asked: u64) {
    let latest = m.latest();
    sx::check!(
        c.has_valid_update() == latest.is_some_and(|e| m.valid(e) && m.fresh.contains(&e))
    );
    match c.get_endorsements_for_expiration(ts(asked)) {
        Some((e, got)) => {
            sx::check!(m.valid(asked) && e == ts(asked));
            same(got, &m.sets[&asked]);
        }
        None => sx::check!(!m.valid(asked)),
    }
    for who in [&[1u8][..], &[2], &[2, 1], &[1, 3]] {
        let users: Vec<_> = who.iter().map(|u| user(*u)).collect();
        let all = |e: u64| m.valid(e) && who.iter().all(|u| m.sets[&e].contains_key(u));
        for epoch in [None, Some(asked)] {
            let meant = epoch.or(latest);
            match c.get_endorsements_for_users(epoch.map(ts), users.iter()) {
                Some((e, got)) => {
                    let meant = meant.unwrap();
                    sx::check!(all(meant) && e == ts(meant) && got.len() == users.len());
                    for (u, id) in who.iter().zip(&users) {
                        sx::check!(got[id].of == [*u, m.sets[&meant][u]]);
                    }
                    sx::cover!(epoch.is_some() && Some(meant) != latest);
                }
                None => sx::check!(!meant.is_some_and(all)),
            }
        }
        match c.get_token_for(ts(asked), users) {
            Some(t) => {
                sx::check!(all(asked));
                let of: Vec<u8> = who.iter().flat_map(|u| [*u, m.sets[&asked][u]]).collect();
                sx::check!(t.token.of == of && t.token.key == KEY && t.expiration == ts(asked));
            }
            None => sx::check!(!all(asked)),
        }
    }
}

fn history(steps: u8) {
    let root = [KEY; 16];
    let mut c = EndorsementsCache::new(CallLinkSecretParams::derive_from_root_key(&root));
    let mut m = Model::default();
    agree(&c, &m, 10);
    for i in 0..steps {
        sx::clock((2 + i as u64) * SEC);
        match sx::pick(0, 4) {
            0 => {
                let e = [10, 20][sx::pick(0, 1) as usize];
                let who = [&[1u8][..], &[2], &[1, 2]][sx::pick(0, 2) as usize];
                let v = sx::u8();
                c.insert(
                    ts(e),
                    who.iter().map(|u| (user(*u), GroupSendEndorsement { of: vec![*u, v] })).collect(),
                );
                m.sets.entry(e).or_default().extend(who.iter().map(|u| (*u, v)));
                m.bad.remove(&e);
                m.doubt = false;
                m.fresh.insert(e);
                sx::cover!(m.sets.len() == 2);
            }
            1 => {
                let e = [10, 20][sx::pick(0, 1) as usize];
                c.set_invalid(Some(ts(e)), "bad".into());
                m.bad.insert(e);
            }
            2 => {
                c.set_invalid(None, "doubtful".into());
                m.doubt = true;
            }
            3 => {
                let now = [9, 10, 19, 20][sx::pick(0, 3) as usize];
                c.clear_expired(SystemTime::UNIX_EPOCH + Duration::from_secs(now));
                m.sets.retain(|e, _| *e > now);
                sx::cover!(m.sets.len() == 1);
            }
            _ => match (c.get_latest(), m.latest()) {
                (Some((e, got)), Some(l)) => {
                    sx::check!(m.valid(l) && e == ts(l));
                    same(got, &m.sets[&l]);
                    m.fresh.clear();
                    sx::cover!();
                }
                (Some(_), None) => sx::check!(false),
                (None, l) => sx::check!(!l.is_some_and(|e| m.valid(e))),
            },
        }
    }
    agree(&c, &m, [10, 20][sx::pick(0, 1) as usize]);
    std::mem::forget(c);
}
//@ harness bound="any_3_of_insert_invalid_doubt_clear_latest"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_cache() {
    history(3);
}
//@ harness bound="any_4_of_insert_invalid_doubt_clear_latest" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_cache_4() {
    history(4);
}
