//@ property=E02
//@ append=src/rust/src/core/group_call.rs
// Endorsements received from the SFU: which are kept and told, and whom a key is sent to with them.
include!("_group.rs");
use zkgroup::groups::GroupSendEndorsement;

const ISSUER: u8 = 5;
fn cipher(n: u8) -> Vec<u8> {
    let mut id = [0; 16];
    id[0] = n;
    zkgroup::serialize(&UuidCiphertext { key: LINK, id })
}
fn response(expiration: u64, issuer: u8) -> Vec<u8> {
    let expiration = Timestamp::from_epoch_seconds(expiration);
    zkgroup::serialize(&GroupSendEndorsementsResponse { expiration, issuer })
}
fn endorsement(n: u8) -> GroupSendEndorsement {
    GroupSendEndorsement { of: vec![n] }
}

/// Sets by their expiration, and whether the last answer for it was bad.
type Model = std::collections::BTreeMap<u64, (HashSet<u8>, bool)>;

fn step(g: &mut G, model: &mut Model, here: &mut Vec<(DemuxId, u8)>, cached: bool, keyed: bool) {
    let kind = sx::pick(0, 7);
    let good_members: &[u8] = if sx::bool() { &[2] } else { &[2, 3] };
    let now = g.now / SEC;
    let expiration = match kind {
        2 | 6 | 7 => [now + 10, now + 20][sx::pick(0, 1) as usize],
        3 => now - 1,
        _ => now,
    };
    let mut members: Vec<_> = good_members.iter().map(|n| cipher(*n)).collect();
    let mut serialized = Some(response(expiration, ISSUER));
    let named = if kind == 7 { sx::bool() } else { true };
    match kind {
        // nothing of the kind
        0 => {}
        1 => serialized = None,
        // made by somebody else
        2 => serialized = Some(response(expiration, ISSUER + 1)),
        // 3: too late
        4 => members.clear(),
        5 => serialized = Some(sx::vec(sx::pick(0, 8) as usize)),
        // a member nobody knows
        6 => members.push(if sx::bool() { b"x".to_vec() } else { b"3".to_vec() }),
        _ => {}
    }
    let added = if named && here.len() < 2 {
        here.push([(2, 2), (3, 3)][here.len()]);
        Some(DeviceJoinedOrLeft { peek_info: Some(peek_of(here)) })
    } else {
        None
    };
    let new = added.is_some().then(|| here.last().unwrap().1);
    let endorsements =
        (kind != 0).then(|| SendEndorsementsResponse { serialized, member_ciphertexts: members });
    g.sfu(SfuToDevice { endorsements, device_joined_or_left: added, ..Default::default() });
    sx::idle();

    use EndorsementUpdateError as E;
    let mut told = vec![];
    let mut sent = vec![];
    for e in g.take() {
        match e {
            Ev::Endorsed(u) => told.push(u),
            Ev::ToAdhoc(m, expiration, to) => {
                sx::check!(m.group_call_message.unwrap().media_key.is_some());
                for (u, e) in to {
                    sent.push((u, Some((expiration, e))));
                }
            }
            Ev::Send(to, m, _) => {
                sx::check!(m.group_call_message.unwrap().media_key.is_some());
                sent.push((to, None));
            }
            Ev::ToGroup(..) => sx::check!(false),
            _ => {}
        }
    }
    let mut fresh = None;
    if !cached || kind == 0 {
        sx::check!(told.is_empty());
    } else {
        match kind {
            1 | 4 => {
                let what = if kind == 1 { "serialized" } else { "member_ciphertexts" };
                sx::check!(told == [Err(E::MissingField(what))]);
            }
            5 => sx::check!(told == [Err(E::InvalidEndorsementResponseFormat)]),
            3 => {
                let e = Timestamp::from_epoch_seconds(expiration);
                sx::check!(told == [Err(E::ExpiredEndorsements(e))]);
                sx::cover!();
            }
            _ if !keyed => sx::check!(told.is_empty()),
            2 | 6 => {
                sx::check!(!told.is_empty() && told.iter().all(|t| t.is_err()));
                sx::check!(kind == 2 || told.contains(&Err(E::InvalidMemberCiphertexts)));
                if let Some(set) = model.get_mut(&expiration) {
                    set.1 = true;
                    sx::cover!();
                }
            }
            _ => {
                let set = model.entry(expiration).or_default();
                set.0.extend(good_members);
                set.1 = false;
                fresh = Some(expiration);
                sx::check!(told.len() == 1);
                let Ok((e, of)) = &told[0] else {
                    sx::check!(false);
                    return;
                };
                sx::check!(e.epoch_seconds() == expiration && of.len() == set.0.len());
                sx::check!(set.0.iter().all(|n| of[&user(*n)] == endorsement(*n)));
            }
        }
    }
    // Who came gets the key once, endorsed if there is a good one in the set that came now, or else
    // in the latest.
    match new {
        None => sx::check!(sent.is_empty()),
        Some(n) => {
            sx::check!(sent.len() == 1 && sent[0].0 == user(n));
            let want = fresh
                .or(model.keys().last().copied())
                .filter(|e| !model[e].1 && model[e].0.contains(&n))
                .map(|e| (e, zkgroup::serialize(&endorsement(n))));
            sx::check!(sent[0].1 == want);
            sx::cover!(want.is_some() && fresh.is_none());
            sx::cover!(want.is_some() && fresh.is_some() && fresh != model.keys().last().copied());
            sx::cover!(want.is_none() && !model.is_empty());
        }
    }
}

fn history(steps: usize, cached: bool, keyed: bool) {
    let cache = EndorsementsCache::new(
        zkgroup::call_links::CallLinkSecretParams::derive_from_root_key(&[LINK; 16]),
    );
    let key = keyed.then_some(EndorsementPublicKey(ISSUER));
    let mut g = G::of(GroupCallKind::CallLink, None, key, cached.then_some(cache)).join(None);
    g.advance(10 * SEC);
    g.take();
    let mut model = Model::new();
    let mut here = vec![];
    for _ in 0..steps {
        step(&mut g, &mut model, &mut here, cached, keyed);
        g.now += 1;
        sx::clock(g.now);
    }
    std::mem::forget(model);
}
//@ harness bound="2_answers_of_8_kinds_2_expirations_with_a_user_who_joins"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_group() {
    history(2, true, true);
}
//@ harness bound="no_cache_or_no_key"
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_group_none() {
    let cached = sx::bool();
    history(1, cached, !cached || sx::bool());
}
//@ harness bound="3_answers_of_8_kinds_2_expirations_with_a_user_who_joins" tier=thorough
#[unsafe(no_mangle)]
pub extern "C" fn hx_e_group_3() {
    history(3, true, true);
}
