//@ property=L01
//@ append=src/rust/src/core/group_call.rs
// Who gets the key of this device's media, and whose media this device opens.
include!("_group.rs");

#[derive(Clone, Default)]
struct Them {
    here: bool,
    /// All it ever got.
    keys: Vec<(u8, [u8; 32])>,
    /// how many frames there were when it came
    joined: usize,
    /// from when on what it has must not open new media, once it left
    until: Option<u64>,
}
struct Call {
    g: G,
    them: Vec<Them>,
    frames: Vec<Vec<u8>>,
    /// when the key that replaces the current one is used, and whether it is replaced itself then
    rotation: (u64, bool),
}
const MEDIA: &[u8] = b"media";
impl Call {
    fn new(people: usize) -> Call {
        let g = G::joined(None, None);
        Call { g, them: vec![Them::default(); people], frames: vec![], rotation: (0, false) }
    }
    fn collect(&mut self) {
        for e in self.g.take() {
            match e {
                Ev::Send(to, m, _) => self.got(vec![to], m),
                Ev::ToGroup(group, m, _, to) => {
                    sx::check!(group == GROUP);
                    self.got(to.into_iter().collect(), m)
                }
                Ev::ToAdhoc(..) => sx::check!(false),
                _ => {}
            }
        }
    }
    fn got(&mut self, to: Vec<UserId>, m: CallMessage) {
        let Some(k) = m.group_call_message.and_then(|m| m.media_key) else { return };
        sx::check!(k.demux_id == Some(ME) && !to.is_empty());
        let k = (
            k.ratchet_counter.unwrap() as u8,
            <[u8; 32]>::try_from(k.secret.unwrap()).unwrap(),
        );
        for u in to {
            // nobody but those in the call
            let t = self.them.iter_mut().enumerate().find(|(n, _)| user(*n as u8 + 2) == u);
            sx::check!(t.is_some());
            let t = t.unwrap().1;
            sx::check!(t.here);
            t.keys.push(k);
        }
    }
    /// Whether any key of those opens the frame.
    fn some_key_opens(t: &Them, f: &[u8]) -> bool {
        let mut tried = vec![];
        t.keys.iter().any(|k| {
            if tried.contains(k) {
                return false;
            }
            tried.push(*k);
            let mut c = frame_crypto::Context::new([0; 32]);
            c.add_receive_secret(ME, k.0, k.1);
            opens(&mut c, f, MEDIA)
        })
    }
    fn present(&mut self, mask: u64) {
        let now = self.g.now;
        let mut d = vec![(ME, 1)];
        let mut left = false;
        for (n, t) in self.them.iter_mut().enumerate() {
            let here = mask >> n & 1 == 1;
            if here {
                d.push((0x200 + n as u32, n as u8 + 2));
            }
            if here && !t.here {
                *t = Them { here, joined: self.frames.len(), ..Default::default() };
            }
            if !here && t.here {
                left = true;
                // a replacement that it has already is used for as long as any
                let pending = now < self.rotation.0;
                t.until = Some(if pending { self.rotation.0 } else { now } + 5 * SEC);
            }
            t.here = here;
        }
        if left {
            if now < self.rotation.0 {
                self.rotation.1 = true;
            } else {
                self.rotation = (now + 5 * SEC, false);
            }
        }
        self.g.present(&d);
        self.collect();
    }
    fn wait(&mut self, seconds: u64) {
        for _ in 0..seconds {
            self.g.advance(SEC);
            self.collect();
            if self.rotation == (self.g.now, true) {
                self.rotation = (self.g.now + 5 * SEC, false);
            }
        }
    }
    /// Sends a frame, and sees who opens it.
    fn frame(&mut self) {
        let f = self.g.frame(MEDIA);
        for t in &self.them {
            if t.here {
                // whoever is here opens it with all it got
                let mut c = frame_crypto::Context::new([0; 32]);
                t.keys.iter().for_each(|k| c.add_receive_secret(ME, k.0, k.1));
                sx::check!(opens(&mut c, &f, MEDIA));
                sx::cover!();
            } else if t.until.is_some_and(|u| self.g.now >= u) {
                sx::check!(!Self::some_key_opens(t, &f));
                sx::cover!();
            }
        }
        self.frames.push(f);
    }
    fn finish(&mut self) {
        for t in &self.them {
            for f in &self.frames[..t.joined] {
                sx::check!(!Self::some_key_opens(t, f));
                sx::cover!();
            }
        }
        // once all is settled, nobody is left with a key who is not here
        self.wait(10);
        self.frame();
    }
    fn step(&mut self, op: u64) {
        match op {
            0 => self.wait(3),
            1 => {
                self.g.client.resend_media_keys();
                sx::idle();
                self.collect();
            }
            n => self.present(n - 2),
        }
        self.frame();
    }
}
fn some(people: usize, first: u64, steps: usize) {
    let mut c = Call::new(people);
    c.collect();
    c.frame();
    c.present(first);
    c.frame();
    for _ in 0..steps {
        let op = sx::conc(sx::pick(0, 1 + (1 << people)));
        c.step(op);
    }
    c.finish();
}
//@ harness bound="people=2_steps=3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_keys_one() {
    some(2, 1, 3);
}
//@ harness bound="people=2_steps=3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_keys_two() {
    some(2, 3, 3);
}

/// A key message of a user about a device.
fn key_message(device: DemuxId, counter: u32, secret: &[u8]) -> DeviceToDevice {
    DeviceToDevice {
        media_key: Some(device_to_device::MediaKey {
            demux_id: Some(device),
            ratchet_counter: Some(counter),
            secret: Some(secret.to_vec()),
        }),
        group_id: Some(GROUP.to_vec()),
        ..Default::default()
    }
}
fn from(keys: &mut frame_crypto::Context) -> Vec<u8> {
    let mut b = vec![0; MEDIA.len() + 21];
    Client::encrypt(keys, MEDIA, &mut b).unwrap();
    b
}
fn opened(g: &G, device: DemuxId, frame: &[u8]) -> bool {
    let mut b = vec![0; MEDIA.len()];
    match g.client.decrypt_media(device, frame, &mut b) {
        Ok(n) => {
            sx::check!(b == MEDIA && n == MEDIA.len());
            true
        }
        Err(_) => false,
    }
}
const DEVICE: [DemuxId; 2] = [0x200, 0x201];
//@ harness bound="people=2_steps=3"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_receive() {
    let mut g = G::joined(None, None);
    let mut theirs = [[3u8; 32], [4u8; 32]].map(frame_crypto::Context::new);
    // [whose][about which device]
    let mut said = [[false; 2]; 2];
    let mut here = 0;
    for _ in 0..3 {
        match sx::conc(sx::pick(0, 7)) {
            n @ 0..4 => {
                let d: Vec<_> =
                    (0..2).filter(|u| n >> u & 1 == 1).map(|u| (DEVICE[u], u as u8 + 2)).collect();
                g.present(&d);
                here = n;
            }
            n => {
                let (who, about) = ((n as usize - 4) / 2, n as usize % 2);
                let (c, s) = theirs[who].send_state();
                let m = key_message(DEVICE[about], c as u32, &s);
                g.client.on_signaling_message_received(user(who as u8 + 2), m);
                sx::idle();
                said[who][about] = true;
            }
        }
        for d in 0..2 {
            for k in 0..2 {
                let o = opened(&g, DEVICE[d], &from(&mut theirs[k]));
                // only with a key of the user whose device it is
                sx::check!(!o || k == d && said[d][d]);
                // and with it from when on it is here
                sx::check!(o || !(k == d && said[d][d] && here >> d & 1 == 1));
                if o {
                    sx::cover!();
                }
                if said[k][d] && k != d {
                    sx::cover!();
                }
            }
        }
    }
    // what the application was told last
    let mut told = vec![];
    for e in g.take() {
        if let Ev::Devices(d, _) = e {
            told = d.iter().map(|d| (d.demux_id, d.user_id.clone(), d.media_keys_received)).collect();
        }
    }
    let mut want = vec![];
    for u in 0..2 {
        if here >> u & 1 == 1 {
            want.push((DEVICE[u], user(u as u8 + 2)));
        }
    }
    sx::check!(told.len() == want.len());
    for ((d, u, k), w) in told.into_iter().zip(want) {
        sx::check!(d == w.0 && u == w.1);
        // once the device is here, its key opens its media
        sx::check!(!k || said[(d - DEVICE[0]) as usize][(d - DEVICE[0]) as usize]);
    }
}
//@ harness bound="secret=31-33bytes_counter=any"
#[unsafe(no_mangle)]
pub extern "C" fn hx_l_malformed() {
    let mut g = G::joined(None, None);
    let known = sx::concb(sx::bool());
    if known {
        g.present(&[(ME, 1), (DEVICE[0], 2)]);
    }
    let mut theirs = frame_crypto::Context::new([3; 32]);
    let n = sx::conc(sx::pick(31, 33)) as usize;
    let counter = sx::u32();
    let mut m = key_message(DEVICE[0], counter, &vec![3; n]);
    match sx::conc(sx::pick(0, 4)) {
        0 => m.media_key.as_mut().unwrap().demux_id = None,
        1 => m.media_key.as_mut().unwrap().ratchet_counter = None,
        2 => m.media_key.as_mut().unwrap().secret = None,
        3 => m.media_key = None,
        _ => {
            sx::assume(n != 32 || counter > 255);
            sx::cover!();
        }
    }
    g.client.on_signaling_message_received(user(2), m);
    sx::idle();
    g.present(&[(ME, 1), (DEVICE[0], 2)]);
    sx::check!(!opened(&g, DEVICE[0], &from(&mut theirs)));
}
