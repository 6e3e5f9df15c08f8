/// An application that records, in order, what the call manager asks of it.
pub mod plat {
    use ringrtc::{
        common::*,
        core::{
            call::Call,
            call_manager::CallManager,
            call_summary::CallSummary,
            connection::{Connection, ConnectionType},
            group_call,
            platform::{Platform, PlatformItem},
            signaling::{self, Hangup},
        },
        lite::{
            http,
            sfu::{self, DemuxId, PeekInfo, PeekResult, UserId},
        },
        webrtc::{
            media::{MediaStream, VideoTrack},
            peer_connection::{AudioLevel, PeerConnection, ReceivedAudioLevel},
            peer_connection_observer::NetworkRoute,
            sim::peer_connection::RffiPeerConnection,
        },
    };
    use std::{
        collections::{HashMap, HashSet},
        fmt,
        sync::{Arc, Mutex},
        time::Duration,
    };

    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct Peer(pub u8);
    impl PlatformItem for Peer {}
    #[derive(Clone)]
    pub struct Ctx(pub u8);
    impl PlatformItem for Ctx {}
    pub struct Media;
    impl PlatformItem for Media {}

    pub type Cm = CallManager<App>;

    #[derive(Clone)]
    pub enum Ev {
        Start(CallDirection, CallMediaType),
        Event(ApplicationEvent),
        Route,
        Levels,
        LowBandwidth,
        Offer(signaling::Offer),
        Answer(signaling::Answer, DeviceId),
        Ice(signaling::Ice, Option<DeviceId>),
        Hangup(signaling::Hangup),
        Busy,
        Expired(Duration),
        Ended(CallEndReason),
        Concluded,
        Connection(DeviceId, RffiPeerConnection),
        MediaOn,
        MediaOff,
        Ring(Vec<u8>, i64, Vec<u8>, group_call::RingUpdate),
        Message(Vec<u8>, Vec<u8>),
        ToGroup(Vec<u8>, Vec<u8>, Vec<Vec<u8>>),
        Peek(u32, std::result::Result<(), u16>),
        Group(u32, &'static str),
        GroupEnded(u32, CallEndReason),
        GroupConn(u32, group_call::ConnectionState),
        GroupJoin(u32, group_call::JoinState),
    }
    impl Ev {
        /// Whether it is a signaling message, which the application confirms when it is sent.
        pub fn is_message(&self) -> bool {
            matches!(
                self,
                Ev::Offer(..) | Ev::Answer(..) | Ev::Ice(..) | Ev::Hangup(..) | Ev::Busy
            )
        }
    }

    /// What the application was told, with the call and the peer it was told about (0: none).
    #[derive(Clone)]
    pub struct Rec {
        pub id: u64,
        pub peer: u8,
        pub ev: Ev,
    }

    #[derive(Default)]
    pub struct Shared {
        pub log: Vec<Rec>,
        /// the calls of the application that fail: 1 start, 2 offer, 4 answer, 8 ICE, 16 hangup,
        /// 32 busy, 64 create connection, 128 media on, 256 concluded, 512 ended, 1024 event
        pub fail: u32,
        pub assume_sent: bool,
    }

    #[derive(Clone, Default)]
    pub struct App(pub Arc<Mutex<Shared>>);

    impl fmt::Display for App {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("App")
        }
    }
    impl fmt::Debug for App {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("App")
        }
    }

    impl App {
        fn rec(&self, id: u64, peer: u8, ev: Ev, bit: u32) -> anyhow::Result<()> {
            let mut s = self.0.lock().unwrap();
            if s.fail & bit != 0 {
                return Err(anyhow::anyhow!("the application failed"));
            }
            s.log.push(Rec { id, peer, ev });
            Ok(())
        }
        pub fn log(&self) -> Vec<Rec> {
            self.0.lock().unwrap().log.clone()
        }
        pub fn of(&self, id: u64) -> Vec<Ev> {
            let s = self.0.lock().unwrap();
            s.log.iter().filter(|r| r.id == id).map(|r| r.ev.clone()).collect()
        }
        pub fn count(&self, id: u64, f: fn(&Ev) -> bool) -> usize {
            let s = self.0.lock().unwrap();
            s.log.iter().filter(|r| r.id == id && f(&r.ev)).count()
        }
        pub fn fail(&self, bits: u32) {
            self.0.lock().unwrap().fail = bits;
        }
        pub fn assume_sent(&self) {
            self.0.lock().unwrap().assume_sent = true;
        }
        pub fn connection(&self, id: u64, device: DeviceId) -> Option<RffiPeerConnection> {
            self.of(id).into_iter().find_map(|e| match e {
                Ev::Connection(d, pc) if d == device => Some(pc),
                _ => None,
            })
        }
        /// How the call ended.
        pub fn ended(&self, id: u64) -> Vec<CallEndReason> {
            self.of(id)
                .into_iter()
                .filter_map(|e| match e {
                    Ev::Ended(r) => Some(r),
                    _ => None,
                })
                .collect()
        }
        pub fn hangups(&self, id: u64) -> Vec<signaling::Hangup> {
            self.of(id)
                .into_iter()
                .filter_map(|e| match e {
                    Ev::Hangup(h) => Some(h),
                    _ => None,
                })
                .collect()
        }
        pub fn has(&self, id: u64, e: ApplicationEvent) -> usize {
            self.of(id)
                .iter()
                .filter(|x| matches!(x, Ev::Event(y) if *y == e))
                .count()
        }
    }

    impl sfu::Delegate for App {
        fn handle_peek_result(&self, request_id: u32, r: PeekResult) {
            let _ = self.rec(0, 0, Ev::Peek(request_id, r.map(|_| ()).map_err(|e| e.code)), 0);
        }
    }

    impl Platform for App {
        type AppIncomingMedia = Media;
        type AppRemotePeer = Peer;
        type AppConnection = RffiPeerConnection;
        type AppCallContext = Ctx;

        fn create_connection(
            &mut self,
            call: &Call<Self>,
            remote_device: DeviceId,
            connection_type: ConnectionType,
            _version: signaling::Version,
            call_config: CallConfig,
            audio_levels_interval: Option<Duration>,
        ) -> anyhow::Result<Connection<Self>> {
            let pc = RffiPeerConnection::new();
            let c = Connection::new(
                call.clone(),
                remote_device,
                connection_type,
                call_config,
                audio_levels_interval,
                None,
            )?;
            c.set_app_connection(pc.clone())?;
            // outlives the connection
            let pc_ptr: &'static RffiPeerConnection = Box::leak(Box::new(pc.clone()));
            let rffi = unsafe {
                ringrtc::webrtc::Arc::from_borrowed(ringrtc::webrtc::ptr::BorrowedRc::from_ptr(pc_ptr))
            };
            c.set_peer_connection(PeerConnection::new(rffi, None, None))?;
            self.rec(call.call_id().as_u64(), 0, Ev::Connection(remote_device, pc), 64)?;
            Ok(c)
        }
        fn on_start_call(
            &self,
            p: &Peer,
            id: CallId,
            d: CallDirection,
            m: CallMediaType,
        ) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Start(d, m), 1)
        }
        fn on_event(&self, p: &Peer, id: CallId, e: ApplicationEvent) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Event(e), 1024)
        }
        fn on_network_route_changed(&self, p: &Peer, _r: NetworkRoute) -> anyhow::Result<()> {
            self.rec(0, p.0, Ev::Route, 0)
        }
        fn on_audio_levels(&self, p: &Peer, _c: AudioLevel, _r: AudioLevel) -> anyhow::Result<()> {
            self.rec(0, p.0, Ev::Levels, 0)
        }
        fn on_low_bandwidth_for_video(&self, p: &Peer, _recovered: bool) -> anyhow::Result<()> {
            self.rec(0, p.0, Ev::LowBandwidth, 0)
        }
        fn on_send_offer(&self, p: &Peer, id: CallId, o: signaling::Offer) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Offer(o), 2)
        }
        fn on_send_answer(
            &self,
            p: &Peer,
            id: CallId,
            s: signaling::SendAnswer,
        ) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Answer(s.answer, s.receiver_device_id), 4)
        }
        fn on_send_ice(&self, p: &Peer, id: CallId, s: signaling::SendIce) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Ice(s.ice, s.receiver_device_id), 8)
        }
        fn on_send_hangup(
            &self,
            p: &Peer,
            id: CallId,
            s: signaling::SendHangup,
        ) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Hangup(s.hangup), 16)
        }
        fn on_send_busy(&self, p: &Peer, id: CallId) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Busy, 32)
        }
        fn send_call_message(
            &self,
            to: Vec<u8>,
            m: Vec<u8>,
            _u: group_call::SignalingMessageUrgency,
        ) -> anyhow::Result<()> {
            self.rec(0, 0, Ev::Message(to, m), 0)
        }
        fn send_call_message_to_group(
            &self,
            group: Vec<u8>,
            m: Vec<u8>,
            _u: group_call::SignalingMessageUrgency,
            to: HashSet<UserId>,
        ) -> anyhow::Result<()> {
            let mut to: Vec<_> = to.into_iter().collect();
            to.sort();
            self.rec(0, 0, Ev::ToGroup(group, m, to), 0)
        }
        fn send_call_message_to_adhoc_group(
            &self,
            m: Vec<u8>,
            _u: group_call::SignalingMessageUrgency,
            _expiration: u64,
            to: HashMap<UserId, Vec<u8>>,
        ) -> anyhow::Result<()> {
            let mut to: Vec<_> = to.into_keys().collect();
            to.sort();
            self.rec(0, 0, Ev::ToGroup(vec![], m, to), 0)
        }
        fn create_incoming_media(
            &self,
            _c: &Connection<Self>,
            _m: MediaStream,
        ) -> anyhow::Result<Media> {
            Ok(Media)
        }
        fn connect_incoming_media(&self, p: &Peer, _c: &Ctx, _m: &Media) -> anyhow::Result<()> {
            self.rec(0, p.0, Ev::MediaOn, 128)
        }
        fn disconnect_incoming_media(&self, _c: &Ctx) -> anyhow::Result<()> {
            self.rec(0, 0, Ev::MediaOff, 0)
        }
        fn compare_remotes(&self, a: &Peer, b: &Peer) -> anyhow::Result<bool> {
            Ok(a == b)
        }
        fn on_offer_expired(&self, p: &Peer, id: CallId, age: Duration) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Expired(age), 0)
        }
        fn on_call_ended(
            &self,
            p: &Peer,
            id: CallId,
            r: CallEndReason,
            _s: CallSummary,
        ) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Ended(r), 512)
        }
        fn on_call_concluded(&self, p: &Peer, id: CallId) -> anyhow::Result<()> {
            self.rec(id.as_u64(), p.0, Ev::Concluded, 256)
        }
        fn assume_messages_sent(&self) -> bool {
            self.0.lock().unwrap().assume_sent
        }
        fn group_call_ring_update(
            &self,
            group: group_call::GroupId,
            ring: group_call::RingId,
            sender: UserId,
            u: group_call::RingUpdate,
        ) {
            let _ = self.rec(0, 0, Ev::Ring(group, ring.into(), sender, u), 0);
        }
        fn request_membership_proof(&self, c: group_call::ClientId) {
            let _ = self.rec(0, 0, Ev::Group(c, "proof"), 0);
        }
        fn request_group_members(&self, c: group_call::ClientId) {
            let _ = self.rec(0, 0, Ev::Group(c, "members"), 0);
        }
        fn handle_connection_state_changed(
            &self,
            c: group_call::ClientId,
            s: group_call::ConnectionState,
        ) {
            let _ = self.rec(0, 0, Ev::GroupConn(c, s), 0);
        }
        fn handle_network_route_changed(&self, _c: group_call::ClientId, _r: NetworkRoute) {}
        fn handle_join_state_changed(&self, c: group_call::ClientId, s: group_call::JoinState) {
            let _ = self.rec(0, 0, Ev::GroupJoin(c, s), 0);
        }
        fn handle_remote_devices_changed(
            &self,
            c: group_call::ClientId,
            _r: &[group_call::RemoteDeviceState],
            _w: group_call::RemoteDevicesChangedReason,
        ) {
            let _ = self.rec(0, 0, Ev::Group(c, "devices"), 0);
        }
        fn handle_incoming_video_track(
            &self,
            _c: group_call::ClientId,
            _d: DemuxId,
            _v: VideoTrack,
        ) {
        }
        fn handle_peek_changed(
            &self,
            c: group_call::ClientId,
            _p: &PeekInfo,
            _j: &HashSet<UserId>,
        ) {
            let _ = self.rec(0, 0, Ev::Group(c, "peek"), 0);
        }
        fn handle_speaking_notification(
            &self,
            _c: group_call::ClientId,
            _e: group_call::SpeechEvent,
        ) {
        }
        fn handle_audio_levels(
            &self,
            _c: group_call::ClientId,
            _l: AudioLevel,
            _r: Vec<ReceivedAudioLevel>,
        ) {
        }
        fn handle_reactions(&self, _c: group_call::ClientId, _r: Vec<group_call::Reaction>) {}
        fn handle_raised_hands(&self, _c: group_call::ClientId, _r: Vec<DemuxId>) {}
        fn handle_ended(&self, c: group_call::ClientId, r: CallEndReason, _s: CallSummary) {
            let _ = self.rec(0, 0, Ev::GroupEnded(c, r), 0);
        }
        fn handle_remote_mute_request(&self, c: group_call::ClientId, _s: DemuxId) {
            let _ = self.rec(0, 0, Ev::Group(c, "mute"), 0);
        }
        fn handle_observed_remote_mute(
            &self,
            c: group_call::ClientId,
            _s: DemuxId,
            _t: DemuxId,
        ) {
            let _ = self.rec(0, 0, Ev::Group(c, "muted"), 0);
        }
    }

    struct NoHttp;
    impl http::Delegate for NoHttp {
        fn send_request(&self, _id: u32, _r: http::Request) {}
    }

    pub fn new() -> (App, Cm) {
        let app = App::default();
        let cm = Cm::new(app.clone(), http::DelegatingClient::new(NoHttp)).unwrap();
        (app, cm)
    }

    /// A public key that the other side may offer or answer with.
    pub fn v4(key: u8) -> ringrtc::protobuf::signaling::ConnectionParametersV4 {
        ringrtc::protobuf::signaling::ConnectionParametersV4 {
            public_key: Some(vec![key; 32]),
            ice_ufrag: Some("u".into()),
            ice_pwd: Some("p".into()),
            receive_video_codecs: vec![],
            decode_only_video_codecs: vec![],
            encode_only_video_codecs: vec![],
            max_bitrate_bps: None,
        }
    }
    pub fn offer(device: DeviceId, age: Duration) -> signaling::ReceivedOffer {
        signaling::ReceivedOffer {
            offer: signaling::Offer::from_v4(CallMediaType::Audio, v4(7)).unwrap(),
            age,
            sender_device_id: device,
            receiver_device_id: 1,
            sender_identity_key: vec![1],
            receiver_identity_key: vec![2],
        }
    }
    pub fn answer(device: DeviceId) -> signaling::ReceivedAnswer {
        signaling::ReceivedAnswer {
            answer: signaling::Answer::from_v4(v4(8)).unwrap(),
            sender_device_id: device,
            sender_identity_key: vec![1],
            receiver_identity_key: vec![2],
        }
    }
    pub fn ice(device: DeviceId) -> signaling::ReceivedIce {
        signaling::ReceivedIce {
            ice: signaling::Ice {
                candidates: vec![signaling::IceCandidate::from_v3_sdp("c".into()).unwrap()],
            },
            sender_device_id: device,
        }
    }
    pub fn hangup(device: DeviceId, h: signaling::Hangup) -> signaling::ReceivedHangup {
        signaling::ReceivedHangup { hangup: h, sender_device_id: device }
    }
    pub fn proceed(cm: &mut Cm, id: u64) {
        cm.proceed(CallId::new(id), Ctx(0), CallConfig::default(), None).unwrap();
    }

    pub fn candidate(n: u8) -> signaling::IceCandidate {
        signaling::IceCandidate::from_v3_sdp(format!("c{n}")).unwrap()
    }
    pub fn no_media() -> MediaStream {
        MediaStream::new(ringrtc::webrtc::Arc::null())
    }

    /// The call of the world below.
    pub const ID: u64 = 5;
    const IDS: [u64; 4] = [4, 5, 6, 7];

    /// A call manager, its application, and a call with peer 1 in any of its stages.
    pub struct World {
        pub app: App,
        pub cm: Cm,
        pub now: u64,
        used: u64,
        reset: bool,
        /// things happened before others had been handled
        pub racing: bool,
    }

    impl World {
        pub fn new() -> World {
            sx::clock(1_000_000_000_000);
            let (app, cm) = new();
            World { app, cm, now: 1_000_000_000_000, used: 1 << ID, reset: false, racing: false }
        }
        /// The same world for another thread.
        pub fn again(w: &World) -> World {
            World { app: w.app.clone(), cm: w.cm.clone(), ..*w }
        }
        pub fn id(&self) -> CallId {
            CallId::new(ID)
        }
        pub fn advance(&mut self, ns: u64) {
            self.now += ns;
            sx::clock(self.now);
        }
        /// The application confirms that its message was sent.
        pub fn sent(&mut self) {
            self.cm.message_sent(self.id()).unwrap();
            sx::idle();
        }
        pub fn conn(&self, device: u32) -> Option<Connection<App>> {
            self.cm.active_call().ok().and_then(|c| c.get_connection(device).ok())
        }
        /// An incoming call: 1 offered, 2 proceeding, 3 ringing, 4 accepted.
        pub fn incoming(&mut self, stage: u64) {
            if stage >= 1 {
                self.cm.received_offer(Peer(1), self.id(), offer(1, Duration::ZERO)).unwrap();
                sx::idle();
            }
            if stage >= 2 {
                proceed(&mut self.cm, ID);
                sx::idle();
                self.sent();
            }
            if stage >= 3 {
                let mut c = self.conn(1).unwrap();
                c.inject_ice_connected().unwrap();
                c.handle_received_incoming_media(no_media()).unwrap();
                sx::idle();
            }
            if stage >= 4 {
                self.cm.accept_call(self.id()).unwrap();
                sx::idle();
            }
        }
        /// An outgoing call: 1 started, 2 offer sent, 3 ringing, 4 accepted.
        pub fn outgoing(&mut self, stage: u64) {
            if stage >= 1 {
                self.cm
                    .create_outgoing_call(Peer(1), self.id(), CallMediaType::Audio, 1)
                    .unwrap();
                sx::idle();
            }
            if stage >= 2 {
                proceed(&mut self.cm, ID);
                sx::idle();
                self.sent();
            }
            if stage >= 3 {
                self.answered(1);
            }
            if stage >= 4 {
                self.accepted(1);
            }
        }
        /// A device of the callee answers and connects.
        pub fn answered(&mut self, device: DeviceId) {
            self.cm.received_answer(Peer(1), self.id(), answer(device)).unwrap();
            sx::idle();
            let mut c = self.conn(device).unwrap();
            c.inject_ice_connected().unwrap();
            c.inject_received_incoming_media(no_media()).unwrap();
            sx::idle();
        }
        /// A device of the callee accepts.
        pub fn accepted(&mut self, device: DeviceId) {
            let mut c = self.conn(device).unwrap();
            c.inject_received_accepted_via_rtp_data(self.id()).unwrap();
            sx::idle();
        }
        pub const OPS: u64 = 23;
        pub const ACCEPT: u64 = 2;
        pub const ACCEPTED: u64 = 20;
        /// Anything the application, the network or the clock may do next.
        pub fn step(&mut self, op: u64) {
            let id = self.id();
            let call = self.cm.active_call().ok();
            match op {
                0 => {
                    let (id, peer) = [(4, 1), (6, 1), (6, 2)][sx::pick(0, 2) as usize];
                    self.fresh(id);
                    self.cm
                        .received_offer(Peer(peer), CallId::new(id), offer(1, Duration::ZERO))
                        .unwrap();
                }
                1 => proceed(&mut self.cm, ID),
                2 => self.cm.accept_call(id).unwrap(),
                3 => self.cm.hangup().unwrap(),
                4 => self.cm.drop_call(id).unwrap(),
                5 => self.cm.message_sent(id).unwrap(),
                6 => self.cm.message_send_failure(id).unwrap(),
                7 => self.cm.received_hangup(Peer(1), id, hangup(1, Hangup::Normal)).unwrap(),
                8 => self
                    .cm
                    .received_hangup(Peer(1), id, hangup(1, Hangup::AcceptedOnAnotherDevice(2)))
                    .unwrap(),
                9 => self
                    .cm
                    .received_busy(Peer(1), id, signaling::ReceivedBusy { sender_device_id: 1 })
                    .unwrap(),
                10 => {
                    let device = sx::conc(sx::range(1, 2)) as u32;
                    self.cm.received_answer(Peer(1), id, answer(device)).unwrap()
                }
                11 => self.cm.received_ice(Peer(1), id, ice(1)).unwrap(),
                12 => self.advance(61_000_000_000),
                13 => {
                    self.cm.reset().unwrap();
                    self.reset = true;
                }
                14 => {
                    let peer = sx::conc(sx::range(1, 2)) as u8;
                    self.fresh(7);
                    let before = if self.racing { None } else { self.active() };
                    self.cm
                        .create_outgoing_call(Peer(peer), CallId::new(7), CallMediaType::Audio, 1)
                        .unwrap();
                    if before.is_some() {
                        sx::idle();
                        // refused, and the active call goes on
                        sx::check!(self.active() == before);
                        sx::check!(self.app.ended(7) == [CallEndReason::InternalFailure]);
                    }
                }
                15 => {
                    let Some(mut c) = call else {
                        sx::assume(false);
                        return;
                    };
                    c.inject_internal_error(anyhow::anyhow!("x"), "x");
                }
                k => {
                    let Some(mut c) = call.and_then(|c| c.get_connection(1).ok()) else {
                        sx::assume(false);
                        return;
                    };
                    match k {
                        16 => c.inject_ice_connected().unwrap(),
                        17 => c.inject_ice_failed().unwrap(),
                        18 => c.inject_ice_disconnected().unwrap(),
                        19 => c.inject_internal_error(anyhow::anyhow!("x"), "x"),
                        20 => c.inject_received_accepted_via_rtp_data(id).unwrap(),
                        21 => {
                            c.inject_local_ice_candidate(candidate(9), true, "c", None).unwrap()
                        }
                        _ => c.inject_received_incoming_media(no_media()).unwrap(),
                    }
                }
            }
        }
        pub fn active(&self) -> Option<u64> {
            self.cm.active_call().ok().map(|c| c.call_id().as_u64())
        }
        pub fn free_step(&mut self) {
            let op = sx::pick(0, Self::OPS - 1);
            self.step(op);
        }
        fn fresh(&mut self, id: u64) {
            sx::assume(self.used & (1 << id) == 0);
            self.used |= 1 << id;
        }
        /// What the application was told about a call is one call's life.
        fn life(&self, id: u64) -> (u32, u32, u32) {
            let (mut started, mut ended, mut concluded, mut peer) = (0, 0, 0, 0);
            for r in self.app.log().iter().filter(|r| r.id == id) {
                if r.peer != 0 {
                    sx::check!(peer == 0 || peer == r.peer);
                    peer = r.peer;
                }
                sx::check!(concluded == 0);
                match r.ev {
                    Ev::Start(..) => {
                        started += 1;
                        sx::check!(started == 1 && (ended == 0 || self.racing));
                    }
                    Ev::Ended(_) => {
                        ended += 1;
                        sx::check!(ended == 1);
                    }
                    Ev::Concluded => concluded += 1,
                    // told to the other side after the call's end
                    Ev::Hangup(_) | Ev::Busy => {}
                    // before the start only what refuses the call
                    Ev::Event(
                        ApplicationEvent::ReceivedOfferWhileActive
                        | ApplicationEvent::ReceivedOfferWithGlare
                        | ApplicationEvent::GlareHandlingFailure,
                    ) => sx::check!(started == 0 && ended == 0),
                    _ => sx::check!((started == 1 && ended == 0) || self.racing),
                }
            }
            (started, ended, concluded)
        }
        /// At any point at which everything has been handled.
        pub fn sane(&self) {
            let active = self.active();
            sx::check!(self.cm.busy() == active.is_some());
            for id in IDS {
                let (started, ended, concluded) = self.life(id);
                if active == Some(id) {
                    sx::check!(started == 1 && ended == 0 && concluded == 0);
                } else if !self.reset {
                    sx::check!(started == 0 || ended == 1);
                }
            }
        }
        /// The application hangs up and confirms what it has sent: everything is over.
        pub fn finish(&mut self) {
            sx::idle();
            self.sane();
            self.cm.hangup().unwrap();
            for _ in 0..5 {
                sx::idle();
                self.cm.message_sent(self.id()).unwrap();
            }
            sx::idle();
            sx::check!(!self.cm.busy());
            for id in IDS {
                let (started, ended, concluded) = self.life(id);
                sx::check!(started <= ended || self.reset);
                if id == 7 && self.used & (1 << 7) != 0 {
                    // refused or not, a call that the application asks for is accounted for
                    sx::check!(concluded == 1);
                }
                sx::check!(concluded == 1 || self.app.of(id).is_empty());
            }
        }
    }
}
