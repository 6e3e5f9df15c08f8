// A group call's client with recorded surroundings: the application, the SFU and the other devices.
use crate::{
    core::endorsements::EndorsementUpdateResult,
    lite::sfu::{MemberResolver, PeekDeviceInfo},
    protobuf::{
        group_call::{
            DeviceToDevice, MrpHeader, RemoteMuteRequest, device_to_device, device_to_sfu,
            sfu_to_device,
        },
        signaling::{CallMessage, call_message},
    },
    webrtc::sim::media::FAKE_AUDIO_TRACK,
};
use std::sync::Mutex;
use zkgroup::EndorsementPublicKey;

pub const ME: DemuxId = 0x100;
pub const SEC: u64 = 1_000_000_000;

pub enum Ev {
    Proof,
    Members,
    Send(UserId, CallMessage, SignalingMessageUrgency),
    ToGroup(GroupId, CallMessage, SignalingMessageUrgency, HashSet<UserId>),
    ToAdhoc(CallMessage, u64, HashMap<UserId, Vec<u8>>),
    Endorsed(EndorsementUpdateResult),
    Conn(ConnectionState),
    Join(JoinState),
    Rates(SendRates),
    Devices(Vec<RemoteDeviceState>, RemoteDevicesChangedReason),
    Peek(PeekInfo, HashSet<UserId>),
    Levels,
    Bandwidth(bool),
    Reactions(Vec<Reaction>),
    Hands(Vec<DemuxId>),
    Mute(DemuxId),
    Observed(DemuxId, DemuxId),
    Ended(CallEndReason),
}
#[derive(Default)]
pub struct Seen {
    pub log: Mutex<Vec<Ev>>,
    pub peeks: Mutex<Vec<PeekResultCallback>>,
    pub joins: Mutex<Vec<(String, String, [u8; 32], Client)>>,
    pub rtp: Mutex<Vec<(rtp::Header, Vec<u8>)>>,
}
impl Seen {
    fn add(&self, e: Ev) {
        self.log.lock().unwrap().push(e)
    }
}
#[derive(Clone)]
struct App(Arc<Seen>);
impl Observer for App {
    fn request_membership_proof(&self, _: ClientId) {
        self.0.add(Ev::Proof)
    }
    fn request_group_members(&self, _: ClientId) {
        self.0.add(Ev::Members)
    }
    fn send_signaling_message(&mut self, to: UserId, m: CallMessage, u: SignalingMessageUrgency) {
        self.0.add(Ev::Send(to, m, u))
    }
    fn send_signaling_message_to_group(
        &mut self,
        group: GroupId,
        m: CallMessage,
        u: SignalingMessageUrgency,
        to: HashSet<UserId>,
    ) {
        self.0.add(Ev::ToGroup(group, m, u, to))
    }
    fn send_signaling_message_to_adhoc_group(
        &mut self,
        m: CallMessage,
        _: SignalingMessageUrgency,
        expiration: u64,
        to: HashMap<UserId, Vec<u8>>,
    ) {
        self.0.add(Ev::ToAdhoc(m, expiration, to))
    }
    fn handle_connection_state_changed(&self, _: ClientId, s: ConnectionState) {
        self.0.add(Ev::Conn(s))
    }
    fn handle_network_route_changed(&self, _: ClientId, _: NetworkRoute) {}
    fn handle_join_state_changed(&self, _: ClientId, s: JoinState) {
        self.0.add(Ev::Join(s))
    }
    fn handle_send_rates_changed(&self, _: ClientId, r: SendRates) {
        self.0.add(Ev::Rates(r))
    }
    fn handle_remote_devices_changed(
        &self,
        _: ClientId,
        d: &[RemoteDeviceState],
        why: RemoteDevicesChangedReason,
    ) {
        self.0.add(Ev::Devices(d.to_vec(), why))
    }
    fn handle_peek_changed(&self, _: ClientId, p: &PeekInfo, joined: &HashSet<UserId>) {
        self.0.add(Ev::Peek(p.clone(), joined.clone()))
    }
    fn handle_incoming_video_track(&mut self, _: ClientId, _: DemuxId, _: VideoTrack) {}
    fn handle_speaking_notification(&mut self, _: ClientId, _: SpeechEvent) {}
    fn handle_audio_levels(&self, _: ClientId, _: AudioLevel, _: Vec<ReceivedAudioLevel>) {}
    fn handle_low_bandwidth_for_video(&self, _: ClientId, recovered: bool) {
        self.0.add(Ev::Bandwidth(recovered))
    }
    fn handle_reactions(&self, _: ClientId, r: Vec<Reaction>) {
        self.0.add(Ev::Reactions(r))
    }
    fn handle_raised_hands(&self, _: ClientId, h: Vec<DemuxId>) {
        self.0.add(Ev::Hands(h))
    }
    fn handle_remote_mute_request(&self, _: ClientId, from: DemuxId) {
        self.0.add(Ev::Mute(from))
    }
    fn handle_observed_remote_mute(&self, _: ClientId, from: DemuxId, of: DemuxId) {
        self.0.add(Ev::Observed(from, of))
    }
    fn handle_rtc_stats_report(&self, _: String) {}
    fn handle_ended(&self, _: ClientId, why: CallEndReason, _: CallSummary) {
        self.0.add(Ev::Ended(why))
    }
    fn handle_endorsements_update(&self, _: ClientId, u: EndorsementUpdateResultRef) {
        self.0.add(Ev::Endorsed(u.map(|(expiration, of)| (expiration, of.clone()))))
    }
}
#[derive(Clone)]
struct Sfu(Arc<Seen>);
impl SfuClient for Sfu {
    fn join(&mut self, ufrag: &str, pwd: &str, key: [u8; 32], client: Client) {
        self.0.joins.lock().unwrap().push((ufrag.into(), pwd.into(), key, client));
    }
    fn peek(&mut self, result: PeekResultCallback) {
        self.0.peeks.lock().unwrap().push(result)
    }
    fn set_membership_proof(&mut self, _: MembershipProof) {}
    fn set_group_members(&mut self, _: Vec<GroupMember>) {}
}
/// User n has the user ID [n; 2] and is "n" to the SFU; other text names nobody.
struct Members;
impl MemberResolver for Members {
    fn resolve(&self, who: &str) -> Option<UserId> {
        who.parse().ok().map(user)
    }
    fn resolve_bytes(&self, who: &[u8]) -> Option<UserId> {
        if who.len() == 17 && who[0] == LINK {
            return Some(user(who[1]));
        }
        self.resolve(std::str::from_utf8(who).ok()?)
    }
}
/// The key of the call's link.
pub const LINK: u8 = 7;
pub fn user(n: u8) -> UserId {
    vec![n; 2]
}
pub const GROUP: &[u8] = b"group";
const ERA: &str = "1111111111111111";

pub struct G {
    pub seen: Arc<Seen>,
    pub client: Client,
    pub now: u64,
    pub busy: Arc<CallMutex<bool>>,
    /// the SFU's timestamps
    pub time: u32,
}
impl G {
    /// A client of user 1.
    pub fn new(ring: Option<RingId>) -> G {
        G::of(GroupCallKind::SignalGroup, ring, None, None)
    }
    /// A client of user 1 in a call link's call.
    pub fn of(
        kind: GroupCallKind,
        ring: Option<RingId>,
        key: Option<EndorsementPublicKey>,
        endorsements: Option<EndorsementsCache>,
    ) -> G {
        sx::clock(SEC);
        let seen = Arc::new(Seen::default());
        let busy = Arc::new(CallMutex::new(false, "busy"));
        let audio = AudioTrack::new(
            webrtc::Arc::from_owned(unsafe {
                webrtc::ptr::OwnedRc::from_ptr(&FAKE_AUDIO_TRACK as *const u32)
            }),
            None,
        );
        let client = Client::start(ClientStartParams {
            group_id: GROUP.to_vec(),
            client_id: 7,
            kind,
            sfu_client: Box::new(Sfu(seen.clone())),
            observer: Box::new(App(seen.clone())),
            busy: busy.clone(),
            self_uuid: Arc::new(CallMutex::new(Some(user(1)), "self")),
            asset_registry: AssetRegistry::default(),
            peer_connection_factory: None,
            outgoing_audio_track: audio,
            outgoing_video_track: None,
            incoming_video_sink: None,
            ring_id: ring,
            audio_levels_interval: None,
            dred_duration: 0,
            obfuscated_resolver: ObfuscatedResolver::new(Arc::new(Members), None, key),
            group_send_endorsement_cache: endorsements,
        })
        .unwrap();
        let to = seen.clone();
        client.actor.send(move |state| {
            state.peer_connection.set_rtp_packet_sink(Box::new(move |h, p: &[u8]| {
                to.rtp.lock().unwrap().push((h, p.to_vec()))
            }));
        });
        sx::idle();
        G { seen, client, now: SEC, busy, time: 0 }
    }
    pub fn advance(&mut self, ns: u64) {
        self.now += ns;
        sx::clock(self.now);
        sx::idle();
    }
    /// The SFU's answer to the last request to join.
    pub fn answer_join(&mut self, state: JoinState, creator: Option<UserId>) {
        let (_, _, key, client) = self.seen.joins.lock().unwrap().pop().unwrap();
        client.on_sfu_client_join_attempt_completed(Ok(joined(state, creator)));
        sx::idle();
    }
    /// A client that has joined, and knows of nobody else.
    pub fn joined(ring: Option<RingId>, creator: Option<UserId>) -> G {
        G::new(ring).join(creator)
    }
    pub fn join(self, creator: Option<UserId>) -> G {
        let mut g = self;
        g.client.set_membership_proof(vec![1]);
        g.client.connect();
        g.client.join();
        sx::idle();
        g.answer_join(JoinState::Joined(ME), creator);
        g
    }
    /// The SFU says who is in the call: (device, user); user 0 is nobody known.
    pub fn present(&mut self, devices: &[(DemuxId, u8)]) {
        self.sfu(SfuToDevice {
            device_joined_or_left: Some(DeviceJoinedOrLeft { peek_info: Some(peek_of(devices)) }),
            ..Default::default()
        });
        sx::idle();
    }
    pub fn sfu(&mut self, m: SfuToDevice) {
        self.time += 1;
        self.sfu_at(self.time, m);
    }
    pub fn sfu_at(&mut self, timestamp: u32, m: SfuToDevice) {
        let h = rtp::Header { pt: 101, ssrc: 1, seqnum: timestamp as u16, timestamp };
        self.client.handle_rtp_received(h, &m.encode_to_vec());
    }
    pub fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.seen.log.lock().unwrap())
    }
    pub fn take_rtp(&self) -> Vec<(rtp::Header, Vec<u8>)> {
        std::mem::take(&mut *self.seen.rtp.lock().unwrap())
    }
    pub fn frame(&self, media: &[u8]) -> Vec<u8> {
        let mut b = vec![0; media.len() + 21];
        let n = self.client.encrypt_media(media, &mut b).unwrap();
        sx::check!(n == b.len());
        b
    }
}
impl Drop for G {
    fn drop(&mut self) {
        std::mem::forget(self.client.clone());
    }
}
pub fn joined(state: JoinState, creator: Option<UserId>) -> Joined {
    Joined {
        sfu_info: SfuInfo {
            udp_addresses: vec![],
            tcp_addresses: vec![],
            tls_addresses: vec![],
            hostname: None,
            ice_ufrag: "ufrag".into(),
            ice_pwd: "pwd".into(),
        },
        local_demux_id: ME,
        server_dhe_pub_key: [9; 32],
        hkdf_extra_info: b"info".to_vec(),
        creator,
        era_id: ERA.into(),
        join_state: state,
    }
}
pub fn peek_of(devices: &[(DemuxId, u8)]) -> sfu_to_device::PeekInfo {
    sfu_to_device::PeekInfo {
        era_id: Some(ERA.into()),
        devices: devices
            .iter()
            .map(|(d, u)| sfu_to_device::peek_info::PeekDeviceInfo {
                demux_id: Some(*d),
                opaque_user_id: Some(if *u == 0 { "x".into() } else { u.to_string() }),
            })
            .collect(),
        ..Default::default()
    }
}
/// What another device makes of a frame from this one.
pub fn opens(keys: &mut frame_crypto::Context, frame: &[u8], media: &[u8]) -> bool {
    let n = frame.len() - 21;
    let mut data = frame[..n].to_vec();
    let counter = u32::from_be_bytes(frame[n + 1..n + 5].try_into().unwrap());
    let mac: [u8; 16] = frame[n + 5..].try_into().unwrap();
    let mut k = keys;
    k.decrypt(ME, frame[n], counter as u64, &mut data, &mac).is_ok() && data == media
}
