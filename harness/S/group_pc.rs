//@ property=L02
//@ append=src/rust/src/webrtc/peer_connection.rs
// The simulated peer connection's outgoing media, for group_state.rs.
use super::*;
impl PeerConnection {
    pub fn sends_media(&self) -> bool {
        unsafe { self.rffi.as_borrowed().as_ref().unwrap().outgoing_audio_enabled() }
    }
}
