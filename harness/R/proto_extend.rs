//@ property=G01
// Fragmented messages to and from the SFU.
use ringrtc::protobuf::group_call::*;

fn header() -> Option<MrpHeader> {
    match sx::pick(0, 2) {
        0 => None,
        1 => Some(MrpHeader { seqnum: Some(sx::u64()), ack_num: None, num_packets: None }),
        _ => Some(MrpHeader { seqnum: Some(sx::u64()), ack_num: None, num_packets: Some(sx::u32()) }),
    }
}
fn content() -> Option<Vec<u8>> {
    match sx::pick(0, 2) {
        0 => None,
        1 => Some(sx::vec(1)),
        _ => Some(sx::vec(3)),
    }
}

//@ harness bound="a_message_extended_with_0..2_others,any_contents_of_0,1,3_bytes,either_direction"
#[unsafe(no_mangle)]
pub extern "C" fn hx_g_extend() {
    let (h, c) = (header(), content());
    let rest: Vec<_> = (0..sx::pick(0, 2)).map(|_| content()).collect();
    let open = h.is_some_and(|h| h.num_packets.is_some());
    let mut want = c.clone();
    if open {
        let mut w = c.clone().unwrap_or_default();
        for r in rest.iter().flatten() {
            w.extend_from_slice(r);
        }
        want = Some(w);
    }
    // whatever headers the fragments carry
    let hs: Vec<_> = rest.iter().map(|_| if sx::concb(sx::bool()) { None } else { h }).collect();
    if sx::concb(sx::bool()) {
        let mut m = SfuToDevice { mrp_header: h, content: c, ..Default::default() };
        m.extend(rest.iter().zip(hs).map(|(r, h)| SfuToDevice {
            mrp_header: h,
            content: r.clone(),
            ..Default::default()
        }));
        sx::check!(m.content == want);
        sx::check!(m.mrp_header == h);
        sx::cover!(open && rest.len() == 2);
    } else {
        let mut m = DeviceToSfu { mrp_header: h, content: c, ..Default::default() };
        m.extend(rest.iter().zip(hs).map(|(r, h)| DeviceToSfu {
            mrp_header: h,
            content: r.clone(),
            ..Default::default()
        }));
        sx::check!(m.content == want);
        sx::check!(m.mrp_header == h);
        sx::cover!(open && rest.len() == 2);
    }
}
