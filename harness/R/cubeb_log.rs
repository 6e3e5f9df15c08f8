//@ property=P01
// What Cubeb logs of devices: no more than the beginning of their names and ids is kept.
use ringrtc::webrtc::audio_device_module::AudioDeviceModule;
use std::ffi::{CString, c_char};
use std::sync::Mutex;

unsafe extern "C" {
    fn rust_write_formatted_msg_0_36_0(s: *const c_char);
}
static SAID: Mutex<Vec<String>> = Mutex::new(Vec::new());
struct Keep;
impl log::Log for Keep {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = r.args().to_string();
        if s.starts_with("cubeb: ") {
            SAID.lock().unwrap().push(s);
        }
    }
    fn flush(&self) {}
}
fn cubeb_says(s: &str) -> Vec<String> {
    let s = CString::new(s).unwrap();
    unsafe { rust_write_formatted_msg_0_36_0(s.as_ptr()) };
    std::mem::take(&mut SAID.lock().unwrap())
}
fn start() -> AudioDeviceModule {
    log::set_logger(&Keep).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    AudioDeviceModule::new().unwrap()
}
fn kept(s: &str) -> String {
    let n = if s.is_ascii() { 4 } else { 1 };
    match s.char_indices().nth(n) {
        Some((i, _)) => format!("{}...", &s[..i]),
        None => s.to_string(),
    }
}
const NAMES: [&str; 6] = ["Micro", "ophone", "Microphone", "\u{4f60}\u{597d}", "", "Mic"];
fn name(n: u64, unknown: bool) -> String {
    let k = sx::pick(0, n - !unknown as u64) as usize;
    if k < n as usize {
        return NAMES[k].to_string();
    }
    // one letter of it any of six
    format!("xyz{}w", b"uvwxyz"[sx::pick(0, 5) as usize] as char)
}
//@ harness bound="6_sorts_of_lines,names_of_4_or_6_sorts_or_5_letters"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_cubeb() {
    let _a = start();
    let kind = sx::pick(0, 5);
    let two = kind == 0 || kind == 5;
    let a = name(if two { 4 } else { 6 }, kind < 2);
    let b = if two { name(4, false) } else { String::new() };
    let line = |a: &str, b: &str| match kind {
        0 => format!("Found matching device for {a}: {b}"),
        1 => format!("collection: Audio device default changed, id = {a}."),
        2 => format!("collection: Audio device state changed, id = {a}, state = 1."),
        3 => format!("endpoint: Audio device default changed flow=1 role=2 new_device_id={a}."),
        4 => format!("Device 12 ({a}) has 2 INPUT-channels"),
        _ => format!(
            "Input uid=\"{b}\", model_uid=\"{a}\", transport_type=\"usb\", source=\"\", \
             source_name=\"{a}\", name=\"{b}\", manufacturer=\"Maker\""
        ),
    };
    let said = cubeb_says(&format!("f.cpp:12:{}", line(&a, &b)));
    sx::check!(said == [format!("cubeb: f.cpp:12:{}", line(&kept(&a), &kept(&b)))]);
    sx::cover!(two && a == "ophone" && b == "Microphone");
    sx::cover!(two && a.starts_with("xyz") && !b.is_ascii());
}
//@ harness bound="5_lines"
#[unsafe(no_mangle)]
pub extern "C" fn hx_p_cubeb_other() {
    let _a = start();
    for (s, want) in [
        ("f.cpp:12:All is well", Some("cubeb: f.cpp:12:All is well")),
        ("All is well", None),
        ("f.cpp:12:DeviceID: \"My own\" Name: \"My own\"", None),
        ("f.cpp:12:Found matching device for Mine: Mine2\nMy own", Some("cubeb: f.cpp:12:Found matching device for Mine: Mine...")),
        ("", None),
    ] {
        sx::check!(cubeb_says(s) == want.into_iter().collect::<Vec<_>>());
    }
    sx::cover!();
}
