/// Reference counts of the objects handed out by WebRTC's stand-ins.
pub mod rc {
    use std::ffi::c_void;
    use std::sync::Mutex;
    static GONE: Mutex<Vec<usize>> = Mutex::new(Vec::new());
    static COUNTS: Mutex<Vec<(usize, i32)>> = Mutex::new(Vec::new());
    /// A new object with one reference.
    pub fn new<T>(p: *const T) -> *const T {
        COUNTS.lock().unwrap().push((p as usize, 1));
        p
    }
    pub fn count<T>(p: *const T) -> i32 {
        let c = COUNTS.lock().unwrap();
        c.iter().find(|x| x.0 == p as usize).map_or(0, |x| x.1)
    }
    /// The objects that have lost their last reference, in that order.
    pub fn gone() -> Vec<usize> {
        GONE.lock().unwrap().clone()
    }
    pub fn note_gone(p: usize) {
        GONE.lock().unwrap().push(p);
    }
    fn add(p: *const c_void, n: i32) {
        let mut c = COUNTS.lock().unwrap();
        if let Some(x) = c.iter_mut().find(|x| x.0 == p as usize) {
            // a reference to what is gone
            sx::check!(x.1 > 0);
            x.1 += n;
            if x.1 == 0 {
                GONE.lock().unwrap().push(p as usize);
            }
        }
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn Rust_incRc(p: *const c_void) {
        add(p, 1);
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn Rust_decRc(p: *const c_void) {
        add(p, -1);
    }
}
