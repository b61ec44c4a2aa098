//! Pseudo-terminals, set to pass bytes as they are.
use std::ffi::{c_char, c_int, CStr};
use std::fs::{File, OpenOptions};
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::OpenOptionsExt;
use std::sync::mpsc::{channel, Receiver};

unsafe extern "C" {
    fn posix_openpt(flags: c_int) -> c_int;
    fn grantpt(fd: c_int) -> c_int;
    fn unlockpt(fd: c_int) -> c_int;
    fn ptsname_r(fd: c_int, buf: *mut c_char, len: usize) -> c_int;
    fn tcgetattr(fd: c_int, t: *mut Termios) -> c_int;
    fn tcsetattr(fd: c_int, when: c_int, t: *const Termios) -> c_int;
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Termios {
    iflag: u32,
    oflag: u32,
    cflag: u32,
    lflag: u32,
    rest: [u32; 32],
}

const O_RDWR: c_int = 2;
const O_NOCTTY: c_int = 0o400;
const O_CLOEXEC: c_int = 0o2000000;
const ICANON: u32 = 2;

/// (our end, the program's end); none where there are no terminals.
pub fn open() -> Option<(File, File)> {
    unsafe {
        let m = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
        if m < 0 {
            return None;
        }
        let ours = File::from_raw_fd(m);
        let mut name = [0 as c_char; 128];
        if grantpt(m) != 0 || unlockpt(m) != 0 || ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return None;
        }
        let name = CStr::from_ptr(name.as_ptr()).to_str().ok()?;
        let theirs = OpenOptions::new().read(true).write(true).custom_flags(O_NOCTTY).open(name).ok()?;
        let mut t = Termios { iflag: 0, oflag: 0, cflag: 0, lflag: 0, rest: [0; 32] };
        if tcgetattr(theirs.as_raw_fd(), &mut t) != 0 {
            return None;
        }
        // Lines and an end of input, and nothing else.
        t.iflag = 0;
        t.oflag = 0;
        t.lflag = ICANON;
        if tcsetattr(theirs.as_raw_fd(), 0, &t) != 0 {
            return None;
        }
        Some((ours, theirs))
    }
}

/// What arrives there.
pub fn drain(ours: &File) -> Receiver<Vec<u8>> {
    let mut f = ours.try_clone().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut b = [0u8; 8192];
        // Reading fails once nobody holds the other end.
        while let Ok(n) = f.read(&mut b) {
            if n == 0 || tx.send(b[..n].to_vec()).is_err() {
                break;
            }
        }
    });
    rx
}
