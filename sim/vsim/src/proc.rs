//! Every run happens in a process of its own, forked from a pristine worker.
use std::io::Read;
use std::os::fd::FromRawFd;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}
/// Run `f` in a child; what it returns comes back through a pipe.
pub fn isolated(cpu_s: u64, f: impl FnOnce() -> Vec<u8>) -> (Vec<u8>, End) {
    let mut fds = [0i32; 2];
    // SAFETY: plain libc calls; the calling process is single-threaded.
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            let out = f();
            let mut i = 0;
            while i < out.len() {
                let n = libc::write(fds[1], out[i..].as_ptr().cast(), out.len() - i);
                if n <= 0 {
                    break;
                }
                i += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut p = std::fs::File::from_raw_fd(fds[0]);
        let mut v = vec![];
        let _ = p.read_to_end(&mut v);
        drop(p);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted {
                return (v, End::Exit(255));
            }
        }
        let e = if libc::WIFSIGNALED(st) { End::Signal(libc::WTERMSIG(st)) } else { End::Exit(libc::WEXITSTATUS(st)) };
        (v, e)
    }
}
/// zeroed memory shared with everything forked from here
pub fn shared(bytes: usize) -> *mut u8 {
    // SAFETY: anonymous shared mapping, checked.
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), bytes.max(4096), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            panic!("mmap");
        }
        p.cast()
    }
}
/// memory a child shares with its parent: which operation each task is at
pub struct Progress(*mut u32);
pub const SLOTS: usize = 16;
impl Progress {
    pub fn new() -> Progress {
        // SAFETY: anonymous shared mapping, checked.
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            if p == libc::MAP_FAILED {
                panic!("mmap");
            }
            Progress(p.cast())
        }
    }
    pub fn set(&self, task: usize, v: u32) {
        // SAFETY: in bounds of the mapping
        unsafe { std::ptr::write_volatile(self.0.add(task % SLOTS), v) }
    }
    pub fn get(&self, task: usize) -> u32 {
        // SAFETY: in bounds of the mapping
        unsafe { std::ptr::read_volatile(self.0.add(task % SLOTS)) }
    }
    pub fn clear(&self) {
        (0..SLOTS).for_each(|i| self.set(i, 0));
    }
}
// SAFETY: plain words; one writer per slot
unsafe impl Sync for Progress {}
unsafe impl Send for Progress {}

static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x5EED);
/// What the system's randomness is from here on.
pub fn randomness(seed: u64) {
    SEED.store(seed, std::sync::atomic::Ordering::SeqCst);
}
/// Randomness of the process: hash maps and everything else that asks the system gets this.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.fetch_add(0x9E37_79B9_7F4A_7C15, std::sync::atomic::Ordering::SeqCst);
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        // SAFETY: the caller's buffer
        unsafe { *buf.add(i) = (x >> 24) as u8 }
    }
    len as isize
}
