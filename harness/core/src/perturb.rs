//! Makes threads of this process stop at arbitrary instructions: a helper sends signals to
//! random threads, and the handler sleeps for a moment. Narrow windows between two
//! instructions get wide enough for other threads to run in them.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

static PAUSES: AtomicU64 = AtomicU64::new(0);
static STATE: AtomicU64 = AtomicU64::new(0x9e37_79b9_7f4a_7c15);

extern "C" fn pause(_: libc::c_int) {
    // Only async-signal-safe calls here; errno belongs to the interrupted code.
    unsafe {
        let e = *libc::__errno_location();
        let n = PAUSES.fetch_add(1, Ordering::Relaxed);
        let x = (n ^ STATE.load(Ordering::Relaxed)).wrapping_mul(0xd134_2543_de82_ef95) >> 40;
        match x % 4 {
            0 => {
                libc::sched_yield();
            }
            k => {
                let t = libc::timespec { tv_sec: 0, tv_nsec: [0, 5_000, 60_000, 300_000][k as usize] };
                libc::nanosleep(&t, std::ptr::null_mut());
            }
        }
        *libc::__errno_location() = e;
    }
}

fn running(tid: i64) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) else { return false };
    s.rsplit(") ").next().is_some_and(|r| r.starts_with('R'))
}

/// Signals flow while this lives.
pub struct Perturb {
    stop: Arc<AtomicBool>,
    helper: Option<std::thread::JoinHandle<()>>,
}

impl Perturb {
    /// `gap` is the time between signals in microseconds.
    pub fn start(seed: u64, gap: u64) -> Perturb {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = pause as extern "C" fn(libc::c_int) as usize;
            a.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGUSR2, &a, std::ptr::null_mut());
        }
        STATE.store(seed, Ordering::Relaxed);
        let stop = Arc::new(AtomicBool::new(false));
        let s2 = stop.clone();
        let helper = std::thread::spawn(move || {
            let me = unsafe { libc::syscall(libc::SYS_gettid) };
            unsafe { libc::prctl(libc::PR_SET_TIMERSLACK, 1) };
            let pid = std::process::id();
            let mut rng = crate::Rng::new(seed);
            let mut tids: Vec<i64> = vec![];
            let mut k = 0u64;
            while !s2.load(Ordering::Relaxed) {
                // threads that are running; stopping one that waits shows nothing
                if k % 48 == 0 {
                    tids = std::fs::read_dir("/proc/self/task")
                        .map(|d| d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).filter(|t| *t != me && running(*t)).collect())
                        .unwrap_or_default();
                }
                k += 1;
                if !tids.is_empty() {
                    // a thread that ended meanwhile is no longer found in this process
                    unsafe { libc::syscall(libc::SYS_tgkill, pid as libc::c_long, rng.pick(&tids) as libc::c_long, libc::SIGUSR2) };
                }
                std::thread::sleep(std::time::Duration::from_nanos(rng.below(2000 * gap)));
            }
        });
        Perturb { stop, helper: Some(helper) }
    }
    /// Pauses so far in this process.
    pub fn pauses() -> u64 {
        PAUSES.load(Ordering::Relaxed)
    }
}
impl Drop for Perturb {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(h) = self.helper.take() {
            let _ = h.join();
        }
    }
}
