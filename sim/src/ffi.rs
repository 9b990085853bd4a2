// Bindings to the simulator core (csrc/) and small safe wrappers.
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_long};

pub const NKINDS: usize = 23;
pub const KIND_NAMES: [&str; NKINDS] = [
    "sched", "preempt", "stall", "spurious_wakeup", "open_err", "read_eio", "read_short", "read_eintr",
    "write_eio", "write_enospc", "write_short", "write_eintr", "stat_err", "readdir_err", "meta_err",
    "disk_stall", "watch_err", "inotify_loss", "spawn_err", "clock_jump", "kill", "sched_time", "pipe_short",
];
pub const SCHED: usize = 0; pub const PREEMPT: usize = 1; pub const STALL: usize = 2; pub const SPURIOUS: usize = 3;
pub const OPEN_ERR: usize = 4; pub const READ_EIO: usize = 5; pub const READ_SHORT: usize = 6; pub const READ_EINTR: usize = 7;
pub const WRITE_EIO: usize = 8; pub const WRITE_ENOSPC: usize = 9; pub const WRITE_SHORT: usize = 10; pub const WRITE_EINTR: usize = 11;
pub const STAT_ERR: usize = 12; pub const READDIR_ERR: usize = 13; pub const META_ERR: usize = 14; pub const DISK_STALL: usize = 15;
pub const WATCH_ERR: usize = 16; pub const INOTIFY_LOSS: usize = 17; pub const SPAWN_ERR: usize = 18; pub const CLOCK_JUMP: usize = 19;
pub const KILL: usize = 20; pub const PIPE_SHORT: usize = 22;

#[repr(C)] #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Decision { pub kind: u32, pub pad: u32, pub idx: u64, pub val: u32, pub pad2: u32 }

#[repr(C)] #[derive(Clone, Copy)]
pub struct SimConfig {
    pub seed: u64, pub replay: u32, pub table: *const Decision, pub ntable: u64,
    pub sched_prob: u32, pub policy: u32, pub preempt_mean: u64, pub max_ticks: u64, pub max_points: u64,
    pub prob: [u32; NKINDS], pub max: [u32; NKINDS],
    pub inotify_queue: u32, pub ns_per_tick: u32, pub trace: u32, pub disk_bytes: u64,
}
pub const LOGCAP: usize = 200000;
pub const MSGCAP: usize = 16384;
#[repr(C)]
pub struct SimShared {
    pub status: u32, pub nlog: u32, pub overflow: u32,
    pub ticks: u64, pub points: u64, pub switches: u64, pub preempts: u64, pub sim_ns: u64, pub trace_hash: u64, pub order_hash: u64, pub nthreads: u64,
    pub fired: [u64; NKINDS], pub asked: [u64; NKINDS], pub edges: u64, pub probes: [u64; 64], pub escapes: u64, pub opcount: u64,
    pub msg: [u8; MSGCAP], pub log: [Decision; LOGCAP],
}
pub const OK: u32 = 0; pub const RUNNING: u32 = 1; pub const DEADLOCK: u32 = 2; pub const LIVELOCK: u32 = 3; pub const VIOLATION: u32 = 4; pub const HARNESS: u32 = 5;

extern "C" {
    pub fn sim_alloc(n: usize, a: usize) -> *mut u8;
    pub fn sim_free(p: *mut u8, n: usize, a: usize);
    pub fn sim_usable(n: usize) -> usize;
    pub static mut sim_arena_on: c_int;
    pub fn sim_preinit();
    pub fn sim_noaslr(argv: *const *const c_char) -> c_int;
    pub fn sim_start(cfg: *const SimConfig, sh: *mut SimShared, hash_seed: u64);
    pub fn sim_end();
    pub fn sim_edges_prepare();
    pub fn sim_edges_share(p: *mut u8, cap: u64);
    pub fn sim_edges_total() -> u64;
    fn sim_fail(m: *const c_char);
    fn sim_harness_error(m: *const c_char);
    fn sim_set_faults(m: u64);
    fn sim_get_faults() -> u64;
    fn sim_faults_off_all();
    fn sim_set_nosched(v: c_int);
    fn sim_probe(i: c_int);
    fn sim_now() -> u64;
    fn sim_seq() -> u64;
    fn sim_note(m: *const c_char);
    fn sim_thread_id() -> c_int;
    fn sim_set_proc(p: c_int);
    fn sim_mark_main();
    fn sim_wait_proc(p: c_int) -> c_int;
    fn sim_is_active() -> c_int;
    fn sim_fs_put(p: *const c_char, d: *const u8, n: usize) -> c_int;
    fn sim_fs_mkdir(p: *const c_char) -> c_int;
    fn sim_fs_get(p: *const c_char, d: *mut u8, n: usize) -> c_long;
    fn sim_fs_type(p: *const c_char) -> c_int;
    fn sim_fs_bad(p: *const c_char, b: c_int) -> c_int;
    fn sim_fs_isbad(p: *const c_char) -> c_int;
    fn sim_fs_remove(p: *const c_char) -> c_int;
    fn sim_fs_list(p: *const c_char, out: *mut u8, cap: usize, files: c_int) -> usize;
    fn sim_set_disk(n: u64);
    fn sim_set_inotify_limit(n: u32);
    fn sim_inotify_pending() -> c_int;
    fn sim_open_fds() -> c_int;
    fn sim_set_spawn_handler(h: Option<extern "C" fn(c_int, c_int, *const *const c_char) -> c_int>);
    fn sim_child_read(pid: c_int, b: *mut u8, n: usize) -> c_long;
    fn sim_child_write(pid: c_int, fd: c_int, b: *const u8, n: usize) -> c_long;
    fn sim_child_has(pid: c_int, fd: c_int) -> c_int;
    fn sim_mem_peak() -> u64;
    fn sim_ticks() -> u64;
}
fn c(s: &str) -> CString { CString::new(s.replace('\0', "\\0")).unwrap() }

/// Ends the run with a violation. The text before the first ':' is the violation class.
pub fn fail(msg: &str) -> ! { unsafe { sim_fail(c(msg).as_ptr()); } loop {} }
pub fn harness_error(msg: &str) -> ! { unsafe { sim_harness_error(c(msg).as_ptr()); } loop {} }
pub fn set_faults(kinds: &[usize]) { let mut m = 0u64; for k in kinds { m |= 1 << k; } unsafe { sim_set_faults(m) } }
pub fn set_fault_mask(m: u64) { unsafe { sim_set_faults(m) } }
pub fn fault_mask() -> u64 { unsafe { sim_get_faults() } }
pub fn faults_off_all() { unsafe { sim_faults_off_all() } }
/// Runs `f` without being preempted or descheduled (oracle code). Only for code that cannot block.
pub fn atomically<T>(f: impl FnOnce() -> T) -> T { let m = fault_mask(); unsafe { sim_set_faults(0); sim_set_nosched(1) }; let r = f(); unsafe { sim_set_nosched(0); sim_set_faults(m) }; r }
pub fn probe(i: usize) { unsafe { sim_probe(i as c_int) } }
pub fn now() -> u64 { unsafe { sim_now() } }
pub fn seq() -> u64 { unsafe { sim_seq() } }
pub fn note(s: &str) { unsafe { sim_note(c(s).as_ptr()) } }
pub fn tid() -> i32 { unsafe { sim_thread_id() } }
pub fn active() -> bool { unsafe { sim_is_active() != 0 } }
pub fn set_proc(p: i32, main: bool) { unsafe { sim_set_proc(p); if main { sim_mark_main() } } }
pub fn wait_proc(p: i32) -> i32 { unsafe { sim_wait_proc(p) } }
pub fn fs_put(p: &str, d: &[u8]) { let r = unsafe { sim_fs_put(c(p).as_ptr(), d.as_ptr(), d.len()) }; if r != 0 { harness_error(&format!("fs_put {} -> {}", p, r)) } }
pub fn fs_mkdir(p: &str) { let mut cur = String::new(); for part in p.split('/').filter(|s| !s.is_empty()) { cur.push('/'); cur.push_str(part); if cur == "/sim" { continue } unsafe { sim_fs_mkdir(c(&cur).as_ptr()) }; } }
pub fn fs_get(p: &str) -> Option<Vec<u8>> { let cp = c(p); let n = unsafe { sim_fs_get(cp.as_ptr(), std::ptr::null_mut(), 0) }; if n < 0 { return None } let mut v = vec![0u8; n as usize]; unsafe { sim_fs_get(cp.as_ptr(), v.as_mut_ptr(), v.len()) }; Some(v) }
pub fn fs_type(p: &str) -> i32 { unsafe { sim_fs_type(c(p).as_ptr()) } }
pub fn fs_bad(p: &str, b: i32) { unsafe { sim_fs_bad(c(p).as_ptr(), b); } }
pub fn fs_isbad(p: &str) -> bool { unsafe { sim_fs_isbad(c(p).as_ptr()) != 0 } }
pub fn fs_remove(p: &str) { unsafe { sim_fs_remove(c(p).as_ptr()); } }
pub fn fs_list(p: &str, files: bool) -> Vec<String> { let mut b = vec![0u8; 1 << 18]; let n = unsafe { sim_fs_list(c(p).as_ptr(), b.as_mut_ptr(), b.len(), files as c_int) }; let mut v: Vec<String> = b[..n].split(|&x| x == 0).filter(|s| !s.is_empty()).map(|s| String::from_utf8_lossy(s).into_owned()).collect(); v.sort(); v }
pub fn set_disk(n: u64) { unsafe { sim_set_disk(n) } }
pub fn set_inotify_limit(n: u32) { unsafe { sim_set_inotify_limit(n) } }
pub fn inotify_pending() -> i32 { unsafe { sim_inotify_pending() } }
pub fn open_fds() -> i32 { unsafe { sim_open_fds() } }
pub fn set_spawn_handler(h: extern "C" fn(c_int, c_int, *const *const c_char) -> c_int) { unsafe { sim_set_spawn_handler(Some(h)) } }
pub fn child_read_all(pid: c_int) -> Vec<u8> { let mut out = Vec::new(); let mut b = [0u8; 4096]; loop { let n = unsafe { sim_child_read(pid, b.as_mut_ptr(), b.len()) }; if n <= 0 { return out } out.extend_from_slice(&b[..n as usize]) } }
pub fn child_write(pid: c_int, fd: c_int, mut d: &[u8]) -> bool { while !d.is_empty() { let n = unsafe { sim_child_write(pid, fd, d.as_ptr(), d.len()) }; if n <= 0 { return false } d = &d[n as usize..]; } true }
pub fn child_has(pid: c_int, fd: c_int) -> bool { unsafe { sim_child_has(pid, fd) != 0 } }
pub fn mem_peak() -> u64 { unsafe { sim_mem_peak() } }
pub static mut SHARED: *mut SimShared = std::ptr::null_mut();
/// How often a fault of one of the kinds has fired in this run.
pub fn fired(kinds: &[usize]) -> u64 { unsafe { if SHARED.is_null() { 0 } else { kinds.iter().map(|k| std::ptr::read_volatile(&(*SHARED).fired[*k])).sum() } } }
pub fn ticks() -> u64 { unsafe { sim_ticks() } }
pub fn sleep_ms(ms: u64) { std::thread::sleep(std::time::Duration::from_millis(ms)) }

pub struct SimAlloc;
unsafe impl std::alloc::GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { sim_alloc(l.size(), l.align()) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { sim_free(p, l.size(), l.align()) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        let q = sim_alloc(new, l.align());
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(new)); sim_free(p, l.size(), l.align()); }
        q
    }
}
