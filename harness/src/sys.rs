//! Stand-ins for the write and sync calls of the C library, which Rust's standard library links
//! against: they record, per watched file, how much of it was synced, and inject faults.
use std::collections::HashMap;
use std::ffi::{c_int, c_long, c_void};
use std::os::unix::fs::MetadataExt;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, OnceLock};

use parking_lot::{Mutex, RwLock};

unsafe extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const SYS_WRITE: c_long = 1;
const SYS_PWRITE64: c_long = 18;
const SYS_FSYNC: c_long = 74;
const SYS_FDATASYNC: c_long = 75;
const EIO: c_int = 5;
const ENOSPC: c_int = 28;

#[derive(Clone, Debug)]
pub enum Ev {
    /// Offset (None: at the file position) and length of a finished write.
    Write(#[allow(dead_code)] Option<u64>, #[allow(dead_code)] usize),
    /// A finished sync, with the length of the file when it was called.
    Sync(#[allow(dead_code)] u64),
}

/// What happens to one watched file.
#[derive(Default)]
pub struct Watch {
    pub synced: AtomicU64,
    pub syncs: AtomicU64,
    pub writes: AtomicU64,
    /// Bytes that may still be written before the device is full; negative: no limit.
    pub room: AtomicI64,
    /// Syncs that still succeed; negative: all of them.
    pub syncs_left: AtomicI64,
    /// Faults hit only once: the device works again afterwards.
    pub transient: AtomicBool,
    pub faults: AtomicU64,
    /// Delay before every sync, in microseconds.
    pub sync_delay: AtomicU64,
    pub record: AtomicBool,
    pub events: Mutex<Vec<(u64, Ev)>>,
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(1);
type Key = (u64, u64);
fn table() -> &'static RwLock<HashMap<Key, Arc<Watch>>> {
    static T: OnceLock<RwLock<HashMap<Key, Arc<Watch>>>> = OnceLock::new();
    T.get_or_init(Default::default)
}

/// Tick of the clock the events are stamped with.
pub fn now() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

pub struct Handle {
    key: Key,
    pub w: Arc<Watch>,
}
impl Drop for Handle {
    fn drop(&mut self) {
        table().write().remove(&self.key);
        ACTIVE.fetch_sub(1, SeqCst);
    }
}

/// Starts watching the file at `path`, which must exist.
pub fn watch(path: &str) -> Handle {
    let m = std::fs::metadata(path).expect("watched file");
    let w = Arc::new(Watch::default());
    w.room.store(-1, SeqCst);
    w.syncs_left.store(-1, SeqCst);
    w.synced.store(m.len(), SeqCst);
    let key = (m.dev(), m.ino());
    table().write().insert(key, w.clone());
    ACTIVE.fetch_add(1, SeqCst);
    Handle { key, w }
}

fn stat(fd: c_int) -> Option<std::fs::Metadata> {
    use std::mem::ManuallyDrop;
    use std::os::fd::FromRawFd;
    if fd < 0 {
        return None;
    }
    let f = ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    f.metadata().ok()
}
fn find(fd: c_int) -> Option<(Arc<Watch>, u64)> {
    if ACTIVE.load(SeqCst) == 0 {
        return None;
    }
    let m = stat(fd)?;
    table().read().get(&(m.dev(), m.ino())).cloned().map(|w| (w, m.len()))
}
fn fail(e: c_int) {
    unsafe { *__errno_location() = e };
}

fn do_write(fd: c_int, buf: *const c_void, n: usize, off: Option<i64>) -> isize {
    let w = find(fd);
    let mut n = n;
    if let Some((w, _)) = &w {
        let room = w.room.load(SeqCst);
        if room >= 0 {
            if room == 0 && n > 0 {
                w.faults.fetch_add(1, SeqCst);
                if w.transient.load(SeqCst) {
                    w.room.store(-1, SeqCst);
                }
                fail(ENOSPC);
                return -1;
            }
            n = n.min(room as usize);
            w.room.fetch_sub(n as i64, SeqCst);
        }
    }
    let r = unsafe {
        match off {
            None => syscall(SYS_WRITE, fd as c_long, buf, n),
            Some(o) => syscall(SYS_PWRITE64, fd as c_long, buf, n, o),
        }
    } as isize;
    if let Some((w, _)) = &w {
        w.writes.fetch_add(1, SeqCst);
        if r >= 0 && w.record.load(SeqCst) {
            w.events.lock().push((now(), Ev::Write(off.map(|o| o as u64), r as usize)));
        }
    }
    r
}
fn do_sync(fd: c_int, nr: c_long) -> c_int {
    let w = find(fd);
    if let Some((w, _)) = &w {
        let d = w.sync_delay.load(SeqCst);
        if d > 0 {
            std::thread::sleep(std::time::Duration::from_micros(d));
        }
        let left = w.syncs_left.load(SeqCst);
        if left == 0 {
            w.faults.fetch_add(1, SeqCst);
            if w.transient.load(SeqCst) {
                w.syncs_left.store(-1, SeqCst);
            }
            fail(EIO);
            return -1;
        }
        if left > 0 {
            w.syncs_left.fetch_sub(1, SeqCst);
        }
    }
    let r = unsafe { syscall(nr, fd as c_long) } as c_int;
    if let Some((w, len)) = &w
        && r == 0
    {
        w.synced.fetch_max(*len, SeqCst);
        w.syncs.fetch_add(1, SeqCst);
        if w.record.load(SeqCst) {
            w.events.lock().push((now(), Ev::Sync(*len)));
        }
    }
    r
}

/// # Safety
/// Called like write(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    do_write(fd, buf, n, None)
}
/// # Safety
/// Called like pwrite(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    do_write(fd, buf, n, Some(off))
}
/// # Safety
/// Called like fsync(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, SYS_FSYNC)
}
/// # Safety
/// Called like fdatasync(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, SYS_FDATASYNC)
}

/// The stand-ins are in effect.
pub fn self_test() -> Result<(), String> {
    use std::io::Write;
    let dir = crate::util::Scratch::new("sys");
    let p = dir.file("f");
    std::fs::write(&p, b"").map_err(|e| e.to_string())?;
    let h = watch(&p);
    let mut f = std::fs::OpenOptions::new().write(true).open(&p).map_err(|e| e.to_string())?;
    f.write_all(b"abcd").map_err(|e| e.to_string())?;
    if h.w.writes.load(SeqCst) == 0 || h.w.synced.load(SeqCst) != 0 {
        return Err("writes are not seen".into());
    }
    f.sync_data().map_err(|e| e.to_string())?;
    if h.w.synced.load(SeqCst) != 4 {
        return Err("syncs are not seen".into());
    }
    h.w.room.store(2, SeqCst);
    if f.write_all(b"abcd").is_ok() {
        return Err("write faults have no effect".into());
    }
    h.w.syncs_left.store(0, SeqCst);
    if f.sync_all().is_ok() {
        return Err("sync faults have no effect".into());
    }
    Ok(())
}
