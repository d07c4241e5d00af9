use std::path::PathBuf;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);

fn base() -> PathBuf {
    if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() }
}

/// A directory of our own, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = base().join(format!(
            "ferritemon-{}-{}-{}",
            std::process::id(),
            tag,
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).to_string_lossy().into_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Removes this process's scratch directories (the process leaves through _exit).
pub fn sweep() {
    let pfx = format!("ferritemon-{}-", std::process::id());
    if let Ok(rd) = std::fs::read_dir(base()) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&pfx) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

pub fn runtime() -> Arc<tokio::runtime::Runtime> {
    runtime_n(3)
}
pub fn runtime_n(n: usize) -> Arc<tokio::runtime::Runtime> {
    Arc::new(
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(n)
            .enable_all()
            .build()
            .expect("runtime"),
    )
}
