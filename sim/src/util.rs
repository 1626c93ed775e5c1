use std::{
    any::Any,
    cell::RefCell,
    sync::{
        Once, OnceLock,
        atomic::{AtomicU64, Ordering},
    },
};

pub fn panic_text(p: Box<dyn Any + Send>) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    let at = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    format!("{s} at {at}")
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static REPORTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// A directory that never exists, for asset sources that are not used.
pub fn no_assets() -> &'static str {
    "/nonexistent-rrsim-assets"
}

pub fn report(s: String) {
    REPORTS.with(|r| r.borrow_mut().push(s));
}

/// Errors and warnings reported on this thread since the last call.
pub fn take_reports() -> Vec<String> {
    REPORTS.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

struct Recorder;

impl bevy::log::tracing::Subscriber for Recorder {
    fn enabled(&self, m: &bevy::log::tracing::Metadata<'_>) -> bool {
        *m.level() <= bevy::log::tracing::Level::WARN
    }
    fn new_span(&self, _: &bevy::log::tracing::span::Attributes<'_>) -> bevy::log::tracing::span::Id {
        bevy::log::tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &bevy::log::tracing::span::Id, _: &bevy::log::tracing::span::Record<'_>) {}
    fn record_follows_from(
        &self,
        _: &bevy::log::tracing::span::Id,
        _: &bevy::log::tracing::span::Id,
    ) {
    }
    fn event(&self, e: &bevy::log::tracing::Event<'_>) {
        struct V(String);
        impl bevy::log::tracing::field::Visit for V {
            fn record_debug(
                &mut self,
                f: &bevy::log::tracing::field::Field,
                v: &dyn std::fmt::Debug,
            ) {
                if f.name() == "message" {
                    self.0 = format!("{v:?}");
                }
            }
        }
        let mut v = V(String::new());
        e.record(&mut v);
        report(format!("[{}] {}", e.metadata().target(), v.0));
    }
    fn enter(&self, _: &bevy::log::tracing::span::Id) {}
    fn exit(&self, _: &bevy::log::tracing::span::Id) {}
}

static INIT: Once = Once::new();
static VERBOSE: OnceLock<bool> = OnceLock::new();

/// Process-wide seams: panics and errors are recorded instead of printed.
pub fn init() {
    INIT.call_once(|| {
        let v = *VERBOSE.get_or_init(|| std::env::var_os("RRSIM_PANICS").is_some());
        std::panic::set_hook(Box::new(move |i| {
            let at = i
                .location()
                .map(|l| {
                    let f = l.file();
                    format!("{}:{}", f.rsplit("crates/").next().unwrap_or(f), l.line())
                })
                .unwrap_or_default();
            if v {
                eprintln!("panic: {i}");
            }
            LAST_PANIC.with(|l| *l.borrow_mut() = Some(at));
        }));
        let _ = bevy::log::tracing::subscriber::set_global_default(Recorder);
        let _ = bevy::ecs::error::GLOBAL_ERROR_HANDLER
            .set(|e, c| report(format!("[error] {}: {}", c.kind(), first_line(&e.to_string()))));
    });
}

fn first_line(s: &str) -> String {
    s.lines().next().unwrap_or("").to_string()
}

// ---------------------------------------------------------------- randomness and clocks
//
// These replace the C library's functions in this process, so that code that asks the system for
// randomness (hash maps with random keys, UUIDs) or for the time gets what the simulation decides.

static RANDOM: AtomicU64 = AtomicU64::new(1);
/// Simulated nanoseconds plus one; 0 means that the clock is the machine's.
static CLOCK: AtomicU64 = AtomicU64::new(0);

/// From here on randomness is the same as after any other call of this.
pub fn reset_random() {
    RANDOM.store(1, Ordering::SeqCst);
}

/// The time is that many microseconds after the start of the run.
pub fn set_clock(us: u64) {
    CLOCK.store(us * 1000 + 1, Ordering::SeqCst);
}

pub fn real_clock() {
    CLOCK.store(0, Ordering::SeqCst);
}

unsafe extern "C" {
    fn syscall(number: i64, ...) -> i64;
}

/// # Safety
/// As for the C library's function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let n = RANDOM.fetch_add(1, Ordering::SeqCst);
        unsafe { *buf.add(i) = (crate::rng::mix(n) >> 24) as u8 };
    }
    len as isize
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

/// # Safety
/// As for the C library's function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, at: *mut Timespec) -> i32 {
    let c = CLOCK.load(Ordering::SeqCst);
    if c == 0 || id > 7 {
        const CLOCK_GETTIME: i64 = 228;
        return unsafe { syscall(CLOCK_GETTIME, id as i64, at) } as i32;
    }
    let start = if id == 0 || id == 5 { 1_700_000_000 } else { 5_000_000 };
    let n = c - 1;
    unsafe {
        (*at).sec = start + (n / 1_000_000_000) as i64;
        (*at).nsec = (n % 1_000_000_000) as i64;
    }
    0
}
