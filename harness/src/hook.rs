//! Callback hook shared by every instrumented comparator, key function and `Ord` implementation.
//!
//! One operation is under observation per process at a time (possibly on many threads), so the
//! state is global. It counts calls, injects panics and delays, records thread switches (the
//! schedule signature), and flags callbacks that see something foreign.
use std::cmp::Ordering;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

pub static CALLS: AtomicU64 = AtomicU64::new(0);
static TRIP: AtomicU64 = AtomicU64::new(u64::MAX);
static CAP: AtomicU64 = AtomicU64::new(u64::MAX);
static PANIC_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static PANIC_ALL: AtomicBool = AtomicBool::new(false);
static FIRED: AtomicU64 = AtomicU64::new(0);
/// 0 none, 1 yields, 2 spins, 3 sleeps, 4 mix
static DELAY: AtomicU64 = AtomicU64::new(0);
static SCHED: AtomicU64 = AtomicU64::new(0);
static LAST_TID: AtomicU64 = AtomicU64::new(0);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static TRACE: AtomicBool = AtomicBool::new(false);
pub static FOREIGN: AtomicU64 = AtomicU64::new(0);
static FOREIGN_INFO: AtomicU64 = AtomicU64::new(0);
/// Digest of the callback sequence (sequential operations).
pub static DIGEST: AtomicU64 = AtomicU64::new(0);
static DIGEST_ON: AtomicBool = AtomicBool::new(false);

/// Payload of injected panics.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Injected(pub u64);
/// Payload of the panic that ends an operation which exceeds its cap of callback calls.
#[derive(Debug)]
pub struct CapExceeded(pub u64);

pub const CAN: u32 = 0x4000_0000;

pub fn reset() {
	CALLS.store(0, SeqCst);
	TRIP.store(u64::MAX, SeqCst);
	CAP.store(u64::MAX, SeqCst);
	PANIC_AT.store(u64::MAX, SeqCst);
	PANIC_ALL.store(false, SeqCst);
	FIRED.store(0, SeqCst);
	DELAY.store(0, SeqCst);
	SCHED.store(0, SeqCst);
	SWITCHES.store(0, SeqCst);
	TRACE.store(STACK.load(SeqCst), SeqCst);
	FOREIGN.store(0, SeqCst);
	DIGEST.store(0, SeqCst);
	DIGEST_ON.store(false, SeqCst);
	ANSWER.store(0, SeqCst);
	PAIRS.store(false, SeqCst);
	KEY_TICKS.store(false, SeqCst);
	KEY_LIES.store(false, SeqCst);
}
fn retrip() {
	TRIP.store(CAP.load(SeqCst).min(PANIC_AT.load(SeqCst)), SeqCst);
}
pub fn cap(n: u64) {
	CAP.store(n, SeqCst);
	retrip();
}
pub fn panic_at(n: u64, all_after: bool) {
	PANIC_AT.store(n, SeqCst);
	PANIC_ALL.store(all_after, SeqCst);
	retrip();
}
pub fn delay(mode: u64) {
	DELAY.store(mode, SeqCst);
	if mode != 0 {
		TRACE.store(true, SeqCst);
	}
}
pub fn trace(on: bool) {
	TRACE.store(on, SeqCst);
}
pub fn digest(on: bool) {
	DIGEST_ON.store(on, SeqCst);
}
pub fn calls() -> u64 {
	CALLS.load(SeqCst)
}
pub fn fired() -> u64 {
	FIRED.load(SeqCst)
}
pub fn sched() -> (u64, u64) {
	(SCHED.load(SeqCst), SWITCHES.load(SeqCst))
}

thread_local! {
	static TID: u64 = {
		static NEXT: AtomicU64 = AtomicU64::new(1);
		NEXT.fetch_add(1, Relaxed)
	};
}
pub fn tid() -> u64 {
	TID.with(|t| *t)
}

#[inline]
pub fn tick() {
	let n = CALLS.fetch_add(1, Relaxed);
	if TRACE.load(Relaxed) {
		traced(n);
	}
	if n >= TRIP.load(Relaxed) {
		trip(n);
	}
}

#[cold]
#[inline(never)]
fn traced(n: u64) {
	if STACK.load(Relaxed) {
		stack_seen();
	}
	let t = tid();
	let last = LAST_TID.swap(t, Relaxed);
	if last != t {
		SWITCHES.fetch_add(1, Relaxed);
		let h = SCHED.load(Relaxed);
		SCHED.store(crate::rng::mix(h ^ t ^ (n << 8)), Relaxed);
	}
	let mode = DELAY.load(Relaxed);
	if mode != 0 {
		let h = crate::rng::mix(n ^ (t << 40));
		let kind = if mode == 4 { 1 + h % 3 } else { mode };
		match kind {
			1 if h & 0x3f00 == 0 => std::thread::yield_now(),
			2 if h & 0x3f00 == 0 => {
				for _ in 0..(h & 0x3ff) {
					std::hint::spin_loop();
				}
			}
			// Long enough for any other thread to pass.
			5 if h & 0xfff00 == 0 => {
				std::thread::sleep(std::time::Duration::from_micros(100 + (h & 0xff)))
			}
			3 if h & 0xffff00 == 0 => {
				std::thread::sleep(std::time::Duration::from_micros(20 + (h & 0x3f)))
			}
			_ => {}
		}
	}
}

#[cold]
#[inline(never)]
fn trip(n: u64) {
	let p = PANIC_AT.load(Relaxed);
	if n == p || (n > p && PANIC_ALL.load(Relaxed)) {
		FIRED.fetch_add(1, SeqCst);
		std::panic::panic_any(Injected(p));
	}
	if n >= CAP.load(Relaxed) {
		std::panic::panic_any(CapExceeded(n));
	}
}

/// Called with the identity of every element a callback sees.
#[inline]
pub fn see(id: u32, ok: bool) {
	if id >= CAN || !ok {
		foreign(id);
	}
}
#[cold]
#[inline(never)]
fn foreign(id: u32) {
	FOREIGN_INFO.store(id as u64, Relaxed);
	FOREIGN.fetch_add(1, Relaxed);
}
pub fn foreign_seen() -> Option<String> {
	let n = FOREIGN.load(SeqCst);
	(n > 0).then(|| {
		format!(
			"{n} callback arguments were not elements of the view (last identity {:#x})",
			FOREIGN_INFO.load(SeqCst)
		)
	})
}
/// How comparisons answer: 0 truthfully, otherwise see `lie`.
static ANSWER: AtomicU64 = AtomicU64::new(0);
static ANSWER_SEED: AtomicU64 = AtomicU64::new(0);
pub const LIES: u64 = 14;
pub fn answers(mode: u64, seed: u64) {
	ANSWER.store(mode, SeqCst);
	ANSWER_SEED.store(seed, SeqCst);
}
#[inline]
pub fn answer(o: Ordering, a: u32, b: u32) -> Ordering {
	let m = ANSWER.load(Relaxed);
	if m == 0 { o } else { lie(m, o, a, b) }
}
#[cold]
#[inline(never)]
fn lie(mode: u64, o: Ordering, a: u32, b: u32) -> Ordering {
	use Ordering::*;
	let n = CALLS.load(Relaxed);
	let h = crate::rng::mix(ANSWER_SEED.load(Relaxed) ^ n);
	let any = |h: u64| [Less, Equal, Greater][(h % 3) as usize];
	match mode {
		1 => any(h),
		2 => Less,
		3 => Greater,
		4 => Equal,
		// Cyclic.
		5 => [Equal, Less, Greater][((b % 3 + 3 - a % 3) % 3) as usize],
		6 => if n % 2 == 0 { Less } else { Greater },
		// Rarely wrong.
		7 => if h % 37 == 0 { o.reverse() } else { o },
		8 => if h % 401 == 0 { any(h >> 20) } else { o },
		// Turns round on the way.
		9 => if h & !0xff < (h & 0xff) || (n / 97) % 2 == 0 { o } else { o.reverse() },
		// Consistent per pair, but random.
		10 => any(crate::rng::mix(ANSWER_SEED.load(Relaxed) ^ ((a as u64) << 32 | b as u64))),
		// Never admits equality.
		11 => if o == Equal { Less } else { o },
		12 => if o == Equal { Greater } else { o },
		// Incomparable values count as neither.
		13 => if a % 5 == 0 || b % 5 == 0 { Equal } else { o },
		// Mostly less.
		_ => if h % 10 == 0 { Greater } else { Less },
	}
}
/// Same for keys.
#[inline]
pub fn bend(k: u32) -> u32 {
	let m = ANSWER.load(Relaxed);
	if m == 0 || KEY_LIES.load(Relaxed) { k } else { bent(m, k) }
}
#[cold]
#[inline(never)]
fn bent(mode: u64, k: u32) -> u32 {
	let n = CALLS.load(Relaxed);
	let h = crate::rng::mix(ANSWER_SEED.load(Relaxed) ^ n);
	match mode {
		1 | 10 => h as u32,
		// Key falls or rises with every call.
		2 => n as u32,
		3 => u32::MAX - n as u32,
		4 => 0,
		5 => (k + n as u32) % 3,
		6 => (n % 2) as u32,
		7 => if h % 37 == 0 { !k } else { k },
		8 => if h % 401 == 0 { h as u32 } else { k },
		9 => if (n / 97) % 2 == 0 { k } else { !k },
		11 => k.wrapping_mul(4).wrapping_add(n as u32 % 4),
		12 => k.wrapping_mul(4).wrapping_sub(n as u32 % 4),
		13 => if k % 5 == 0 { h as u32 } else { k },
		_ => (n % 10) as u32,
	}
}

static KEY_TICKS: AtomicBool = AtomicBool::new(false);
/// Comparisons of keys are callback calls too (they may panic).
pub fn key_ticks(on: bool) {
	KEY_TICKS.store(on, SeqCst);
}
#[inline]
pub fn key_tick() {
	if KEY_TICKS.load(Relaxed) {
		tick();
	}
}

static KEY_LIES: AtomicBool = AtomicBool::new(false);
/// Comparisons of keys lie (and count) instead of the function giving them.
pub fn key_lies(on: bool) {
	KEY_LIES.store(on, SeqCst);
	KEY_TICKS.store(on, SeqCst);
}
#[inline]
pub fn key_answer(o: Ordering, a: u32, b: u32) -> Ordering {
	if KEY_LIES.load(Relaxed) { answer(o, a, b) } else { o }
}

static PAIRS: AtomicBool = AtomicBool::new(false);
static PAIRS_TO: Mutex<fn(u32, u32)> = Mutex::new(|_, _| ());
/// Reports every compared pair (sequential operations).
pub fn pairs(on: bool, to: fn(u32, u32)) {
	*PAIRS_TO.lock().unwrap() = to;
	PAIRS.store(on, SeqCst);
}

#[inline]
pub fn note_pair(a: u32, b: u32) {
	if PAIRS.load(Relaxed) {
		let f = *PAIRS_TO.lock().unwrap();
		f(a, b);
	}
	if DIGEST_ON.load(Relaxed) {
		let h = DIGEST.load(Relaxed);
		DIGEST.store(
			crate::rng::mix(h ^ ((a as u64) << 32 | b as u64)),
			Relaxed,
		);
	}
}

static STACK: AtomicBool = AtomicBool::new(false);
static LOW: AtomicU64 = AtomicU64::new(u64::MAX);
static HIGH: AtomicU64 = AtomicU64::new(0);
/// Megabytes of address space callbacks ran on: one bit each, hashed.
static AREAS: [AtomicU64; 4] = [const { AtomicU64::new(0) }; 4];
/// Watches the stack addresses of callbacks; survives `reset`.
pub fn stack(on: bool) {
	LOW.store(u64::MAX, SeqCst);
	HIGH.store(0, SeqCst);
	AREAS.iter().for_each(|a| a.store(0, SeqCst));
	STACK.store(on, SeqCst);
	TRACE.store(on, SeqCst);
}
#[inline(never)]
fn stack_seen() {
	let here = 0u8;
	let at = std::hint::black_box(&raw const here) as u64;
	LOW.fetch_min(at, Relaxed);
	HIGH.fetch_max(at, Relaxed);
	let h = crate::rng::mix(at >> 20);
	AREAS[(h & 3) as usize].fetch_or(1 << (h >> 2 & 63), Relaxed);
}
/// Bytes between the shallowest and the deepest callback, and the megabytes callbacks ran on.
pub fn stack_span() -> (u64, u32) {
	let areas = AREAS.iter().map(|a| a.load(SeqCst).count_ones()).sum();
	(HIGH.load(SeqCst).saturating_sub(LOW.load(SeqCst)), areas)
}
