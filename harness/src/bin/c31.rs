//! C31: requests for memory that are turned down, each in a process of its own.
use harness::alloc::{self, Watched};
use harness::anyop::{Op, gen_content};
use harness::direct::{OPS, go};
use harness::elem::{A64, B3, D, El, Hb, P8, W72, clear_ledgers, dropped};
use harness::host::{Host, gen_layout};
use harness::ndarray::Array1;
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{genk, hook, oracle};
use rayon::ThreadPoolBuilder;
use std::alloc::{GlobalAlloc, Layout};
use std::ffi::c_void;
use std::fmt::Write;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};

/// Turns down requests while armed.
struct Scarce;
static ARMED: AtomicBool = AtomicBool::new(false);
static SEEN: AtomicU64 = AtomicU64::new(0);
static DENIED: AtomicU64 = AtomicU64::new(0);
/// The number of the request to turn down.
static AT: AtomicU64 = AtomicU64::new(u64::MAX);
/// The least size of requests to turn down.
static SIZE: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Scarce {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if ARMED.load(SeqCst) {
			let k = SEEN.fetch_add(1, SeqCst);
			if k == AT.load(SeqCst) || l.size() as u64 >= SIZE.load(SeqCst) {
				DENIED.fetch_add(1, SeqCst);
				return std::ptr::null_mut();
			}
		}
		LIVE.fetch_add(l.size() as i64, SeqCst);
		unsafe { Watched.alloc(l) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		LIVE.fetch_sub(l.size() as i64, SeqCst);
		unsafe { Watched.dealloc(p, l) }
	}
}
#[global_allocator]
static SCARCE: Scarce = Scarce;

unsafe extern "C" {
	fn fork() -> i32;
	fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
	fn pipe(fds: *mut i32) -> i32;
	fn dup2(a: i32, b: i32) -> i32;
	fn close(fd: i32) -> i32;
	fn read(fd: i32, p: *mut c_void, n: usize) -> isize;
	fn write(fd: i32, p: *const c_void, n: usize) -> isize;
	fn _exit(code: i32) -> !;
	fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}

/// How a process ended and what it wrote to its error output.
fn apart(f: impl FnOnce() -> Result<String, String>) -> Result<(Result<String, String>, i32, String), String> {
	unsafe {
		let (mut err, mut out) = ([0; 2], [0; 2]);
		if pipe(err.as_mut_ptr()) != 0 || pipe(out.as_mut_ptr()) != 0 {
			return Err("no pipe".into());
		}
		let pid = fork();
		if pid == 0 {
			dup2(err[1], 2);
			close(err[0]);
			close(out[0]);
			// Processor time, so that a hang ends.
			setrlimit(0, &[20, 20]);
			let r = match guard(f) {
				Ok(r) => r,
				Err(p) => Err(harness::report::payload(&*p)),
			};
			let s = match r {
				Ok(s) => format!("+{s}"),
				Err(s) => format!("-{s}"),
			};
			let s = s.as_bytes();
			write(out[1], s.as_ptr().cast(), s.len().min(2000));
			_exit(0);
		}
		close(err[1]);
		close(out[1]);
		let slurp = |fd| {
			let mut s = vec![];
			let mut b = [0u8; 4096];
			loop {
				let n = read(fd, b.as_mut_ptr().cast(), b.len());
				if n <= 0 {
					break;
				}
				if s.len() < 1 << 16 {
					s.extend_from_slice(&b[..n as usize]);
				}
			}
			close(fd);
			String::from_utf8_lossy(&s).into_owned()
		};
		if pid < 0 {
			close(err[0]);
			close(out[0]);
			return Err("no process".into());
		}
		let said = slurp(out[0]);
		let e = slurp(err[0]);
		let mut status = 0;
		while waitpid(pid, &mut status, 0) != pid {}
		let said = match said.split_at_checked(1) {
			Some(("+", s)) => Ok(s.to_string()),
			Some(("-", s)) => Err(s.to_string()),
			_ => Err(String::new()),
		};
		Ok((said, status, e))
	}
}

#[derive(Clone, Copy, Debug)]
enum Deny {
	Nothing,
	/// The request of that number.
	At(u64),
	/// Requests of that many bytes and more.
	From(u64),
}

#[allow(clippy::too_many_arguments)]
fn child<T: El + Sync>(op: Op, form: Form, keys: &[u32], host: &mut Host<T>, index: usize, ix: &Array1<usize>, target: &T, threads: usize, deny: Deny) -> Result<String, String> {
	let n = keys.len();
	let pool = ThreadPoolBuilder::new().num_threads(if op.par() { threads } else { 1 }).build().map_err(|e| e.to_string())?;
	// Thread-locals and queues are set up.
	pool.install(|| rayon::join(|| (), || ()));
	let _ = guard(|| std::panic::panic_any(hook::Injected(0)));
	match deny {
		Deny::Nothing => {}
		Deny::At(k) => AT.store(k, SeqCst),
		Deny::From(s) => SIZE.store(s, SeqCst),
	}
	let held = LIVE.load(SeqCst);
	let res = {
		let v = host.view_mut();
		ARMED.store(true, SeqCst);
		let res = guard(|| go(op, form, v, index, ix, target, 0, &pool));
		ARMED.store(false, SeqCst);
		res.is_ok()
	};
	let left = LIVE.load(SeqCst) - held;
	let denied = DENIED.load(SeqCst);
	if !res && denied == 0 {
		return Err(format!("panicked without a reason: {}", harness::report::last_panic()));
	}
	let out = host.out();
	oracle::conserved(keys, &out)?;
	host.check_canaries()?;
	if T::NAME == D::NAME {
		dropped(n, 0)?;
	}
	if let Some(w) = alloc::wrong() {
		return Err(w);
	}
	// The message of the last panic is kept.
	if !op.par() && left > 512 {
		return Err(format!("{left} bytes were not released"));
	}
	if res && op.sorts() {
		let wrong = |a: u32, b: u32| if form.rev() { a < b } else { a > b };
		if let Some(i) = (1..n).find(|&i| wrong(out[i - 1].0, out[i].0)) {
			return Err(format!("returned without having sorted: position {i}"));
		}
	}
	if res && op.stable() {
		oracle::stable(&out).map_err(|e| format!("returned without having sorted stably: {e}"))?;
	}
	if res && n > 0 {
		// What selection promises, from the greatest so far and the least to come.
		let at: &[usize] = match op {
			Op::Select => &[index],
			Op::Many | Op::ParMany => ix.as_slice().unwrap_or(&[]),
			_ => &[],
		};
		if !at.is_empty() {
			let le = |a: u32, b: u32| if form.rev() { a >= b } else { a <= b };
			let mut most = vec![out[0].0; n];
			let mut least = vec![out[n - 1].0; n];
			for i in 1..n {
				most[i] = if le(most[i - 1], out[i].0) { out[i].0 } else { most[i - 1] };
				least[n - 1 - i] = if le(out[n - 1 - i].0, least[n - i]) { out[n - 1 - i].0 } else { least[n - i] };
			}
			if let Some(&i) = at.iter().find(|&&i| most[i] != out[i].0 || least[i] != out[i].0) {
				return Err(format!("returned without having selected index {i}"));
			}
		}
	}
	let mut s = String::new();
	let _ = write!(s, "{} {denied} {}", SEEN.load(SeqCst), res as u8);
	Ok(s)
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, most: usize, given: Option<Vec<u32>>) -> Res {
	let n = n.min(T::MAXLEN - 2).max(1);
	let (keys, p) = match given {
		Some(k) => (k, 998),
		None => gen_content(r, op, form, n, T::MAXKEY),
	};
	let lay = gen_layout(r, n);
	let index = harness::selcase::gen_index(r, n);
	let ix = Array1::from_vec(genk::gen_indices(r, n));
	let target = T::mk(keys[r.below(n)], T::MAXLEN as u32 - 1);
	let threads = r.range(1, 4);
	if T::NAME == D::NAME {
		clear_ledgers(n);
	}
	let mut host = Host::<T>::new(lay, &keys);
	let text = format!("{op:?} {form:?} on {} n={n} {lay:?} content=pattern{p} threads={threads}", T::NAME);
	let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
	let mut run = |ctx: &mut Ctx, deny: Deny| -> Result<Option<[u64; 3]>, String> {
		ctx.begin(format_args!("{text} denied: {deny:?}"));
		let (said, status, e) = match apart(|| child(op, form, &keys, &mut host, index, &ix, &target, threads, deny)) {
			Ok(x) => x,
			Err(m) => {
				ctx.inconclusive(&m);
				return Ok(None);
			}
		};
		if status == 0 {
			let s = said?;
			let mut it = s.split(' ').map(|x| x.parse::<u64>().unwrap());
			return Ok(Some([it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]));
		}
		let signal = status & 127;
		if signal == 6 && e.contains("memory allocation of") && e.contains("failed") {
			return Ok(Some([0, 1, 2]));
		}
		if signal == 24 || signal == 9 {
			return Err("did not return".into());
		}
		let e = e.trim();
		Err(format!("the process ended by signal {signal}, status {}: {}", status >> 8, &e[e.len().saturating_sub(200)..]))
	};
	let Some([total, ..]) = run(ctx, Deny::Nothing)? else { return Ok(()) };
	ctx.ev("requests seen", total);
	let mut plans: Vec<Deny> = if total as usize <= most {
		(0..total).map(Deny::At).collect()
	} else {
		let mut k: Vec<u64> = (0..most).map(|j| if j < 4 { j as u64 } else { r.below(total as usize) as u64 }).collect();
		k.push(total - 1);
		k.dedup();
		k.into_iter().map(Deny::At).collect()
	};
	if total > 0 {
		plans.push(Deny::From(r.pick(&[1024, 4096, 16384, 65536])));
	}
	for deny in plans {
		if let Some([_, denied, how]) = run(ctx, deny)? {
			ctx.ev("requests turned down", denied);
			if denied > 0 {
				ctx.ev(["turned down: panicked", "turned down: completed", "turned down: ended by the handler"][how as usize], 1);
				ctx.ev(&format!("turned down in {op:?}"), 1);
			}
			let d = match deny {
				Deny::At(k) => k,
				Deny::From(s) => s << 20,
				Deny::Nothing => 0,
			};
			ctx.eval(mix(sig ^ mix(d)), denied > 0);
		}
	}
	if total == 0 {
		ctx.ev(&format!("no request in {op:?}"), 1);
		ctx.eval(sig, false);
	}
	Ok(())
}
fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, most: usize) -> Res {
	match if n > 40_000 { 0 } else { r.below(6) } {
		0 => case::<P8>(ctx, r, op, form, n, most, None),
		1 => case::<D>(ctx, r, op, form, n, most, None),
		2 => case::<B3>(ctx, r, op, form, n, most, None),
		3 => case::<W72>(ctx, r, op, form, n, most, None),
		4 => case::<A64>(ctx, r, op, form, n, most, None),
		_ => case::<Hb>(ctx, r, op, form, n, most, None),
	}
}

fn main() {
	let mut ctx = Ctx::new("C31");
	let th = ctx.thorough;
	let lens = [1usize, 2, 20, 21, 22, 50, 100, 300, 1000, 2100, 6000, 12_000];
	ctx.fixed("table", (OPS.len() * lens.len() * if th { 40 } else { 2 }) as u64, |ctx, r, i| {
		let i = i as usize;
		let form = FORMS[r.below(5)];
		any(ctx, r, OPS[i % OPS.len()], form, lens[i / OPS.len() % lens.len()], 12)
	});
	// The stack of pending runs outgrows its first allocation.
	ctx.fixed("pending", if th { 200 } else { 16 }, |ctx, r, i| {
		let keys = genk::pending(r, 17 + i as usize / 8 % 2);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		let n = keys.len();
		match i % 3 {
			0 => case::<P8>(ctx, r, Op::SortS, form, n, 12, Some(keys)),
			1 => case::<Hb>(ctx, r, Op::SortS, form, n, 12, Some(keys)),
			_ => case::<D>(ctx, r, Op::SortS, form, n, 12, Some(keys)),
		}
	});
	ctx.timed("random", 1.0, 20, |ctx, r, _| {
		let op = r.pick(&[Op::SortS, Op::SortS, Op::SortS, Op::Cached, Op::Many, Op::ParS, Op::ParS, Op::ParU, Op::ParCached, Op::ParMany]);
		let n = if r.chance(1, 6) { r.range(2001, if th { 120_000 } else { 30_000 }) } else { genk::gen_len(r, 2500) };
		let form = pick_form(r);
		any(ctx, r, op, form, n, 6)
	});
	ctx.finish();
}
