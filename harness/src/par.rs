//! Thread pools and schedule perturbation for the parallel operations.
use crate::rng::Rng;
use rayon::{ThreadPool, ThreadPoolBuilder};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static POOLS: OnceLock<Vec<ThreadPool>> = OnceLock::new();
pub const SIZES: &[usize] = &[1, 2, 3, 4, 8, 13];

pub fn pools() -> &'static [ThreadPool] {
	POOLS.get_or_init(|| {
		let sizes: &[usize] = if cfg!(miri) { &[1, 2, 3] } else { SIZES };
		sizes
			.iter()
			.map(|&n| {
				ThreadPoolBuilder::new()
					.num_threads(n)
					.stack_size(16 << 20)
					.build()
					.unwrap()
			})
			.collect()
	})
}

#[derive(Clone, Copy, Debug)]
pub struct How {
	/// Index into the pools; `usize::MAX` for the global one.
	pub pool: usize,
	/// 0 plain, 1 called while other tasks keep the pool busy, 2 called from inside a nested task
	pub mode: usize,
	/// Delay mode of the hook.
	pub delay: u64,
}

pub fn gen_how(r: &mut Rng) -> How {
	How {
		pool: if r.chance(1, 10) { usize::MAX } else { r.below(pools().len()) },
		mode: r.pick(&[0, 0, 0, 1, 2]),
		delay: r.pick(&[0, 0, 1, 2, 3, 4, 5]),
	}
}

pub fn run(how: How, f: &mut (dyn FnMut() + Send)) {
	let go = |f: &mut (dyn FnMut() + Send)| match how.mode {
		1 => {
			let stop = AtomicBool::new(false);
			struct Stop<'a>(&'a AtomicBool);
			impl Drop for Stop<'_> {
				fn drop(&mut self) {
					self.0.store(true, Relaxed);
				}
			}
			rayon::scope(|s| {
				for k in 0..2 {
					let stop = &stop;
					s.spawn(move |_| {
						let mut i = 0u64;
						while !stop.load(Relaxed) && i < 2_000_000 {
							i += 1;
							std::hint::spin_loop();
							if i % 64 == k {
								std::thread::yield_now();
							}
						}
					});
				}
				let _g = Stop(&stop);
				f();
			});
		}
		2 => {
			rayon::join(
				|| rayon::join(|| f(), || std::thread::yield_now()),
				|| std::thread::yield_now(),
			);
		}
		_ => f(),
	};
	if how.pool == usize::MAX {
		go(f)
	} else {
		pools()[how.pool].install(|| go(f))
	}
}
