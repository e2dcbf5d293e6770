//! C27: operations running at once on disjoint views of one parent do not interfere.
use harness::anyop::{Arg, Op, PAR, SEQ, gen_arg, gen_content, run_op};
use harness::elem::{B3, D, El, P8, clear_ledgers, cmp_el, dropped};
use harness::ndarray::{Array1, Array2, Array3, ArrayViewMut1, Axis, s};
use harness::ops::Form;
use harness::par;
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::pick_form;
use harness::{genk, hook, oracle};
use std::any::Any;
use std::cmp::Ordering;
use std::sync::Barrier;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Shape {
	/// Neighbouring cells belong to different views.
	Columns { f: bool },
	Rows,
	/// Even and odd cells, one of them backwards.
	Teeth,
	/// One after the other, of different lengths.
	Pieces,
	/// Lanes through the middle axis of a cube.
	Lanes { k: usize },
}

enum Parent<T> {
	One(Array1<T>),
	Two(Array2<T>, usize),
	Three(Array3<T>),
}

impl<T> Parent<T> {
	fn lanes(&mut self, shape: Shape, lens: &[usize]) -> Vec<ArrayViewMut1<'_, T>> {
		match self {
			Parent::Two(a, axis) => {
				let mut v: Vec<_> = a.axis_iter_mut(Axis(*axis)).collect();
				for (i, l) in v.iter_mut().enumerate() {
					if i % 3 == 2 {
						l.invert_axis(Axis(0));
					}
				}
				v
			}
			Parent::Three(a) => a.lanes_mut(Axis(1)).into_iter().collect(),
			Parent::One(a) => {
				if shape == Shape::Teeth {
					let (x, mut y) = a.multi_slice_mut((s![..;2], s![1..;2]));
					y.invert_axis(Axis(0));
					return vec![x, y];
				}
				let mut rest = a.view_mut();
				let mut v = vec![];
				for &l in lens {
					let (x, y) = rest.split_at(Axis(0), l);
					v.push(x);
					rest = y;
				}
				v
			}
		}
	}
	fn cells(&self) -> Box<dyn Iterator<Item = &T> + '_> {
		match self {
			Parent::One(a) => Box::new(a.iter()),
			Parent::Two(a, _) => Box::new(a.iter()),
			Parent::Three(a) => Box::new(a.iter()),
		}
	}
}

struct Job {
	op: Op,
	form: Form,
	arg: Arg,
	keys: Vec<u32>,
	/// Identity of its first element.
	first: u32,
}

fn parent<T: El>(shape: Shape, jobs: &[Job]) -> Parent<T> {
	use harness::ndarray::ShapeBuilder;
	let lens: Vec<usize> = jobs.iter().map(|j| j.keys.len()).collect();
	let (p, n) = (jobs.len(), lens[0]);
	let total: usize = lens.iter().sum();
	let blank: Vec<T> = (0..total).map(|_| T::mk(0, hook::CAN)).collect();
	let mut a = match shape {
		Shape::Columns { f } => Parent::Two(Array2::from_shape_vec((n, p).set_f(f), blank).unwrap(), 1),
		Shape::Rows => Parent::Two(Array2::from_shape_vec((p, n), blank).unwrap(), 0),
		Shape::Teeth | Shape::Pieces => Parent::One(Array1::from_vec(blank)),
		Shape::Lanes { k } => Parent::Three(Array3::from_shape_vec((p / k, n, k), blank).unwrap()),
	};
	for (mut l, j) in a.lanes(shape, &lens).into_iter().zip(jobs) {
		for (i, (e, &k)) in l.iter_mut().zip(&j.keys).enumerate() {
			*e = T::mk(k, j.first + i as u32);
		}
	}
	a
}

/// One byte, so that neighbours share any word. Carries no identity.
#[derive(Debug, Clone)]
struct Byte(u8);
impl El for Byte {
	const NAME: &'static str = "Byte";
	const MAXKEY: u32 = 256;
	const MAXLEN: usize = 1 << 17;
	fn mk(key: u32, _: u32) -> Self {
		Byte(key as u8)
	}
	fn key(&self) -> u32 {
		self.0.into()
	}
	fn id(&self) -> u32 {
		0
	}
}
impl Ord for Byte {
	fn cmp(&self, o: &Self) -> Ordering {
		cmp_el(self, o)
	}
}
impl PartialOrd for Byte {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Eq for Byte {}
impl PartialEq for Byte {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}

type Out = Result<Vec<i64>, Box<dyn Any + Send>>;

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, shape: Shape, n: usize, ops: &[Op], most: usize, crowd: bool) -> Res {
	let p = match shape {
		Shape::Teeth => 2,
		Shape::Lanes { k } => k * r.range(1, 4),
		_ => r.range(if crowd { 6 } else { 2 }, most),
	};
	let cap = (T::MAXLEN.min(1 << 17) - 10) / p;
	let n = n.min(cap);
	let mut first = 0;
	let jobs: Vec<Job> = (0..p)
		.map(|_| {
			let op = r.pick(ops);
			let form = pick_form(r);
			// Equality with a made-up element needs identities to spare.
			let form = if matches!(op, Op::Bin) && form == Form::Ord { Form::By } else { form };
			let op = if op == Op::Contains { Op::IsSorted } else { op };
			let n = if shape == Shape::Pieces { r.range(1, n.max(1)) } else { n };
			let (keys, _) = gen_content(r, op, form, n, T::MAXKEY);
			let arg = gen_arg(r, &keys);
			first += n as u32;
			Job { op, form, arg, keys, first: first - n as u32 }
		})
		.collect();
	let lens: Vec<usize> = jobs.iter().map(|j| j.keys.len()).collect();
	let total: usize = lens.iter().sum();
	let list: Vec<String> = jobs.iter().take(6).map(|j| format!("{:?} {:?}", j.op, j.form)).collect();
	let pool = r.below(par::pools().len());
	// 0 threads of their own, 1 one pool, 2 one pool with other threads beside it, 3 nested joins
	// 4 one pool that each enters on its own
	let mode = if crowd { 4 } else { r.below(5) };
	let delay = r.pick(&[0u64, 0, 1, 2, 3, 4, 5]);
	let panics = r.chance(1, 5);
	ctx.begin(format_args!("{shape:?} on {} p={p} n={n} mode={mode} pool={pool} delay={delay} panic={panics} {}", T::NAME, list.join(", ")));
	clear_ledgers(total);
	// Alone, one after the other.
	hook::reset();
	let mut alone = parent::<T>(shape, &jobs);
	let mut want: Vec<Vec<i64>> = vec![];
	for (l, j) in alone.lanes(shape, &lens).iter_mut().zip(&jobs) {
		let got = par::pools()[0].install(|| guard(|| run_op(j.op, j.form, l, &j.arg)));
		want.push(got.map_err(|p| payload(&*p))?);
	}
	let single = hook::calls();
	// At once.
	let mut both = parent::<T>(shape, &jobs);
	hook::reset();
	hook::delay(delay);
	hook::trace(true);
	if panics && single > 0 {
		hook::panic_at(r.below(single as usize) as u64, false);
	}
	let mut got: Vec<Option<Out>> = (0..p).map(|_| None).collect();
	{
		let lanes = both.lanes(shape, &lens);
		let work: Vec<_> = lanes.into_iter().zip(&jobs).zip(&mut got).collect();
		let one = |((mut l, j), g): ((ArrayViewMut1<T>, &Job), &mut Option<Out>)| {
			*g = Some(guard(|| run_op(j.op, j.form, &mut l, &j.arg)));
		};
		let threads = |work: Vec<_>| {
			let gate = Barrier::new(work.len());
			let (gate, one) = (&gate, &one);
			std::thread::scope(|s| {
				for w in work {
					s.spawn(move || {
						gate.wait();
						one(w);
					});
				}
			});
		};
		match mode {
			0 => threads(work),
			1 => par::pools()[pool].scope(|s| {
				for w in work {
					s.spawn(|_| one(w));
				}
			}),
			2 => {
				let mut work = work;
				let rest = work.split_off(work.len() / 2);
				std::thread::scope(|t| {
					t.spawn(|| threads(rest));
					par::pools()[pool].scope(|s| {
						for w in work {
							s.spawn(|_| one(w));
						}
					});
				});
			}
			4 => {
				let gate = &Barrier::new(work.len());
				let one = &one;
				std::thread::scope(|s| {
					for w in work {
						s.spawn(move || {
							gate.wait();
							par::pools()[pool].install(|| one(w));
						});
					}
				});
			}
			_ => {
				fn nest<W: Send>(mut work: Vec<W>, one: &(dyn Fn(W) + Sync)) {
					if work.len() > 1 {
						let rest = work.split_off(work.len() / 2);
						rayon::join(|| nest(work, one), || nest(rest, one));
					} else if let Some(w) = work.pop() {
						one(w);
					}
				}
				par::pools()[pool].install(|| nest(work, &one));
			}
		}
	}
	let fired = hook::fired();
	let (sched, switches) = hook::sched();
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	hook::reset();
	// Judge.
	let bytes = T::NAME == Byte::NAME;
	let mut panicked = vec![];
	for (i, (g, w)) in got.into_iter().zip(&want).enumerate() {
		match g.unwrap() {
			Ok(g) if g == *w => panicked.push(false),
			Ok(g) => return Err(format!("view {i} ({}) returned {g:?} instead of {w:?}", jobs[i].op as usize)),
			Err(p) if p.is::<hook::Injected>() => panicked.push(true),
			Err(p) => return Err(format!("view {i}: {}", payload(&*p))),
		}
	}
	if panicked.iter().filter(|p| **p).count() > 1 || (fired > 0) != panicked.contains(&true) {
		return Err("the panic did not reach its caller alone".into());
	}
	for (i, (a, b)) in alone.lanes(shape, &lens).iter().zip(both.lanes(shape, &lens)).enumerate() {
		let j = &jobs[i];
		let out: Vec<(u32, u32)> = b.iter().map(|e| (e.key(), e.id().wrapping_sub(j.first))).collect();
		if bytes {
			let sorted = |mut k: Vec<u32>| {
				k.sort_unstable();
				k
			};
			if sorted(out.iter().map(|o| o.0).collect()) != sorted(j.keys.iter().map(|&k| k % 256).collect()) {
				return Err(format!("view {i} ({:?}) holds other bytes than it did", j.op));
			}
		} else {
			oracle::conserved(&j.keys, &out).map_err(|e| format!("view {i} ({:?}): {e}", j.op))?;
		}
		if panicked[i] {
			continue;
		}
		if let Some(at) = a.iter().zip(b.iter()).position(|(x, y)| (x.id(), x.key()) != (y.id(), y.key())) {
			return Err(format!("view {i} ({:?}) holds element {} at position {at}, alone it held {}", j.op, b[at].id(), a[at].id()));
		}
	}
	if T::NAME == D::NAME {
		dropped(total, 0)?;
		drop(alone);
		dropped(total, 1)?;
		drop(both);
		dropped(total, 2)?;
	} else if !bytes {
		let mut ids: Vec<u32> = both.cells().map(|e| e.id()).collect();
		ids.sort_unstable();
		if ids.iter().enumerate().any(|(i, &x)| x as usize != i) {
			return Err("the parent does not hold every element once".into());
		}
	}
	ctx.ev("operations run at once", p as u64);
	ctx.ev("thread switches inside callbacks", switches);
	if fired > 0 {
		ctx.ev("runs with a panic in one view", 1);
	}
	if jobs.iter().any(|j| j.op.par()) {
		ctx.ev("runs with parallel operations", 1);
	}
	if switches > 1 {
		ctx.sched(sched);
	}
	let sig = jobs.iter().fold(mix(sched) ^ hash_str(T::NAME) ^ hash_str(&format!("{shape:?}")), |h, j| mix(h ^ oracle::digest_keys(&j.keys) ^ mix(j.op as u64 + 50)));
	ctx.eval(sig, n >= 2 && switches > 1);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, n: usize, most: usize) -> Res {
	let shape = match r.below(8) {
		0 | 1 => Shape::Columns { f: false },
		2 => Shape::Columns { f: true },
		3 => Shape::Rows,
		4 => Shape::Teeth,
		5 => Shape::Pieces,
		_ => Shape::Lanes { k: r.range(2, 5) },
	};
	let all: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	let ops: Vec<Op> = match r.below(5) {
		0 => vec![r.pick(&all)],
		1 => PAR.to_vec(),
		2 => SEQ.to_vec(),
		_ => all,
	};
	match r.below(5) {
		4 => case::<Byte>(ctx, r, shape, n, &ops, most, false),
		0 => case::<B3>(ctx, r, shape, n, &ops, most, false),
		1 => case::<D>(ctx, r, shape, n, &ops, most, false),
		_ => case::<P8>(ctx, r, shape, n, &ops, most, false),
	}
}

fn main() {
	let mut ctx = Ctx::new("C27");
	let (th, slow) = (ctx.thorough, ctx.slow);
	ctx.fixed("lengths", if th { 2000 } else if slow { 48 } else { 480 }, |ctx, r, i| {
		let n = [3usize, 12, 25, 60, 140, 300, 1100, 2100, 4100, 8300, 300, 2500][i as usize % 12];
		any(ctx, r, n, 6)
	});
	// Bytes side by side under the same operation everywhere.
	let every: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	ctx.fixed("bytes", if th { 2400 } else if slow { 60 } else { 480 }, |ctx, r, i| {
		let op = if i % 4 == 0 { Op::Reverse } else { every[i as usize % every.len()] };
		let shape = [Shape::Teeth, Shape::Columns { f: false }, Shape::Teeth, Shape::Lanes { k: 2 }][i as usize / 4 % 4];
		let n = if op == Op::Reverse && !slow { r.range(1000, 40_000) } else { r.range(60, 3000) };
		case::<Byte>(ctx, r, shape, n, &[op], 4, false)
	});
	// Long ones of the same kind in one pool, where threads that wait for their own take on others.
	ctx.fixed("crowd", if th { 800 } else if slow { 16 } else { 128 }, |ctx, r, i| {
		let op = if i % 2 == 0 { Op::ParS } else { r.pick(PAR) };
		let n = r.range(4100, if slow { 5000 } else { 9500 });
		let shape = if r.chance(1, 2) { Shape::Rows } else { Shape::Columns { f: false } };
		ctx.ev("crowds in one pool", 1);
		case::<P8>(ctx, r, shape, n, &[op], 8, true)
	});
	ctx.timed("random", 1.0, 20, |ctx, r, _| {
		let n = genk::gen_len(r, if th { 60_000 } else { 9000 }).max(1);
		let most = if r.chance(1, 4) { 16 } else { 5 };
		any(ctx, r, n, most)
	});
	ctx.finish();
}
