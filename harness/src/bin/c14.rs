//! C14: results do not depend on memory layout or storage kind.
use harness::anyop::{Arg, Op, PAR, SEQ, gen_arg, gen_content, run_how};
use harness::elem::{A64, B3, El, Hb, P8, W264, W72};
use harness::host::{Host, Layout, gen_layout, layout_class, wide};
use harness::ndarray::{ArcArray1, Array1, ArrayBase, CowArray, DataMut, Ix1, s};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{genk, hook, oracle, par};

/// What an operation shows: final content, return value, callback count and sequence.
#[derive(PartialEq, Debug)]
struct Seen {
	out: Vec<(u32, u32)>,
	ret: Vec<i64>,
	calls: u64,
	seq: u64,
}

fn observe<T: El + Sync, S: DataMut<Elem = T> + Send>(v: &mut ArrayBase<S, Ix1>, op: Op, form: Form, arg: &Arg, pool: usize) -> Result<Seen, String> {
	hook::reset();
	hook::cap(loop_cap(v.len()));
	hook::digest(!op.par());
	let ret = guard(|| run_how(op, form, v, arg, pool)).map_err(|p| payload(&*p))?;
	hook::cap(u64::MAX);
	let seen = Seen { out: v.iter().map(|e| (e.key(), e.id())).collect(), ret, calls: hook::calls(), seq: hook::DIGEST.load(std::sync::atomic::Ordering::SeqCst) };
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	Ok(seen)
}
fn same(a: &Seen, b: &Seen, par: bool) -> Res {
	if let Some(p) = (0..a.out.len().max(b.out.len())).find(|&p| a.out.get(p) != b.out.get(p)) {
		return Err(format!("position {p} holds {:?}, in a contiguous array {:?}", b.out.get(p), a.out.get(p)));
	}
	if a.ret != b.ret {
		return Err(format!("returns {:?}, for a contiguous array {:?}", &b.ret[..b.ret.len().min(9)], &a.ret[..a.ret.len().min(9)]));
	}
	if !par && a.calls != b.calls {
		return Err(format!("{} callback calls, for a contiguous array {}", b.calls, a.calls));
	}
	if !par && a.seq != b.seq {
		return Err("the sequence of comparisons differs from that for a contiguous array".into());
	}
	Ok(())
}

fn layouts<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, lays: &[Layout]) -> Res {
	let n = n.min(T::MAXLEN - 2);
	if n == 0 && op == Op::Select {
		return Ok(());
	}
	let (keys, p) = gen_content(r, op, form, n, T::MAXKEY);
	let arg = gen_arg(r, &keys);
	let pool = r.below(par::pools().len());
	let mk = || keys.iter().enumerate().map(|(i, &k)| T::mk(k, i as u32)).collect::<Vec<T>>();
	let name = T::NAME;
	ctx.begin(format_args!("{op:?} {form:?} on {name} n={n} contiguous content=pattern{p}"));
	let base = observe(&mut Array1::from_vec(mk()).view_mut(), op, form, &arg, pool)?;
	for &lay in lays {
		let mut host = Host::<T>::new(lay, &keys);
		ctx.begin(format_args!("{op:?} {form:?} on {name} n={n} {lay:?} content=pattern{p}"));
		let got = observe(&mut host.view_mut(), op, form, &arg, pool)?;
		same(&base, &got, op.par())?;
		host.check_canaries()?;
		let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(name) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
		ctx.eval(sig, n >= 2);
		ctx.ev("layouts compared", 1);
	}
	Ok(())
}

/// Storage kinds with several handles.
fn storages<T: El + Sync + Clone>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize) -> Res {
	let n = n.min(T::MAXLEN - 2);
	if n == 0 && op == Op::Select {
		return Ok(());
	}
	let (keys, p) = gen_content(r, op, form, n, T::MAXKEY);
	let arg = gen_arg(r, &keys);
	let pool = r.below(par::pools().len());
	let mk = || Array1::from_vec(keys.iter().enumerate().map(|(i, &k)| T::mk(k, i as u32)).collect::<Vec<T>>());
	// Every second cell, backwards.
	let spread = || {
		let mut a: Array1<T> = (0..2 * n).map(|p| T::mk(0, hook::CAN + p as u32)).collect();
		for (i, e) in a.slice_mut(s![..;-2]).iter_mut().enumerate() {
			*e = T::mk(keys[i], i as u32);
		}
		a
	};
	let name = T::NAME;
	ctx.begin(format_args!("{op:?} {form:?} on {name} n={n} contiguous content=pattern{p}"));
	let base = observe(&mut mk(), op, form, &arg, pool)?;
	let ids = |v: &mut dyn Iterator<Item = &T>| v.map(|e| (e.key(), e.id())).collect::<Vec<_>>();
	let start: Vec<(u32, u32)> = keys.iter().enumerate().map(|(i, &k)| (k, i as u32)).collect();
	for kind in 0..9 {
		ctx.begin(format_args!("{op:?} {form:?} on {name} n={n} storage {kind} content=pattern{p}"));
		let got = match kind {
			0 | 1 => {
				// Shared, contiguous; unique or with further handles.
				let a = mk();
				let mut v: ArcArray1<T> = if kind == 0 { a.into_shared() } else { a.to_shared() };
				let other = v.clone();
				let view = v.clone().slice_move(s![..;-1]);
				if kind == 1 {
					drop(other.clone());
				}
				let got = observe(&mut v, op, form, &arg, pool)?;
				if ids(&mut other.iter()) != start || !ids(&mut view.iter()).iter().eq(start.iter().rev()) {
					return Err("another handle of the shared array observes a change".into());
				}
				if ids(&mut v.iter()) != got.out {
					return Err("the handle does not keep the result".into());
				}
				got
			}
			2 => {
				// Shared and strided.
				let all: ArcArray1<T> = spread().into_shared();
				let before = ids(&mut all.iter());
				let mut v = all.clone().slice_move(s![..;-2]);
				let got = observe(&mut v, op, form, &arg, pool)?;
				if ids(&mut all.iter()) != before {
					return Err("another handle of the shared array observes a change".into());
				}
				got
			}
			3 => {
				// Shared, only handle, strided.
				let mut v = spread().into_shared().slice_move(s![..;-2]);
				observe(&mut v, op, form, &arg, pool)?
			}
			4 => {
				let a = mk();
				let mut v = CowArray::from(a.view());
				let got = observe(&mut v, op, form, &arg, pool)?;
				drop(v);
				if ids(&mut a.iter()) != start {
					return Err("the borrowed array changed behind a maybe-borrowed one".into());
				}
				got
			}
			5 => {
				let a = spread();
				let before = ids(&mut a.iter());
				let mut v = CowArray::from(a.slice(s![..;-2]));
				let got = observe(&mut v, op, form, &arg, pool)?;
				drop(v);
				if ids(&mut a.iter()) != before {
					return Err("the borrowed array changed behind a maybe-borrowed one".into());
				}
				got
			}
			6 => observe(&mut CowArray::from(mk()), op, form, &arg, pool)?,
			7 => {
				let mut a = spread();
				a.slice_collapse(s![..;-2]);
				observe(&mut a, op, form, &arg, pool)?
			}
			_ => {
				let mut a = spread();
				observe(&mut a.slice_mut(s![..;-2]).slice_mut(s![..]), op, form, &arg, pool)?
			}
		};
		same(&base, &got, op.par())?;
		let sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(name) ^ mix(kind + 7777) ^ mix(op as u64 + 50);
		ctx.eval(sig, n >= 2);
		ctx.ev("storages compared", 1);
	}
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, k: usize) -> Res {
	let lays: Vec<Layout> = (0..3).map(|_| gen_layout(r, n)).collect();
	let b3 = if op == Op::Bin || op == Op::Contains { Form::By } else { form };
	match k % 7 {
		0 => layouts::<P8>(ctx, r, op, form, n, &lays),
		1 if op != Op::Contains => layouts::<B3>(ctx, r, op, b3, n, &lays),
		2 => layouts::<W72>(ctx, r, op, form, n, &lays),
		3 => layouts::<Hb>(ctx, r, op, form, n, &lays),
		4 => layouts::<A64>(ctx, r, op, form, n, &lays),
		5 => layouts::<W264>(ctx, r, op, form, n, &lays),
		_ => storages::<P8>(ctx, r, op, form, n),
	}
}

fn main() {
	let mut ctx = Ctx::new("C14");
	let th = ctx.thorough;
	let ops: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	let lens = [0usize, 1, 2, 3, 4, 7, 8, 12, 20, 21, 30, 49, 50, 51, 64, 100, 128, 129, 200, 256, 257, 300, 600, 1025, 2001, 3000, 5001];
	let total = ops.len() * 5 * lens.len();
	ctx.fixed("table", total as u64, |ctx, r, i| {
		let mut i = i as usize;
		let mut take = |k: usize| {
			let x = i % k;
			i /= k;
			x
		};
		let (form, len, op) = (FORMS[take(5)], lens[take(lens.len())], ops[take(ops.len())]);
		let lays: Vec<Layout> = (1..9).filter(|&c| c < 7 || len <= 300).map(layout_class).collect();
		layouts::<P8>(ctx, r, op, form, len, &lays)?;
		storages::<P8>(ctx, r, op, form, len)?;
		if len < 1000 {
			layouts::<Hb>(ctx, r, op, form, len, &lays[..3])?;
		}
		Ok(())
	});
	// Elements far apart.
	ctx.fixed("wide", (ops.len() * if th { 40 } else { 10 }) as u64, |ctx, r, i| {
		let op = ops[i as usize % ops.len()];
		let form = pick_form(r);
		let n = genk::gen_len(r, 300).max(2);
		let page = [512isize, -513, 1024, -2048][i as usize / ops.len() % 4];
		let lays = [wide(r, n), Layout::Step { off: 1, step: page, tail: 1 }];
		layouts::<P8>(ctx, r, op, form, n, &lays)?;
		ctx.ev("wide strides", 2);
		Ok(())
	});
	ctx.timed("random", 1.0, 200, |ctx, r, i| {
		let op = if i % 4 == 0 && !PAR.is_empty() { r.pick(PAR) } else { r.pick(SEQ) };
		let n = genk::gen_len(r, if th { 60_000 } else { 10_000 });
		let form = pick_form(r);
		let k = r.below(6);
		any(ctx, r, op, form, n, k)
	});
	ctx.finish();
}
