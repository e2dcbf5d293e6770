//! C23: stack usage stays logarithmic, seen from the stack addresses of callbacks.
//! Parallel operations run on a pool of a single thread, so that no stolen work lies on the stack.
use harness::anyop::{Arg, Op, gen_arg, gen_content};
use harness::cost::{attack, count, log2};
use harness::elem::{El, P8, W72};
use harness::host::{Host, gen_layout, layout_class};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, pick_form};
use harness::{genk, hook, oracle};

/// Several times what is seen, whereas a frame per element or per index takes megabytes.
fn bound(op: Op, n: usize, m: usize) -> u64 {
	let doublings = log2(n) + if matches!(op, Op::Many | Op::ParMany) { log2(m + 1) } else { 0.0 };
	if op.par() || op == Op::Cached { 24 * 1024 + (2048.0 * doublings) as u64 } else { 12 * 1024 + (1024.0 * doublings) as u64 }
}

/// Deep enough for tens of thousands of frames, so that deep recursion is measured, not crashed on.
fn roomy<R: Send>(size: usize, f: impl FnOnce() -> R + Send) -> R {
	std::thread::scope(|s| match std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join() {
		Ok(r) => r,
		Err(p) => std::panic::resume_unwind(p),
	})
}

fn judge(ctx: &mut Ctx, op: Op, n: usize, m: usize, what: &str, small: bool) -> Res {
	let (span, areas) = hook::stack_span();
	hook::stack(false);
	if small {
		// Spilled: the stack of the thread and a segment, each over two megabytes at most.
		if areas > 4 {
			return Err(format!("callbacks ran on {areas} megabytes of stack for {n} elements"));
		}
		if span > 1 << 20 {
			ctx.ev("runs spilled to a new stack segment", 1);
		}
		ctx.ev("runs on small stacks", 1);
		return Ok(());
	}
	let limit = bound(op, n, m);
	if span > limit {
		return Err(format!("callbacks ran over {span} bytes of stack for {n} elements, {m} indices: at most {limit} are logarithmic"));
	}
	if span > 0 {
		ctx.ev_max(&format!("stack span of {op:?} on {}, bytes", if what == "adversary" { "attacks" } else { "inputs" }), span);
		ctx.ev_max(&format!("stack span of {op:?} per doubling, bytes"), (span as f64 / (log2(n) + log2(m + 1))) as u64);
	}
	Ok(())
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], arg: &Arg, what: &str) -> Res {
	let n = keys.len();
	let lay = if n > 2000 && r.chance(3, 4) { layout_class(r.below(2)) } else { gen_layout(r, n) };
	let m = arg.many.len();
	let mut host = Host::<T>::new(lay, keys);
	let small = !op.par() && r.chance(1, 5);
	let size = if small { (r.pick(&[48usize, 64, 80, 128]) - if cfg!(feature = "stk") { 16 } else { 0 }) << 10 } else { 256 << 20 };
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} m={m} index={} stack={}k {lay:?} content={what}", T::NAME, arg.index, size >> 10));
	let mut go = || {
		hook::stack(true);
		count(op, form, &mut host, keys, arg, 0, u64::MAX / 8)
	};
	let calls = if op.par() { go()? } else { roomy(size, go)? };
	let out = host.out();
	if op.sorts() {
		oracle::sorted(&out, form.rev())?;
	}
	judge(ctx, op, n, m, what, small)?;
	ctx.ev("callback addresses seen", calls);
	let sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
	ctx.eval(mix(sig ^ arg.many.iter().fold(arg.index as u64, |h, &i| mix(h ^ i as u64))), n >= 2);
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], arg: &Arg, what: &str) -> Res {
	if r.chance(2, 3) || keys.len() > 40_000 { case::<P8>(ctx, r, op, form, keys, arg, what) } else { case::<W72>(ctx, r, op, form, keys, arg, what) }
}

const OPS: &[Op] = &[Op::SortU, Op::SortS, Op::Cached, Op::Select, Op::Many, Op::ParU, Op::ParS, Op::ParCached, Op::ParMany];

fn args(r: &mut Rng, keys: &[u32]) -> Arg {
	let n = keys.len();
	let mut a = gen_arg(r, keys);
	match r.below(6) {
		// Everything, or nearly.
		0 => a.many = (0..n).collect(),
		1 => a.many = (0..n).filter(|i| i % 3 != 1).collect(),
		2 => {
			// Lopsided index sets.
			let k = r.range(1, n);
			a.many = if r.chance(1, 2) { (0..k).collect() } else { (n - k..n).collect() };
		}
		3 => {
			let mut i = 1;
			a.many = vec![0];
			while i < n {
				a.many.push(i);
				i = i * 3 / 2 + 1;
			}
			if r.chance(1, 2) {
				a.many = a.many.iter().rev().map(|i| n - 1 - i).collect();
			}
		}
		_ => {}
	}
	a
}

fn main() {
	let mut ctx = Ctx::new("C23");
	let th = ctx.thorough;
	let mut tab = vec![];
	for p in 0..genk::NPAT {
		for n in [50usize, 2500, 12_000] {
			for &op in OPS {
				tab.push((p, n, op));
			}
		}
	}
	ctx.fixed("table", tab.len() as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let (p, n, op) = tab[i as usize % tab.len()];
		let keys = genk::pattern(r, n, p);
		let form = FORMS[r.below(5)];
		let arg = args(r, &keys);
		any(ctx, r, op, form, &keys, &arg, &format!("pattern{p}"))
	});
	ctx.fixed("large", if th { 720 } else { 72 }, |ctx, r, i| {
		let op = OPS[i as usize % 9];
		let p = i as usize / 9 % genk::NPAT;
		let n = if th { 1_000_000 } else { 250_000 };
		let keys = genk::pattern(r, n, p);
		let arg = args(r, &keys);
		case::<P8>(ctx, r, op, Form::By, &keys, &arg, &format!("pattern{p}"))
	});
	ctx.fixed("adversary", if th { 9000 } else { 270 }, |ctx, r, i| {
		let op = OPS[i as usize % 9];
		let n = match i / 9 % 4 {
			0 => r.range(40, 1500),
			1 => r.range(1500, 6000),
			2 => r.range(6000, 40_000),
			_ => r.range(20_000, 50_000),
		};
		let rev = r.chance(1, 2);
		let dummy: Vec<u32> = vec![0; n];
		let arg = args(r, &dummy);
		let m = arg.many.len();
		ctx.begin(format_args!("{op:?} answered by the adversary n={n} m={m} index={} rev={rev}", arg.index));
		let mut go = || {
			hook::stack(true);
			attack(r, op, n, rev, &arg, 0, 400 * n as u64 * log2(n) as u64)
		};
		let (keys, c) = if op.par() { go()? } else { roomy(256 << 20, go)? };
		judge(ctx, op, n, m, "adversary", false)?;
		ctx.eval(mix(r.next()), true);
		ctx.ev("callback addresses seen", c);
		ctx.ev("adversaries played", 1);
		if keys.is_empty() {
			return Ok(());
		}
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		any(ctx, r, op, form, &keys, &arg, "recorded")?;
		let other = r.pick(OPS);
		let arg = args(r, &keys);
		any(ctx, r, other, form, &keys, &arg, "recorded")
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = r.pick(OPS);
		let n = genk::gen_len(r, if th { 300_000 } else { 30_000 }).max(2);
		let form = pick_form(r);
		let (keys, p) = gen_content(r, op, form, n, u32::MAX);
		let arg = args(r, &keys);
		any(ctx, r, op, form, &keys, &arg, &format!("pattern{p}"))
	});
	ctx.finish();
}
