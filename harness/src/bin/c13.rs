//! C13: operations stay within their view of the parent array.
use harness::anyop::{Op, PAR, SEQ, SEQ_MUT, gen_arg, gen_content, run_how, run_op};
use harness::elem::{A64, B3, El, P8, W264, W72};
use harness::host::{Host, Layout, gen_layout, layout_class};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{genk, hook, oracle, par};

#[derive(Clone, Copy, Debug)]
enum Mode {
	Plain,
	/// The callback panics at this call (and at all later ones).
	Panic(u64, bool),
	/// The order is inconsistent.
	Lie(u64, u64),
}

#[allow(clippy::too_many_arguments)]
fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, lay: Layout, mode: Mode) -> Res {
	let n = n.min(T::MAXLEN - 2);
	let (keys, p) = gen_content(r, op, form, n, T::MAXKEY);
	if n == 0 && op == Op::Select {
		return Ok(());
	}
	let arg = gen_arg(r, &keys);
	let pool = r.below(par::pools().len());
	let mut host = Host::<T>::new(lay, &keys);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} {lay:?} content=pattern{p} {mode:?} arg {} {}", T::NAME, arg.index, arg.many.len()));
	hook::reset();
	hook::cap(loop_cap(n));
	match mode {
		Mode::Panic(k, all) => hook::panic_at(k, all),
		Mode::Lie(m, s) => hook::answers(m, s),
		_ => {}
	}
	let res = {
		let mut v = host.view_mut();
		guard(|| run_how(op, form, &mut v, &arg, pool))
	};
	let calls = hook::calls();
	let fired = hook::fired();
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	if let Ok(ret) = &res {
		if ret.contains(&-1) {
			return Err("a returned view or reference lies outside the view".into());
		}
	}
	let can = host.check_canaries()?;
	if let Some((p, e)) = host.out().iter().enumerate().find(|(_, e)| e.1 >= n as u32) {
		return Err(format!("position {p} of the view holds foreign identity {:#x}", e.1));
	}
	let mut sig = oracle::digest_keys(&keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
	sig = mix(sig ^ hash_str(&format!("{mode:?}")));
	ctx.eval(sig, n >= 2 && can > 0);
	ctx.ev("cells outside the view checked", can as u64);
	ctx.ev("callback calls watched", calls);
	match mode {
		Mode::Panic(..) if fired > 0 => ctx.ev("ended by an injected panic", 1),
		Mode::Lie(..) => ctx.ev("run under an inconsistent order", 1),
		_ => ctx.ev("run plainly", 1),
	}
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, lay: Layout, mode: Mode) -> Res {
	match if n > 20_000 { 0 } else { r.below(5) } {
		0 => case::<P8>(ctx, r, op, form, n, lay, mode),
		1 => case::<B3>(ctx, r, op, if op == Op::Bin && form == Form::Ord || op == Op::Contains { Form::By } else { form }, n, lay, mode),
		2 => case::<W72>(ctx, r, op, form, n, lay, mode),
		3 => case::<A64>(ctx, r, op, form, n, lay, mode),
		_ => case::<W264>(ctx, r, op, form, n, lay, mode),
	}
}
fn gen_mode(r: &mut Rng, n: usize) -> Mode {
	match r.below(4) {
		0 => Mode::Panic(r.logu(4 * n + 4) as u64 - 1, r.chance(1, 3)),
		1 => Mode::Lie(r.range(1, hook::LIES as usize) as u64, r.next()),
		_ => Mode::Plain,
	}
}

harness::watch_alloc!();

fn main() {
	let mut ctx = Ctx::new("C13");
	let th = ctx.thorough;
	// Every operation in every form on every class of layout, short and long.
	let ops: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	let lens = [0usize, 1, 2, 3, 5, 9, 20, 21, 33, 50, 64, 100, 129, 200, 256, 300, 513, 1000, 2001, 2500, 5001];
	let total = ops.len() * 5 * 9 * lens.len();
	ctx.fixed("table", total as u64, |ctx, r, i| {
		let mut i = i as usize;
		let mut take = |k: usize| {
			let x = i % k;
			i /= k;
			x
		};
		let (form, class, len, op) = (FORMS[take(5)], take(9), lens[take(lens.len())], ops[take(ops.len())]);
		let lay = layout_class(class);
		if class >= 7 && len > 300 {
			return Ok(());
		}
		for m in 0..2 {
			let mode = if m == 0 { Mode::Plain } else { gen_mode(r, len) };
			any(ctx, r, op, form, len, lay, mode)?;
		}
		Ok(())
	});
	// Panic at every call on short views.
	ctx.fixed("every call", if th { 4000 } else { 600 }, |ctx, r, i| {
		let op = SEQ_MUT[i as usize % SEQ_MUT.len()];
		let n = if i % 7 == 0 { r.range(40, 140) } else { r.range(2, 40) };
		let form = pick_form(r);
		let lay = gen_layout(r, n);
		let seed = r.clone();
		hook::reset();
		any(ctx, &mut seed.clone(), op, form, n, lay, Mode::Plain)?;
		let calls = hook::calls();
		for k in (0..calls).step_by(1 + calls as usize / 150) {
			any(ctx, &mut seed.clone(), op, form, n, lay, Mode::Panic(k, false))?;
		}
		Ok(())
	});
	// Panic anywhere in longer ones.
	ctx.fixed("any call", if th { 6000 } else { 700 }, |ctx, r, i| {
		let op = SEQ_MUT[i as usize % SEQ_MUT.len()];
		let n = r.range(140, 1500);
		let form = pick_form(r);
		let lay = if r.chance(1, 2) { layout_class(r.range(1, 3)) } else { gen_layout(r, n) };
		let seed = r.clone();
		hook::reset();
		any(ctx, &mut seed.clone(), op, form, n, lay, Mode::Plain)?;
		let calls = hook::calls() as usize;
		for _ in 0..if calls > 0 { 8 } else { 0 } {
			let k = r.below(calls) as u64;
			any(ctx, &mut seed.clone(), op, form, n, lay, Mode::Panic(k, false))?;
		}
		Ok(())
	});
	ctx.timed("random", 1.0, 300, |ctx, r, i| {
		let op = if i % 3 == 0 && !PAR.is_empty() { r.pick(PAR) } else { r.pick(SEQ) };
		let max = if th { 60_000 } else { 12_000 };
		let n = if op.par() && r.chance(1, 2) { genk::gen_len_from(r, 2001, max) } else { genk::gen_len(r, max) };
		let form = pick_form(r);
		let lay = loop {
			let l = gen_layout(r, n);
			if l != Layout::Owned {
				break l;
			}
		};
		let mode = gen_mode(r, n);
		any(ctx, r, op, form, n, lay, mode)
	});
	let _ = run_op::<P8, harness::ndarray::ViewRepr<&mut P8>>;
	ctx.finish();
}
