//! C16: a panicking callback leaves a parallel operation's array intact.
use harness::anyop::{Arg, Op, PAR, gen_arg, gen_content, run_op};
use harness::elem::{D, El, Kd, W72, clear_ledgers, dropped};
use harness::host::{Host, Layout, gen_layout};
use harness::ops::Form;
use harness::par::{self, How, gen_how};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::selcase::par_select_killer;
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{Slice1Ext, adv, genk, hook, oracle};

struct Case<'a> {
	op: Op,
	form: Form,
	keys: &'a [u32],
	lay: Layout,
	arg: &'a Arg,
	what: &'a str,
	key_ticks: bool,
}

fn run<T: El + Sync>(ctx: &mut Ctx, c: &Case, k: u64, all: bool, how: How) -> Result<u64, String> {
	let n = c.keys.len();
	clear_ledgers(n);
	let mut host = Host::<T>::new(c.lay, c.keys);
	ctx.begin(format_args!("{:?} {:?} on {} n={n} {:?} panic at call {k} all={all} {how:?} content={}", c.op, c.form, T::NAME, c.lay, c.what));
	hook::reset();
	hook::cap(loop_cap(n));
	hook::delay(how.delay);
	hook::trace(true);
	hook::panic_at(k, all);
	hook::key_ticks(c.key_ticks);
	let (res, calls) = {
		let mut v = host.view_mut();
		let res = guard(|| {
			par::run(how, &mut || {
				run_op(c.op, c.form, &mut v, c.arg);
			})
		});
		(res, hook::calls())
	};
	let fired = hook::fired();
	let (sched, switches) = hook::sched();
	match &res {
		Ok(()) if fired > 0 => return Err("the panic did not reach the caller".into()),
		Err(p) => match p.downcast_ref::<hook::Injected>() {
			Some(&i) if i == hook::Injected(k) => {}
			_ => return Err(format!("the caller got another panic: {}", payload(&**p))),
		},
		_ => {}
	}
	drop(res);
	let out = host.out();
	oracle::conserved(c.keys, &out)?;
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	host.check_canaries()?;
	// Nobody works on the array any more.
	for _ in 0..3 {
		std::thread::yield_now();
	}
	if fired > 0 && how.delay != 0 && k % 5 == 0 {
		std::thread::sleep(std::time::Duration::from_micros(300));
	}
	if hook::calls() != calls {
		return Err(format!("{} callback calls happened after the operation had returned", hook::calls() - calls));
	}
	if host.out() != out {
		return Err("the array changed after the operation had returned".into());
	}
	hook::reset();
	if T::NAME == D::NAME {
		dropped(n, 0)?;
		drop(host);
		dropped(n, 1)?;
	}
	let sig = oracle::digest_keys(c.keys) ^ mix(c.form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(c.lay)) ^ mix(c.op as u64 + 50) ^ mix(k ^ 99999) ^ mix(sched);
	ctx.eval(sig, n >= 2 && fired > 0);
	if fired > 0 {
		ctx.ev(&format!("panics injected: {:?}", c.op), fired);
		if fired > 1 {
			ctx.ev("runs with panics on several calls", 1);
		}
		ctx.ev("thread switches inside callbacks", switches);
		if switches > 1 {
			ctx.sched(sched);
		}
	}
	// The pool still works.
	if k % 16 == 0 && how.pool != usize::MAX {
		let p = &par::pools()[how.pool];
		let mut a: harness::ndarray::Array1<u32> = (0..3000u32).map(|i| i * 7919 % 3001).collect();
		let ok = guard(|| {
			p.install(|| {
				a.par_sort_unstable();
				rayon::join(|| 1, || 2)
			})
		});
		if ok.ok() != Some((1, 2)) || !a.is_sorted() {
			return Err("the pool is not usable after the panic".into());
		}
		ctx.ev("pools checked", 1);
	}
	Ok(calls)
}

fn sweep(ctx: &mut Ctx, r: &mut Rng, c: &Case, most: u64) -> Res {
	let wide = r.chance(1, 5);
	let first = gen_how(r);
	let go = |ctx: &mut Ctx, k, all, how| if wide { run::<W72>(ctx, c, k, all, how) } else { run::<D>(ctx, c, k, all, how) };
	let calls = go(ctx, u64::MAX, false, first)?;
	if calls == 0 {
		return Ok(());
	}
	let one = How { pool: 0, mode: 0, delay: 0 };
	for j in 0..calls.min(most) {
		let k = if calls <= most {
			j
		} else {
			match j % 8 {
				0 => j / 8 % calls,
				1 => calls - 1 - (j / 8 % calls),
				_ => r.below(calls as usize) as u64,
			}
		};
		let how = if r.chance(1, 6) { one } else { gen_how(r) };
		go(ctx, k, j % 2 == 1, how)?;
	}
	Ok(())
}

fn one(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, most: u64) -> Res {
	if n == 0 {
		return Ok(());
	}
	let (keys, p) = gen_content(r, op, form, n, u32::MAX);
	let lay = gen_layout(r, n);
	let mut arg = gen_arg(r, &keys);
	if arg.many.is_empty() {
		arg.many = vec![arg.index];
	}
	let what = format!("pattern{p}");
	let key_ticks = r.chance(1, 3);
	sweep(ctx, r, &Case { op, form, keys: &keys, lay, arg: &arg, what: &what, key_ticks }, most)
}

harness::watch_alloc!();

/// Panics in destructors of keys.
fn beyond(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
	let op = PAR[i as usize % PAR.len()];
	let n = if r.chance(1, 2) { genk::gen_len(r, 700).max(1) } else { r.range(2001, 7000) };
	let (keys, p) = gen_content(r, op, Form::Key, n, u32::MAX);
	let lay = gen_layout(r, n);
	let arg = gen_arg(r, &keys);
	let how = gen_how(r);
	let mut total = u64::MAX;
	for j in 0..16 {
		let k = match j {
			0 => u64::MAX,
			1 => 0,
			2 => total - 1,
			_ => r.below(total as usize) as u64,
		};
		clear_ledgers(n);
		let mut host = Host::<D>::new(lay, &keys);
		ctx.begin(format_args!("{op:?} n={n} {lay:?} {how:?} content=pattern{p}: panic at call {k} of the key's destructor"));
		hook::reset();
		hook::cap(loop_cap(n));
		hook::delay(how.delay);
		hook::panic_at(k, false);
		let ix = harness::ndarray::Array1::from_vec(arg.many.clone());
		let f = |e: &D| Kd(e.key());
		let res = {
			let mut v = host.view_mut();
			let v = &mut v;
			guard(|| match op {
				Op::ParU => par::run(how, &mut || v.par_sort_unstable_by_key(f)),
				Op::ParS => par::run(how, &mut || v.par_sort_by_key(f)),
				Op::ParCached => par::run(how, &mut || v.par_sort_by_cached_key(f)),
				_ => par::run(how, &mut || {
					let mut w = v.view_mut();
					w.par_select_many_nth_unstable_by_key(&ix, &mut vec![], f)
				}),
			})
		};
		let (calls, fired) = (hook::calls(), hook::fired());
		hook::reset();
		match res {
			Ok(()) if fired > 0 => return Err("the panic did not reach the caller".into()),
			Err(p) if p.downcast_ref::<hook::Injected>().is_none() => return Err(payload(&*p)),
			_ => {}
		}
		oracle::conserved(&keys, &host.out())?;
		host.check_canaries()?;
		dropped(n, 0)?;
		drop(host);
		dropped(n, 1)?;
		if k == u64::MAX {
			total = calls;
		}
		if fired > 0 {
			ctx.ev("panics injected: destructors of keys", 1);
		}
		ctx.eval(oracle::digest_keys(&keys) ^ mix(op as u64) ^ mix(hash_layout(lay)) ^ mix(k ^ 777), fired > 0);
		if total == 0 {
			break;
		}
	}
	Ok(())
}

fn main() {
	let mut ctx = Ctx::new("C16");
	let th = ctx.thorough;
	ctx.fixed("beyond", if th { 4000 } else { 300 }, beyond);
	ctx.fixed("short", if th { 2000 } else { 300 }, |ctx, r, i| {
		let n = r.range(1, 150);
		let form = pick_form(r);
		one(ctx, r, PAR[i as usize % PAR.len()], form, n, if th { 400 } else { 60 })
	});
	ctx.fixed("forked", if th { 3000 } else { 200 }, |ctx, r, i| {
		let n = match i % 3 {
			0 => r.range(2001, 4100),
			1 => r.range(4000, 9000),
			_ => r.range(5000, 14_000),
		};
		let form = pick_form(r);
		one(ctx, r, PAR[i as usize / 3 % PAR.len()], form, n, if th { 100 } else { 30 })
	});
	// Long presorted stretches make parallel merging split.
	ctx.fixed("merge", if th { 1000 } else { 80 }, |ctx, r, _| {
		let n = r.range(6000, 20_000);
		let p = r.pick(&[16, 18, 23, 24, 13]);
		let keys = genk::pattern(r, n, p);
		let lay = gen_layout(r, n);
		let form = pick_form(r);
		let arg = gen_arg(r, &keys);
		sweep(ctx, r, &Case { op: Op::ParS, form, keys: &keys, lay, arg: &arg, what: "stretches", key_ticks: false }, if th { 100 } else { 30 })
	});
	ctx.fixed("killer", if th { 600 } else { 64 }, |ctx, r, i| {
		let n = if i % 4 == 0 { r.range(2100, 5000) } else { r.range(60, 700) };
		let op = if i % 2 == 0 { Op::ParU } else { Op::ParMany };
		let mut arg = Arg { index: harness::selcase::gen_index(r, n), ..Arg::default() };
		arg.many = vec![arg.index];
		let rev = r.chance(1, 2);
		ctx.begin(format_args!("{op:?} against adaptive adversary n={n}"));
		hook::cap(loop_cap(n));
		let keys = if op == Op::ParU {
			adv::record(r, n, rev, |v, f| par::pools()[0].install(|| v.par_sort_unstable_by(|a, b| f(a, b)))).0
		} else {
			par_select_killer(r, n, &arg.many, rev)
		};
		let lay = gen_layout(r, n);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		sweep(ctx, r, &Case { op, form, keys: &keys, lay, arg: &arg, what: "killer", key_ticks: false }, 60)
	});
	ctx.timed("random", 1.0, 20, |ctx, r, _| {
		let op = r.pick(PAR);
		let max = if th { 60_000 } else { 16_000 };
		let n = if r.chance(1, 4) { genk::gen_len(r, max).max(1) } else { genk::gen_len_from(r, 2001, max) };
		let form = pick_form(r);
		one(ctx, r, op, form, n, 12)
	});
	ctx.finish();
}
