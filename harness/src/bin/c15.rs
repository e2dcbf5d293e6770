//! C15: a panicking callback leaves a sequential operation's array intact.
use harness::anyop::{Arg, Op, SEQ, SEQ_MUT, gen_arg, gen_content, run_op};
use harness::elem::{D, El, Kd, W72, clear_ledgers, dropped};
use harness::host::{Host, Layout, gen_layout};
use harness::ops::{FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::selcase::select_killer;
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{Slice1Ext, adv, genk, hook, oracle};

struct Case<'a> {
	op: Op,
	form: Form,
	keys: &'a [u32],
	lay: Layout,
	arg: &'a Arg,
	what: &'a str,
	/// Comparisons of keys count too.
	key_ticks: bool,
}

/// Runs with a panic at call `k` (and, if `all`, at every later one). Returns the calls made.
fn run<T: El + Sync>(ctx: &mut Ctx, c: &Case, k: u64, all: bool) -> Result<u64, String> {
	let n = c.keys.len();
	clear_ledgers(n);
	let mut host = Host::<T>::new(c.lay, c.keys);
	ctx.begin(format_args!("{:?} {:?} on {} n={n} {:?} panic at call {k} all={all} key comparisons={} content={}", c.op, c.form, T::NAME, c.lay, c.key_ticks, c.what));
	hook::reset();
	hook::cap(loop_cap(n));
	hook::panic_at(k, all);
	hook::key_ticks(c.key_ticks);
	let res = {
		let mut v = host.view_mut();
		guard(|| {
			run_op(c.op, c.form, &mut v, c.arg);
		})
	};
	let (calls, fired) = (hook::calls(), hook::fired());
	hook::reset();
	match res {
		Ok(()) if fired > 0 => return Err("the panic did not reach the caller".into()),
		Err(p) => match p.downcast_ref::<hook::Injected>() {
			Some(&i) if i == hook::Injected(k) => {}
			_ => return Err(format!("the caller got another panic: {}", payload(&*p))),
		},
		_ => {}
	}
	if let Some(f) = hook::foreign_seen() {
		return Err(f);
	}
	let out = host.out();
	oracle::conserved(c.keys, &out)?;
	host.check_canaries()?;
	if T::NAME == D::NAME {
		dropped(n, 0)?;
		drop(host);
		dropped(n, 1)?;
	}
	let sig = oracle::digest_keys(c.keys) ^ mix(c.form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(c.lay)) ^ mix(c.op as u64 + 50) ^ mix(k ^ 99999);
	ctx.eval(sig, n >= 2 && fired > 0);
	if fired > 0 {
		ctx.ev(&format!("panics injected: {:?}", c.op), 1);
		if out.iter().enumerate().any(|(i, e)| e.1 as usize != i) {
			ctx.ev("arrays partly rearranged at the panic", 1);
		}
	}
	Ok(calls)
}

fn sweep(ctx: &mut Ctx, r: &mut Rng, c: &Case, most: u64) -> Res {
	let wide = r.chance(1, 4);
	let go = |ctx: &mut Ctx, k, all| if wide { run::<W72>(ctx, c, k, all) } else { run::<D>(ctx, c, k, all) };
	let calls = go(ctx, u64::MAX, false)?;
	if calls <= most {
		for k in 0..calls {
			go(ctx, k, k % 3 == 1)?;
		}
		ctx.ev("swept over every call", 1);
	} else {
		for j in 0..most {
			let k = match j % 8 {
				0 => j / 8 % calls,
				1 => calls - 1 - (j / 8 % calls),
				_ => r.below(calls as usize) as u64,
			};
			go(ctx, k, j % 3 == 1)?;
		}
	}
	Ok(())
}

fn one(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, most: u64) -> Res {
	if n == 0 {
		return Ok(());
	}
	let (keys, p) = gen_content(r, op, form, n, u32::MAX);
	let lay = gen_layout(r, n);
	let arg = gen_arg(r, &keys);
	let what = format!("pattern{p}");
	let key_ticks = r.chance(1, 3);
	sweep(ctx, r, &Case { op, form, keys: &keys, lay, arg: &arg, what: &what, key_ticks }, most)
}

/// Collection that has had enough after some items.
struct Fussy<'a> {
	items: Vec<(usize, &'a mut D)>,
	/// Takes one item at a time though it is offered several.
	sip: bool,
}
impl<'a> Extend<(usize, &'a mut D)> for Fussy<'a> {
	fn extend<I: IntoIterator<Item = (usize, &'a mut D)>>(&mut self, it: I) {
		let mut it = it.into_iter();
		loop {
			if self.sip {
				hook::tick();
			}
			let Some(x) = it.next() else { break };
			if !self.sip {
				hook::tick();
			}
			self.items.push(x);
		}
	}
}
/// Panics in what is not called back by name: the collection taking items in, and destructors of keys.
fn beyond(ctx: &mut Ctx, r: &mut Rng, i: u64) -> Res {
	let what = i as usize % 9;
	let n = genk::gen_len(r, 700).max(1);
	let op = if what < 2 { Op::Many } else { [Op::SortU, Op::SortS, Op::Cached, Op::Select, Op::Many, Op::Dedup, Op::Bin][what - 2] };
	let (keys, p) = gen_content(r, op, Form::Key, n, u32::MAX);
	let lay = gen_layout(r, n);
	let arg = gen_arg(r, &keys);
	let sip = r.chance(1, 2);
	let mut total = u64::MAX;
	let most = 24;
	let mut j = 0;
	while j <= most {
		let k = match j {
			0 => u64::MAX,
			_ if total <= most => j - 1,
			1 => 0,
			2 => total - 1,
			_ => r.below(total as usize) as u64,
		};
		j += 1;
		if k != u64::MAX && k >= total {
			break;
		}
		clear_ledgers(n);
		let mut host = Host::<D>::new(lay, &keys);
		ctx.begin(format_args!("{op:?} n={n} {lay:?} content=pattern{p}: panic at call {k} of {}", if what < 2 { "the collection" } else { "the key's destructor" }));
		hook::reset();
		hook::cap(loop_cap(n));
		let res = {
			let mut v = host.view_mut();
			let ix = harness::ndarray::Array1::from_vec(arg.many.clone());
			if what < 2 {
				let mut c = Fussy { items: vec![], sip };
				let c = &mut c;
				let ix = &ix;
				let v = &mut v;
				// Only the collection counts.
				hook::panic_at(k, false);
				guard(move || v.select_many_nth_unstable_by(ix, c, |a: &D, b: &D| a.key().cmp(&b.key())))
			} else {
				hook::panic_at(k, false);
				let f = |e: &D| Kd(e.key());
				guard(|| match op {
					Op::SortU => v.sort_unstable_by_key(f),
					Op::SortS => v.sort_by_key(f),
					Op::Cached => v.sort_by_cached_key(f),
					Op::Select => drop(v.select_nth_unstable_by_key(arg.index, f)),
					Op::Many => v.select_many_nth_unstable_by_key(&ix, &mut vec![], f),
					Op::Dedup => drop(v.partition_dedup_by_key(|e| Kd(e.key()))),
					_ => {
						let _ = v.binary_search_by_key(&Kd(arg.target), f);
					}
				})
			}
		};
		let (calls, fired) = (hook::calls(), hook::fired());
		hook::reset();
		match res {
			Ok(()) if fired > 0 => return Err("the panic did not reach the caller".into()),
			Err(p) if p.downcast_ref::<hook::Injected>().is_none() => return Err(payload(&*p)),
			_ => {}
		}
		oracle::conserved(&keys, &host.out())?;
		host.check_canaries()?;
		dropped(n, 0)?;
		drop(host);
		dropped(n, 1)?;
		if k == u64::MAX {
			total = calls;
		}
		if fired > 0 {
			ctx.ev(if what < 2 { "panics injected: collection" } else { "panics injected: destructors of keys" }, 1);
		}
		ctx.eval(oracle::digest_keys(&keys) ^ mix(what as u64) ^ mix(hash_layout(lay)) ^ mix(k ^ 777), fired > 0);
		if total == 0 {
			break;
		}
	}
	Ok(())
}

harness::watch_alloc!();

fn main() {
	let mut ctx = Ctx::new("C15");
	let th = ctx.thorough;
	ctx.fixed("beyond", if th { 20_000 } else { 1400 }, beyond);
	// Every call on short arrays.
	let top = if th { 70 } else { 36 };
	ctx.fixed("short", (SEQ.len() * 5 * top * 2) as u64, |ctx, r, i| {
		let i = i as usize;
		one(ctx, r, SEQ[i % SEQ.len()], FORMS[i / SEQ.len() % 5], 1 + i / SEQ.len() / 5 % top, 5000)
	});
	ctx.fixed("medium", if th { 6000 } else { 700 }, |ctx, r, i| {
		let op = SEQ_MUT[i as usize % SEQ_MUT.len()];
		let n = r.range(37, 400);
		let form = pick_form(r);
		one(ctx, r, op, form, n, if th { 400 } else { 100 })
	});
	// Deep inside the fallbacks that only hostile inputs reach.
	ctx.fixed("killer", if th { 2000 } else { 160 }, |ctx, r, i| {
		let n = r.range(60, 700);
		let op = if i % 2 == 0 { Op::SortU } else { r.pick(&[Op::Select, Op::Many]) };
		let mut arg = Arg { index: harness::selcase::gen_index(r, n), ..Arg::default() };
		let rev = r.chance(1, 2);
		ctx.begin(format_args!("{op:?} against adaptive adversary n={n}"));
		hook::cap(loop_cap(n));
		let keys = if op == Op::SortU { adv::record(r, n, rev, |v, f| v.sort_unstable_by(|a, b| f(a, b))).0 } else { select_killer(r, n, arg.index, rev) };
		arg.many = vec![arg.index];
		let lay = gen_layout(r, n);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		let most = if th { 400 } else { 120 };
		sweep(ctx, r, &Case { op, form, keys: &keys, lay, arg: &arg, what: "killer", key_ticks: r.clone().chance(1, 4) }, most)
	});
	// Merges of long runs, block partitioning.
	ctx.fixed("long", if th { 1500 } else { 120 }, |ctx, r, i| {
		let op = SEQ_MUT[i as usize % SEQ_MUT.len()];
		let n = genk::gen_len_from(r, 400, if th { 20_000 } else { 5000 });
		let form = pick_form(r);
		one(ctx, r, op, form, n, if th { 100 } else { 30 })
	});
	// Merges whose stack of runs has been moved to a greater one.
	ctx.fixed("pending", if th { 80 } else { 16 }, |ctx, r, i| {
		let keys = genk::pending(r, 17 + i as usize / 8 % 2);
		let n = keys.len();
		let lay = harness::sortcase::pick_layout(r, n);
		let c = Case { op: Op::SortS, form: Form::By, keys: &keys, lay, arg: &Arg::default(), what: "pending", key_ticks: false };
		sweep(ctx, r, &c, if th { 60 } else { 12 })
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = if r.chance(5, 6) { r.pick(SEQ_MUT) } else { r.pick(SEQ) };
		let n = genk::gen_len(r, 3000).max(1);
		let form = pick_form(r);
		one(ctx, r, op, form, n, 20)
	});
	ctx.finish();
}
