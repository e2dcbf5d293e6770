//! C18: changes a callback makes to elements are never lost.
use harness::anyop::{Arg, Op, PAR, SEQ, SEQ_MUT, gen_arg, gen_content, run_how};
use harness::elem::{Ct, El, Mt, clear_ledgers, hits};
use harness::host::{Host, Layout, gen_layout};
use harness::ndarray::{Array1, ArrayViewMut1};
use harness::ops::{self, FORMS, Form};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::selcase::{par_select_killer, select_killer};
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{Slice1Ext, adv, genk, hook, oracle, par};

struct Case<'a> {
	op: Op,
	form: Form,
	keys: &'a [u32],
	lay: Layout,
	arg: &'a Arg,
	what: &'a str,
}

/// Checks the changes carried by every element of the view against the ledger.
fn judge<T: El>(ctx: &mut Ctx, c: &Case, host: &Host<T>, carried: fn(&T) -> Option<u32>, k: u64, fired: u64) -> Res {
	let n = c.keys.len();
	oracle::conserved(c.keys, &host.out())?;
	let mut changed = 0;
	for (p, e) in host.view().iter().enumerate() {
		let want = hits(e.id() as usize);
		match carried(e) {
			None => return Err(format!("element {} at position {p} carries a torn change", e.id())),
			Some(h) if h != want => return Err(format!("element {} at position {p} carries {h} changes, {want} were made", e.id())),
			_ => changed += (want > 0) as u64,
		}
	}
	host.check_canaries()?;
	let sig = oracle::digest_keys(c.keys) ^ mix(c.form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(c.lay)) ^ mix(c.op as u64 + 50) ^ mix(k ^ 99999);
	ctx.eval(sig, n >= 2 && changed > 0);
	ctx.ev("changed elements checked", changed);
	ctx.ev(if fired > 0 { "ended by an injected panic" } else { "ended normally" }, 1);
	Ok(())
}
fn expect(res: Result<(), Box<dyn std::any::Any + Send>>) -> Res {
	match res {
		Err(p) if p.is::<hook::Injected>() => Ok(()),
		Err(p) => Err(payload(&*p)),
		Ok(()) => Ok(()),
	}
}
fn setup(c: &Case, k: u64) {
	hook::reset();
	hook::cap(loop_cap(c.keys.len()));
	hook::panic_at(k, false);
}

fn run(ctx: &mut Ctx, c: &Case, k: u64, pool: usize, delay: u64) -> Result<u64, String> {
	let n = c.keys.len();
	let mut host = Host::<Mt>::new(c.lay, c.keys);
	ctx.begin(format_args!("{:?} {:?} on {} n={n} {:?} panic at call {k} pool {pool} delay {delay} content={}", c.op, c.form, Mt::NAME, c.lay, c.what));
	clear_ledgers(n);
	setup(c, k);
	if c.op.par() {
		hook::delay(delay);
	}
	let res = {
		let mut v = host.view_mut();
		guard(|| {
			run_how(c.op, c.form, &mut v, c.arg, pool);
		})
	};
	let (calls, fired) = (hook::calls(), hook::fired());
	hook::reset();
	expect(res)?;
	judge(ctx, c, &host, |e| e.carried(), k, fired)?;
	Ok(calls)
}

/// Elements changed through a `Cell`, which are not shareable between threads.
fn run_cell(ctx: &mut Ctx, c: &Case, k: u64, pool: usize) -> Result<u64, String> {
	let n = c.keys.len();
	let mut host = Host::<Ct>::new(c.lay, c.keys);
	ctx.begin(format_args!("{:?} {:?} on {} n={n} {:?} panic at call {k} pool {pool} content={}", c.op, c.form, Ct::NAME, c.lay, c.what));
	clear_ledgers(n);
	setup(c, k);
	let ix = Array1::from_vec(c.arg.many.clone());
	let res = {
		let v: &mut ArrayViewMut1<Ct> = &mut host.view_mut();
		guard(|| match c.op {
			Op::SortU => ops::sort_unstable(c.form, v),
			Op::SortS => ops::sort_stable(c.form, v),
			Op::Cached => ops::sort_cached(c.form, v),
			Op::Select => {
				let _ = ops::select(c.form, v, c.arg.index);
			}
			Op::Many => ops::select_many(c.form, v, &ix, &mut vec![]),
			Op::ParU => par::pools()[pool].install(|| ops::par_sort_unstable(c.form, v)),
			Op::ParS => par::pools()[pool].install(|| ops::par_sort_stable(c.form, v)),
			Op::ParMany => par::pools()[pool].install(|| ops::par_select_many(c.form, v, &ix, &mut vec![])),
			_ => {
				let _ = match c.form {
					Form::Ord => v.partition_dedup(),
					Form::Key | Form::KeyRev => v.partition_dedup_by_key(|a| harness::elem::key_el(a)),
					_ => v.partition_dedup_by(|a, b| harness::elem::cmp_el(a, b).is_eq()),
				};
			}
		})
	};
	let (calls, fired) = (hook::calls(), hook::fired());
	hook::reset();
	expect(res)?;
	judge(ctx, c, &host, |e| Some(e.carried()), k, fired)?;
	Ok(calls)
}

fn sweep(ctx: &mut Ctx, r: &mut Rng, c: &Case, most: u64) -> Res {
	let cell = c.op != Op::ParCached && !matches!(c.op, Op::Bin | Op::Point | Op::Contains | Op::IsSorted | Op::Reverse) && r.chance(1, 3);
	let mut go = |ctx: &mut Ctx, k| {
		let pool = r.below(par::pools().len());
		let delay = r.pick(&[0, 0, 1, 2, 4]);
		if cell { run_cell(ctx, c, k, pool) } else { run(ctx, c, k, pool, delay) }
	};
	let calls = go(ctx, u64::MAX)?;
	for j in 0..calls.min(most) {
		let k = if calls <= most { j } else { mix(j ^ calls) % calls };
		go(ctx, k)?;
	}
	Ok(())
}
fn one(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, most: u64) -> Res {
	if n == 0 {
		return Ok(());
	}
	let (keys, p) = gen_content(r, op, form, n, u32::MAX);
	let lay = gen_layout(r, n);
	let arg = gen_arg(r, &keys);
	let what = format!("pattern{p}");
	sweep(ctx, r, &Case { op, form, keys: &keys, lay, arg: &arg, what: &what }, most)
}

fn main() {
	let mut ctx = Ctx::new("C18");
	let th = ctx.thorough;
	let top = if th { 70 } else { 30 };
	ctx.fixed("short", (SEQ.len() * 5 * top) as u64, |ctx, r, i| {
		let i = i as usize;
		one(ctx, r, SEQ[i % SEQ.len()], FORMS[i / SEQ.len() % 5], 1 + i / SEQ.len() / 5, 3000)
	});
	ctx.fixed("medium", if th { 6000 } else { 900 }, |ctx, r, i| {
		let op = SEQ_MUT[i as usize % SEQ_MUT.len()];
		let n = r.range(30, 500);
		let form = pick_form(r);
		one(ctx, r, op, form, n, if th { 300 } else { 40 })
	});
	ctx.fixed("killer", if th { 2000 } else { 240 }, |ctx, r, i| {
		let n = r.range(60, 900);
		let op = [Op::SortU, Op::Select, Op::Many, Op::ParU, Op::ParMany][i as usize % 5];
		let mut arg = Arg { index: harness::selcase::gen_index(r, n), ..Arg::default() };
		arg.many = vec![arg.index];
		let rev = r.chance(1, 2);
		ctx.begin(format_args!("{op:?} against adaptive adversary n={n}"));
		hook::cap(loop_cap(n));
		let keys = match op {
			Op::SortU => adv::record(r, n, rev, |v, f| v.sort_unstable_by(|a, b| f(a, b))).0,
			Op::ParU => adv::record(r, n, rev, |v, f| par::pools()[0].install(|| v.par_sort_unstable_by(|a, b| f(a, b)))).0,
			Op::ParMany => par_select_killer(r, n, &arg.many, rev),
			_ => select_killer(r, n, arg.index, rev),
		};
		let lay = gen_layout(r, n);
		let form = r.pick(&[Form::Ord, Form::By, Form::Key]);
		sweep(ctx, r, &Case { op, form, keys: &keys, lay, arg: &arg, what: "killer" }, if th { 200 } else { 40 })
	});
	ctx.fixed("forked", if th { 2000 } else { 160 }, |ctx, r, i| {
		let n = r.range(2001, 14_000);
		let form = pick_form(r);
		one(ctx, r, PAR[i as usize % PAR.len()], form, n, if th { 60 } else { 8 })
	});
	ctx.fixed("long", if th { 1000 } else { 120 }, |ctx, r, i| {
		let op = SEQ_MUT[i as usize % SEQ_MUT.len()];
		let n = genk::gen_len_from(r, 500, 20_000);
		let form = pick_form(r);
		one(ctx, r, op, form, n, if th { 40 } else { 8 })
	});
	ctx.timed("random", 1.0, 60, |ctx, r, i| {
		let op = if i % 4 == 0 { r.pick(PAR) } else { r.pick(SEQ_MUT) };
		let n = genk::gen_len(r, 8000).max(1);
		let form = pick_form(r);
		one(ctx, r, op, form, n, 8)
	});
	ctx.finish();
}
