//! C24: the same content gives the same outcome on every repetition, in every process, at every
//! address, after any history, and for parallel operations for any number of threads and schedule.
use harness::anyop::{Arg, Op, gen_arg, gen_content, run_how, run_op};
use harness::elem::{B3, El, P8, W72};
use harness::host::{Host, Layout, gen_layout};
use harness::ops::{FORMS, Form};
use harness::par::{self, gen_how};
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::sortcase::{hash_layout, loop_cap, pick_form};
use harness::{genk, hook, oracle};
use harness::anyop::{PAR, SEQ};

/// What one execution showed.
#[derive(PartialEq, Eq, Clone)]
struct Seen {
	out: Vec<(u32, u32)>,
	ret: Vec<i64>,
	/// Digest and number of comparisons; of sequential operations only.
	calls: (u64, u64),
}
impl Seen {
	fn digest(&self) -> u64 {
		let h = self.out.iter().fold(1, |h, &(k, i)| mix(h ^ (k as u64) << 32 ^ i as u64));
		let h = self.ret.iter().fold(h, |h, &x| mix(h ^ x as u64));
		mix(h ^ self.calls.0) ^ self.calls.1
	}
}

#[derive(Clone, Copy)]
struct Case<'a> {
	op: Op,
	form: Form,
	keys: &'a [u32],
	lay: Layout,
	arg: &'a Arg,
}

fn once<T: El + Sync>(c: &Case, host: &mut Host<T>, r: &mut Rng, k: usize, ctx: &mut Ctx) -> Result<Seen, String> {
	let how = gen_how(r);
	hook::reset();
	hook::cap(loop_cap(c.keys.len()));
	let res = {
		let mut v = host.view_mut();
		if c.op.par() {
			if k > 0 {
				hook::delay(how.delay);
			}
			hook::trace(true);
			guard(|| {
				let mut ret = vec![];
				let mut go = || ret = run_op(c.op, c.form, &mut v, c.arg);
				if k == 0 { par::pools()[0].install(go) } else { par::run(how, &mut go) }
				ret
			})
		} else {
			hook::digest(true);
			guard(|| run_how(c.op, c.form, &mut v, c.arg, 0))
		}
	};
	let calls = if c.op.par() { (0, 0) } else { (hook::DIGEST.load(std::sync::atomic::Ordering::SeqCst), hook::calls()) };
	let (sched, switches) = hook::sched();
	hook::reset();
	let ret = res.map_err(|p| payload(&*p))?;
	let out = host.out();
	oracle::conserved(c.keys, &out)?;
	if c.op.par() && switches > 1 {
		ctx.sched(sched);
		ctx.ev("thread switches inside callbacks", switches);
	}
	Ok(Seen { out, ret, calls })
}

/// Something else, before the repetition.
fn history(r: &mut Rng) -> Res {
	let n = r.range(2, 200);
	let form = pick_form(r);
	let op = if r.chance(1, 2) { r.pick(SEQ) } else { r.pick(PAR) };
	let (keys, _) = gen_content(r, op, form, n, u32::MAX);
	let arg = gen_arg(r, &keys);
	let mut host = Host::<P8>::new(Layout::Owned, &keys);
	hook::reset();
	if r.chance(1, 4) {
		// Ends by a panic.
		hook::panic_at(r.below(2 * n) as u64, false);
	}
	let pool = r.below(par::pools().len());
	let _ = guard(|| {
		let mut v = host.view_mut();
		run_how(op, form, &mut v, &arg, pool)
	});
	hook::reset();
	Ok(())
}

fn case<T: El + Sync>(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, keys: &[u32], arg: &Arg, what: &str, times: usize) -> Res {
	let n = keys.len();
	let lay = gen_layout(r, n);
	ctx.begin(format_args!("{op:?} {form:?} on {} n={n} {lay:?} content={what}", T::NAME));
	let c = Case { op, form, keys, lay, arg };
	let mut first: Option<Seen> = None;
	// Hosts are kept, so that each repetition works at another address.
	let mut hosts: Vec<Host<T>> = vec![];
	for k in 0..times {
		if k > 0 && r.chance(1, 2) {
			history(r)?;
			ctx.ev("repetitions after another operation", 1);
		}
		let mut host = Host::<T>::new(lay, keys);
		let seen = once(&c, &mut host, r, k, ctx)?;
		hosts.push(host);
		match &first {
			None => first = Some(seen),
			Some(f) => {
				if f.ret != seen.ret {
					return Err(format!("repetition {k} returned {:?} instead of {:?}", seen.ret, f.ret));
				}
				if let Some(i) = (0..n).find(|&i| f.out[i] != seen.out[i]) {
					return Err(format!("repetition {k} left {:?} at position {i} instead of {:?}", seen.out[i], f.out[i]));
				}
				if f.calls != seen.calls {
					return Err(format!("repetition {k} compared other pairs ({} instead of {} calls)", seen.calls.1, f.calls.1));
				}
				ctx.ev("repetitions compared", 1);
			}
		}
	}
	let seen = first.unwrap();
	ctx.record(&format!("{op:?}"), &format!("{:016x}", seen.digest()));
	let moved = seen.out.iter().enumerate().any(|(i, x)| x.1 as usize != i);
	let ties = {
		let mut k = keys.to_vec();
		k.sort_unstable();
		k.windows(2).any(|w| w[0] == w[1])
	};
	if ties {
		ctx.ev("cases with ties", 1);
	}
	let sig = oracle::digest_keys(keys) ^ mix(form as u64) ^ hash_str(T::NAME) ^ mix(hash_layout(lay)) ^ mix(op as u64 + 50);
	ctx.eval(mix(sig ^ arg.many.iter().fold(arg.index as u64, |h, &i| mix(h ^ i as u64))), n >= 2 && (moved || !op.sorts()));
	Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, op: Op, form: Form, n: usize, p: Option<usize>) -> Res {
	let kind = r.below(8);
	let max = if kind == 0 && n < 50_000 { B3::MAXKEY } else { u32::MAX };
	let (mut keys, p) = match p {
		Some(p) => (genk::pattern(r, n, p), p),
		None => gen_content(r, op, form, n, max),
	};
	// Ties are what an outcome could vary in.
	if r.chance(1, 2) && !matches!(op, Op::Bin | Op::Point) {
		let d = r.pick(&[2u32, 5, 40, 1000]);
		keys.iter_mut().for_each(|k| *k %= d);
	}
	genk::squeeze(&mut keys, max);
	let arg = gen_arg(r, &keys);
	let times = if op.par() { 5 } else { 3 };
	let what = format!("pattern{p}");
	match kind {
		0 if n < 50_000 => case::<B3>(ctx, r, op, form, &keys, &arg, &what, times),
		1 if n < 30_000 => case::<W72>(ctx, r, op, form, &keys, &arg, &what, times),
		_ => case::<P8>(ctx, r, op, form, &keys, &arg, &what, times),
	}
}

fn main() {
	let mut ctx = Ctx::new("C24");
	let th = ctx.thorough;
	let ops: Vec<Op> = SEQ.iter().chain(PAR).copied().filter(|&o| o != Op::Reverse).collect();
	let mut tab = vec![];
	for p in 0..genk::NPAT {
		for n in [2usize, 21, 60, 300, 2100, 6000] {
			for &op in &ops {
				tab.push((p, n, op));
			}
		}
	}
	ctx.fixed("table", tab.len() as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let (p, n, op) = tab[i as usize % tab.len()];
		let form = FORMS[r.below(5)];
		let p = (!matches!(op, Op::Bin | Op::Point)).then_some(p);
		any(ctx, r, op, form, n, p)
	});
	ctx.fixed("large", if th { 480 } else { 64 }, |ctx, r, i| {
		let op = PAR[i as usize % PAR.len()];
		any(ctx, r, op, Form::By, if i % 8 == 0 { 140_000 } else { 40_000 }, Some(i as usize / 4 % genk::NPAT))
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = if r.chance(1, 2) { r.pick(&ops) } else { r.pick(PAR) };
		let n = genk::gen_len(r, if th { 100_000 } else { 12_000 });
		if n == 0 && matches!(op, Op::Select | Op::Many | Op::ParMany) {
			return Ok(());
		}
		let form = pick_form(r);
		any(ctx, r, op, form, n, None)
	});
	ctx.finish();
}
