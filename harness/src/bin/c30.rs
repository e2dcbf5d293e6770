//! C30: elements of any type are treated as the standard library treats them in a slice.
use harness::anyop::{Op, PAR, SEQ};
use harness::ndarray::{Array1, ArrayView1, s};
use harness::par;
use harness::report::{Ctx, Res, guard, payload};
use harness::rng::{Rng, hash_str, mix};
use harness::{Slice1Ext, genk};
use std::cmp::{Ordering, Reverse};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::num::NonZeroU32;
use std::sync::Arc;

trait Plain: Ord + Clone + Debug + Send + Sync + 'static {
	fn mk(k: u32, r: &mut Rng) -> Self;
	/// Something coarser to order by.
	fn part(&self) -> u32;
}
macro_rules! plain {
	($($t:ty: |$k:ident, $r:ident| $e:expr, |$x:ident| $p:expr;)*) => {
		$(impl Plain for $t {
			fn mk($k: u32, $r: &mut Rng) -> Self {
				let _ = &$r;
				$e
			}
			fn part(&self) -> u32 {
				let $x = self;
				$p
			}
		})*
		const TYPES: &[(&str, fn(&mut Ctx, &mut Rng, Op, usize) -> Res)] = &[$((stringify!($t), case::<$t>)),*];
	};
}
fn words<const L: usize>(k: u32, r: &mut Rng) -> [u64; L] {
	// Some differ in the first word, some in the last.
	let mut a = [7; L];
	a[0] = (k / 16) as u64;
	a[L - 1] ^= (k % 16) as u64 + (L == 1) as u64 * a[0] * 16;
	a[L / 2] |= (r.below(2) as u64) << 40;
	a
}
plain! {
	u8: |k, r| k as u8, |x| (x / 7) as u32;
	i8: |k, r| k as i8, |x| (*x as i32 / 7) as u32;
	bool: |k, r| k % 2 == 1, |_x| 0;
	u16: |k, r| k as u16, |x| *x as u32 / 9;
	i16: |k, r| (k as i16).wrapping_mul(77), |x| *x as u32 % 50;
	i32: |k, r| k as i32 - 500, |x| *x as u32 % 90;
	char: |k, r| char::from_u32(k % 50_000).unwrap(), |x| *x as u32 / 4;
	NonZeroU32: |k, r| NonZeroU32::new(k + 1).unwrap(), |x| x.get() / 3;
	u64: |k, r| (k as u64) << 30, |x| (x >> 33) as u32;
	usize: |k, r| k as usize, |x| *x as u32 / 5;
	u128: |k, r| (k as u128) << 90 | k as u128, |x| (x >> 94) as u32;
	(): |_k, r| (), |_x| 0;
	Ordering: |k, r| 1.cmp(&(k % 3)), |x| *x as u32;
	(u8, u16): |k, r| ((k >> 4) as u8, k as u16 & 15), |x| x.0 as u32;
	(u8, u32): |k, r| ((k >> 4) as u8, k & 15), |x| x.1;
	(u64, u8): |k, r| ((k >> 4) as u64, k as u8 & 15), |x| x.0 as u32;
	(u8, u16, u64): |k, r| (k as u8, (k >> 8) as u16, 3), |x| x.1 as u32;
	[u8; 3]: |k, r| [(k >> 16) as u8, (k >> 8) as u8, k as u8], |x| x[2] as u32;
	[u8; 5]: |k, r| [0, (k >> 16) as u8, (k >> 8) as u8, k as u8, r.below(2) as u8], |x| x[4] as u32;
	[u16; 3]: |k, r| [1, (k >> 8) as u16, k as u16 & 255], |x| x[1] as u32;
	[u32; 3]: |k, r| [k / 9, k % 9, 5], |x| x[0];
	[u64; 2]: |k, r| words(k, r), |x| x[1] as u32;
	[u64; 3]: |k, r| words(k, r), |x| x[2] as u32;
	[u64; 4]: |k, r| words(k, r), |x| x[0] as u32;
	[u64; 5]: |k, r| words(k, r), |x| x[4] as u32;
	[u64; 9]: |k, r| words(k, r), |x| x[0] as u32;
	[u8; 33]: |k, r| { let mut a = [9; 33]; a[0] = (k >> 8) as u8; a[32] = k as u8; a }, |x| x[32] as u32;
	[u64; 17]: |k, r| words(k, r), |x| x[0] as u32;
	[u64; 64]: |k, r| words(k, r), |x| x[63] as u32;
	[u64; 520]: |k, r| words(k, r), |x| x[0] as u32;
	String: |k, r| format!("{}", k), |x| x.len() as u32;
	Vec<u8>: |k, r| vec![k as u8; k as usize % 5], |x| x.len() as u32;
	Box<u32>: |k, r| Box::new(k), |x| **x / 8;
	Option<Box<u16>>: |k, r| (k % 5 > 0).then(|| Box::new(k as u16)), |x| x.is_some() as u32;
	(String, u32): |k, r| (format!("{k:08}"), r.next() as u32), |x| x.0.parse().unwrap();
	(Box<u32>, u8): |k, r| (Box::new(k), r.next() as u8), |x| *x.0;
	Arc<str>: |k, r| Arc::from(format!("{k:05}")), |x| x.as_bytes()[4] as u32;
	Option<u32>: |k, r| (k % 3 > 0).then_some(k), |x| x.map_or(9, |x| x / 7);
	Result<u8, u64>: |k, r| if k % 2 == 0 { Ok(k as u8) } else { Err(k as u64) }, |x| x.is_ok() as u32;
	Reverse<u32>: |k, r| Reverse(k), |x| x.0 / 6;
	BTreeSet<u8>: |k, r| [k as u8, (k >> 3) as u8].into(), |x| x.len() as u32;
	&'static str: |k, r| ["", "a", "ab", "b", "ba", "z"][k as usize % 6], |x| x.len() as u32;
}

fn same<T: PartialEq + Debug>(got: &[T], want: &[T]) -> Res {
	match (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)) {
		Some(i) => Err(format!("position {i} holds {:.60} instead of {:.60}", format!("{:?}", got.get(i)), format!("{:?}", want.get(i)))),
		None => Ok(()),
	}
}

fn case<T: Plain>(ctx: &mut Ctx, r: &mut Rng, op: Op, n: usize) -> Res {
	let size = size_of::<T>();
	let n = n.min((48 << 20) / size.max(1) / 4).max(1);
	let (mut keys, p) = genk::gen_keys(r, n);
	if r.chance(1, 2) {
		genk::squeeze(&mut keys, r.pick(&[5000, 70_000]));
	}
	let vals: Vec<T> = keys.iter().map(|&k| T::mk(k, r)).collect();
	let vals: Vec<T> = if matches!(op, Op::Bin | Op::Point) || op == Op::IsSorted && r.chance(1, 2) {
		let mut v = vals;
		v.sort();
		v
	} else if op == Op::Dedup {
		let w = r.range(1, 5);
		(0..n).map(|i| vals[i / w].clone()).collect()
	} else {
		vals
	};
	let step = r.pick(&[1isize, 1, -1, 2, -2, 3]);
	let (w, off) = (step.unsigned_abs(), r.below(3));
	let part = r.chance(1, 2);
	let pool = r.below(par::pools().len());
	let index = r.below(n);
	let ix = genk::gen_indices(r, n);
	ctx.begin(format_args!("{op:?} on {} of {size} bytes n={n} step={step} part={part} pool={pool} index={index} content=pattern{p}", std::any::type_name::<T>()));
	// Between and around the elements lie others.
	let fill = T::mk(r.below(1000) as u32, r);
	let mut host: Array1<T> = Array1::from_elem(off + n * w + off, fill.clone());
	host.slice_mut(s![off..off + n * w;step]).iter_mut().zip(&vals).for_each(|(e, v)| *e = v.clone());
	let sorted = |part: bool| {
		let mut v = vals.clone();
		if part { v.sort_by_key(T::part) } else { v.sort() }
		v
	};
	let target = if r.chance(2, 3) { r.clone().pick(&(0..n).collect::<Vec<_>>()) } else { usize::MAX };
	let target = if target < n { vals[target].clone() } else { T::mk(r.below(5000) as u32, r) };
	let res: Result<Res, _> = guard(|| {
		let mut v = host.slice_mut(s![off..off + n * w;step]);
		let mut go = || -> Res {

			macro_rules! sort {
				($plain:ident, $key:ident, stable) => {{
					if part { v.$key(T::part) } else { v.$plain() }
					same(&v.to_vec(), &sorted(part))
				}};
				($plain:ident, $key:ident, loose) => {{
					if part {
						v.$key(T::part);
						let (mut got, want) = (v.to_vec(), sorted(true));
						same(&got.iter().map(T::part).collect::<Vec<_>>(), &want.iter().map(T::part).collect::<Vec<_>>())?;
						got.sort();
						same(&got, &sorted(false))
					} else {
						v.$plain();
						same(&v.to_vec(), &sorted(false))
					}
				}};
			}
			let ranked = |v: &ArrayView1<T>, at: &[usize]| -> Res {
				let want = sorted(part);
				let less = |a: &T, b: &T| if part { a.part() < b.part() } else { a < b };
				let mut from = 0;
				for &i in at {
					if less(&v[i], &want[i]) || less(&want[i], &v[i]) {
						return Err(format!("index {i} holds {:.60} instead of {:.60}", format!("{:?}", v[i]), format!("{:?}", want[i])));
					}
					if (from..i).any(|j| less(&v[i], &v[j])) || from > 0 && (from..i).any(|j| less(&v[j], &v[from - 1])) {
						return Err(format!("elements before index {i} are out of place"));
					}
					from = i + 1;
				}
				if from > 0 && (from..n).any(|j| less(&v[j], &v[from - 1])) {
					return Err("elements after the last index are out of place".into());
				}
				let mut all = v.to_vec();
				all.sort();
				same(&all, &sorted(false))
			};
			match op {
				Op::SortU => sort!(sort_unstable, sort_unstable_by_key, loose),
				Op::ParU => sort!(par_sort_unstable, par_sort_unstable_by_key, loose),
				Op::SortS => sort!(sort, sort_by_key, stable),
				Op::ParS => sort!(par_sort, par_sort_by_key, stable),
				Op::Cached => {
					if part { v.sort_by_cached_key(T::part) } else { v.sort_by_cached_key(T::clone) }
					same(&v.to_vec(), &sorted(part))
				}
				Op::ParCached => {
					if part { v.par_sort_by_cached_key(T::part) } else { v.par_sort_by_cached_key(T::clone) }
					same(&v.to_vec(), &sorted(part))
				}
				Op::Select => {
					let m = if part { v.select_nth_unstable_by_key(index, T::part).1.clone() } else { v.select_nth_unstable(index).1.clone() };
					if m != v[index] {
						return Err("returned another element than the one at the index".into());
					}
					ranked(&v.view(), &[index])
				}
				Op::Many | Op::ParMany => {
					let ixs = Array1::from_vec(ix.clone());
					let mut c: Vec<(usize, &mut T)> = vec![];
					let mut d: Vec<&mut T> = vec![];
					match (op == Op::Many, part) {
						(true, true) => v.select_many_nth_unstable_by_key(&ixs, &mut c, T::part),
						(true, false) => v.select_many_nth_unstable(&ixs, &mut c),
						(false, true) => v.par_select_many_nth_unstable_by_key(&ixs, &mut d, T::part),
						(false, false) => v.par_select_many_nth_unstable(&ixs, &mut d),
					}
					let got: Vec<T> = c.into_iter().map(|c| c.1.clone()).chain(d.into_iter().map(|d| d.clone())).collect();
					same(&got, &ix.iter().map(|&i| v[i].clone()).collect::<Vec<_>>())?;
					ranked(&v.view(), &ix)
				}
				Op::Dedup => {
					let eq = |a: &T, b: &T| if part { a.part() == b.part() } else { a == b };
					let mut want: Vec<T> = vec![];
					for x in &vals {
						if want.last().is_none_or(|l| !eq(x, l)) {
							want.push(x.clone());
						}
					}
					let (d, _) = if part { v.partition_dedup_by_key(|x| x.part()) } else { v.partition_dedup() };
					same(&d.to_vec(), &want)?;
					let mut all = v.to_vec();
					all.sort();
					same(&all, &sorted(false))
				}
				Op::Bin | Op::Point => {

					let lo = vals.partition_point(|x| *x < target);
					let hi = vals.partition_point(|x| *x <= target);
					let p = v.partition_point(|x| *x < target);
					if p != lo {
						return Err(format!("partition point {p} instead of {lo}"));
					}
					for (k, b) in [v.binary_search(&target), v.binary_search_by(|x| x.cmp(&target)), v.binary_search_by_key(&target, T::clone)].into_iter().enumerate() {
						match b {
							Ok(i) if (lo..hi).contains(&i) => {}
							Err(i) if i == lo && lo == hi => {}
							b => return Err(format!("binary search (form {k}) answers {b:?} where {lo}..{hi} match")),
						}
					}
					Ok(())
				}
				Op::Contains => {
					if v.contains(&target) != vals.contains(&target) {
						return Err(format!("contains denies {}", vals.contains(&target)));
					}
					Ok(())
				}
				Op::IsSorted => {
					if v.is_sorted() != vals.is_sorted() || v.is_sorted_by_key(T::part) != vals.is_sorted_by_key(T::part) {
						return Err("sortedness is misjudged".into());
					}
					Ok(())
				}
				Op::Reverse => {
					v.reverse();
					same(&v.to_vec(), &vals.iter().rev().cloned().collect::<Vec<_>>())
				}
			}
		};
		if op.par() { par::pools()[pool].install(go) } else { go() }
	});
	res.map_err(|p| payload(&*p))??;
	if host.iter().enumerate().any(|(i, e)| {
		let inside = i >= off && i < off + n * w && if step > 0 { (i - off) % w == 0 } else { (off + n * w - 1 - i) % w == 0 };
		!inside && *e != fill
	}) {
		return Err("an element outside the view changed".into());
	}
	ctx.ev_max("bytes per element", size as u64);
	ctx.ev("elements handled", n as u64);
	let sig = keys.iter().fold(hash_str(std::any::type_name::<T>()), |h, &k| mix(h ^ k as u64));
	ctx.eval(mix(sig ^ mix(op as u64 + 9) ^ mix(step as u64)) ^ part as u64, n >= 2 && size > 0);
	Ok(())
}

fn main() {
	let mut ctx = Ctx::new("C30");
	let th = ctx.thorough;
	let all: Vec<Op> = SEQ.iter().chain(PAR).copied().collect();
	let lens = [2usize, 20, 21, 50, 130, 300, 1030, 2500, 5001];
	ctx.fixed("table", (TYPES.len() * all.len() * lens.len()) as u64 * if th { 20 } else { 1 }, |ctx, r, i| {
		let i = i as usize;
		let (t, op, n) = (i % TYPES.len(), i / TYPES.len() % all.len(), lens[i / TYPES.len() / all.len() % lens.len()]);
		TYPES[t].1(ctx, r, all[op], n)
	});
	ctx.timed("random", 1.0, 100, |ctx, r, _| {
		let op = r.pick(&all);
		let n = genk::gen_len(r, if th { 70_000 } else { 9000 }).max(1);
		let t = r.below(TYPES.len());
		TYPES[t].1(ctx, r, op, n)
	});
	ctx.finish();
}
