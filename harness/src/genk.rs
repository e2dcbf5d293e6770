//! Input contents: key sequences with hostile structure.
use crate::rng::Rng;

/// Lengths around which the algorithms might change strategy, far or near, plus generic ones.
pub const EDGES: &[usize] = &[
	0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 16, 19, 20, 21, 22, 24, 32, 40, 49, 50, 51, 52, 64, 100, 120, 127, 128,
	129, 130, 132, 140, 143, 144, 200, 254, 255, 256, 257, 258, 259, 300, 384, 385, 511, 512, 513, 514, 640, 1000,
	1023, 1024, 1025, 1500, 1999, 2000, 2001, 2002, 2500, 3000, 3999, 4000, 4001, 4096, 4999, 5000, 5001, 5002, 6000,
	6001, 7999, 8000, 8001, 9999, 10000, 10001, 12000, 15000, 16384, 20000, 20001, 24000, 40000, 65535, 65536, 65537,
	100000, 131071, 131072, 131073, 200000,
];

pub fn gen_len(r: &mut Rng, max: usize) -> usize {
	match r.below(20) {
		0..=6 => r.below(72.min(max + 1)),
		7..=11 => {
			let e = r.pick(EDGES);
			let e = if e > max { r.below(max + 1) } else { e };
			(e + r.below(3)).min(max)
		}
		12..=14 => r.below(600.min(max + 1)),
		_ => r.logu(max),
	}
}

/// Lengths from `lo` on for workloads on large arrays.
pub fn gen_len_from(r: &mut Rng, lo: usize, max: usize) -> usize {
	if r.chance(1, 2) {
		let c: Vec<usize> = EDGES.iter().copied().filter(|&e| e >= lo && e <= max).collect();
		if !c.is_empty() {
			let e = r.pick(&c);
			return (e + r.below(4)).min(max);
		}
	}
	let span = max - lo;
	lo + r.logu(span + 1) - 1
}

pub const NPAT: usize = 40;

/// Keys below 2^24, distinguishable enough for every structure.
pub fn gen_keys(r: &mut Rng, n: usize) -> (Vec<u32>, usize) {
	let p = r.below(NPAT);
	(pattern(r, n, p), p)
}

pub fn pattern(r: &mut Rng, n: usize, p: usize) -> Vec<u32> {
	let nn = n as u32;
	let mut v: Vec<u32> = match p {
		0 => (0..n).map(|_| (r.next() >> 40) as u32).collect(),
		1 => {
			let d = r.pick(&[1, 2, 3, 4, 5, 8, 16, 50]);
			(0..n).map(|_| r.below(d) as u32).collect()
		}
		2 => {
			let d = (n as f64).sqrt() as usize + 1;
			(0..n).map(|_| r.below(d) as u32).collect()
		}
		3 => (0..nn).collect(),
		4 => (0..nn).rev().collect(),
		5 => vec![7; n],
		6 | 7 => {
			// Sorted or reversed with a few swaps.
			let mut v: Vec<u32> = (0..nn).collect();
			if p == 7 {
				v.reverse();
			}
			if n > 0 {
				for _ in 0..r.range(1, 12) {
					let (a, b) = (r.below(n), r.below(n));
					v.swap(a, b);
				}
			}
			v
		}
		8 => {
			let mut v: Vec<u32> = (0..nn).collect();
			for _ in 0..r.range(1, 8) {
				if n > 0 {
					let i = r.below(n);
					v[i] = r.below(n + 1) as u32;
				}
			}
			v
		}
		9 | 10 => {
			// Sorted with random tail or head.
			let t = r.logu(n.max(1)).min(n);
			let mut v: Vec<u32> = (0..nn).collect();
			let rg = if p == 9 { n - t..n } else { 0..t };
			for i in rg {
				v[i] = r.below(n) as u32;
			}
			v
		}
		11 => (0..n).map(|i| i.min(n - 1 - i) as u32).collect(),
		12 => (0..n).map(|i| i.max(n - 1 - i) as u32).collect(),
		13 | 14 => {
			let q = r.logu(n.max(2)).max(2);
			(0..n)
				.map(|i| (if p == 13 { i % q } else { q - 1 - i % q }) as u32)
				.collect()
		}
		15 => runs(r, n, |r, _| r.range(1, 60)),
		16 => runs(r, n, |r, left| r.range(1, left)),
		17 => {
			// Run lengths growing or shrinking geometrically (Fibonacci-like), either direction.
			let g = r.pick(&[1.3, 1.5, 1.62, 1.7, 2.0]);
			let first = r.pick(&[10.0f64, 11.0, 20.0, 32.0]);
			let mut lens = vec![];
			let mut l = first;
			let mut sum = 0;
			while sum < n {
				let k = (l as usize).max(1).min(n - sum);
				lens.push(k);
				sum += k;
				l = l * g + if r.chance(1, 2) { 1.0 } else { 0.0 };
			}
			if r.chance(2, 3) {
				lens.reverse();
			}
			let mut it = lens.into_iter();
			runs(r, n, |_, _| it.next().unwrap_or(1))
		}
		18 => chunks(r, n),
		19 => {
			// Heavy head distribution.
			(0..n)
				.map(|_| {
					let x = r.logu(1 << 20);
					((1 << 20) / x) as u32
				})
				.collect()
		}
		20 => (0..n).map(|i| (i as u32).reverse_bits() >> 8).collect(),
		21 => {
			let m = r.pick(&[7919usize, 104729, 3, 5, 617]);
			(0..n).map(|i| (i * m % n.max(1)) as u32).collect()
		}
		22 => (0..n)
			.map(|i| (if i % 2 == 0 { i } else { n - i }) as u32)
			.collect(),
		23 => {
			// Two sorted halves, overlapping, with ties between them.
			let m = if n == 0 { 0 } else { r.below(n) };
			let s = r.range(1, 3);
			(0..n)
				.map(|i| ((if i < m { i } else { (i - m) * s }) / r_div(n)) as u32)
				.collect()
		}
		24 => {
			let k = if n == 0 { 0 } else { r.below(n) };
			(0..n).map(|i| ((i + k) % n) as u32).collect()
		}
		25 => {
			let mut v = vec![100; n];
			for _ in 0..r.range(1, 6) {
				if n > 0 {
					let i = r.below(n);
					v[i] = r.pick(&[0, 99, 101, 200]);
				}
			}
			v
		}
		26 => {
			// Mostly equal, outliers around the quarter points.
			let mut v = vec![100; n];
			for q in [n / 4, n / 2, n / 4 * 3, 0, n.saturating_sub(1)] {
				for d in 0..3usize {
					if q + d < n && r.chance(2, 3) {
						v[q + d] = r.pick(&[0, 99, 101, 200]);
					}
				}
			}
			v
		}
		27 => {
			let den = r.range(2, 40);
			let num = r.range(1, den - 1);
			(0..n).map(|_| r.chance(num, den) as u32).collect()
		}
		28 => blocks(r, n),
		29 => {
			// Median-of-three killer.
			let k = n / 2;
			(0..n)
				.map(|i| {
					if i < k {
						(if i % 2 == 0 { i + 1 } else { k + i }) as u32
					} else {
						((i - k) * 2 + 2) as u32
					}
				})
				.collect()
		}
		30 => {
			let d = r.range(1, 20) as u32;
			(0..nn).map(|i| i + (r.next() as u32) % (d * 2)).collect()
		}
		31 => {
			// Non-strictly descending.
			let d = r.range(2, 30) as u32;
			(0..nn).rev().map(|i| i / d).collect()
		}
		32 => {
			let d = r.range(2, 300) as u32;
			(0..nn).map(|i| i / d).collect()
		}
		33 => {
			// Sorted but one extreme element somewhere.
			let mut v: Vec<u32> = (1..nn + 1).collect();
			if n > 0 {
				let i = r.pick(&[0, n / 2, n - 1]).min(n - 1);
				v[i] = r.pick(&[0, nn / 2, nn + 5]);
			}
			v
		}
		34 => {
			// Sorted prefix of every second, sorted descending of the rest, many ties.
			let d = r.range(1, 50) as u32;
			(0..nn)
				.map(|i| if i % 3 == 0 { i / d } else { (nn - i) / d })
				.collect()
		}
		36 => {
			// Two sorted stretches, one of them possibly short, the right one low, high or mixed in.
			let short = r.logu(n.max(1)).min(n);
			let m = if r.chance(1, 2) { short } else { n - short };
			let (at, by) = match r.below(4) {
				0 => (0, 1),
				1 => (m, 1),
				2 => (m.saturating_sub(n - m), 1),
				_ => (0, m / (n - m + 1) + 1),
			};
			(0..n).map(|i| (if i < m { i } else { at + (i - m) * by }) as u32 + (i < m && by > 1) as u32).collect()
		}
		37 => {
			// Stretches of equal lengths, as when each of some threads was given its share in order.
			let k = r.pick(&[2, 3, 4, 8, 13, 16, 26]);
			shares(r, n, k)
		}
		38 => ties(r, n),
		39 => seam(r, n),
		_ => {
			// A few random sorted stretches interleaved at element level.
			let w = r.range(2, 9);
			let mut c: Vec<u32> = (0..w).map(|_| r.below(n + 1) as u32).collect();
			(0..n)
				.map(|i| {
					c[i % w] += r.below(3) as u32;
					c[i % w]
				})
				.collect()
		}
	};
	// Sometimes coarsen to create ties without losing the structure.
	if n > 0 && r.chance(1, 5) {
		let d = r.pick(&[2u32, 3, 5, 16]);
		for k in &mut v {
			*k /= d;
		}
	}
	v
}

/// `k` stretches of equal lengths, each in order.
pub fn shares(r: &mut Rng, n: usize, k: usize) -> Vec<u32> {
	let l = n.div_ceil(k).max(1);
	let down = r.chance(1, 4);
	let d = r.pick(&[1, 1, 5, 40]);
	let by = r.pick(&[0usize, 1, 7919, 7919]);
	(0..n)
		.map(|i| {
			let (b, j) = (i / l, (i % l) as u32 / d);
			let j = if down { l as u32 - j } else { j };
			j + (b * by % n) as u32
		})
		.collect()
}

/// A position next to a multiple of a power of two or to an edge, for input of `n`.
pub fn seam_at(r: &mut Rng, n: usize) -> usize {
	let at = match r.below(4) {
		0 => r.below(n.max(1)),
		1 => r.pick(EDGES),
		2 => n.saturating_sub(r.logu(40)),
		_ => {
			let b = 1usize << r.range(2, 18);
			(r.below(n / b + 1)) * b
		}
	};
	(at + r.below(3)).saturating_sub(1).min(n.saturating_sub(1))
}

/// In order, up or down, but for one place next to a seam.
fn seam(r: &mut Rng, n: usize) -> Vec<u32> {
	let mut v: Vec<u32> = (0..n as u32).map(|i| 2 * i + 2).collect();
	if r.chance(1, 3) {
		v.reverse();
	}
	for _ in 0..r.pick(&[1usize, 1, 1, 2]) {
		let i = seam_at(r, n);
		if i > 0 {
			match r.below(4) {
				0 => v.swap(i - 1, i),
				1 => v[i] = v[i - 1],
				2 => v[i] = 0,
				_ => v[i] = v[r.below(n)],
			}
		}
	}
	v
}

/// Strict stretches, each ending in a tie, after which it goes on or not.
fn ties(r: &mut Rng, n: usize) -> Vec<u32> {
	let most = r.pick(&[14usize, 30, 100, n.max(1)]);
	let mut v: Vec<u32> = vec![];
	let mut k = 1 << 22;
	while v.len() < n {
		let down = r.chance(3, 4);
		for _ in 0..r.logu(most) {
			k = if down { k - 1 } else { k + 1 };
			v.push(k);
		}
		for _ in 0..r.range(1, 3) {
			v.push(k);
		}
		if r.chance(1, 3) {
			k = (1 << 22) + r.below(n + 1) as u32;
		}
	}
	v.truncate(n);
	v
}

fn r_div(n: usize) -> usize {
	if n % 3 == 0 { 1 } else { 2 }
}

/// Ascending runs of which a merge sort that merges only when it must keeps `depth` pending.
pub fn pending(r: &mut Rng, depth: usize) -> Vec<u32> {
	let mut lens = vec![r.range(10, 12), r.range(13, 15)];
	while lens.len() < depth {
		let k = lens.len();
		lens.push(lens[k - 1] + lens[k - 2] + r.range(1, 3));
	}
	let most = r.pick(&[100usize, 5000, 1 << 20]);
	let mut v = vec![];
	for l in lens.into_iter().rev() {
		// From the least to the greatest, so that none continues the one before.
		v.extend((0..l).map(|i| 1 + (i * most / l) as u32));
		let k = v.len();
		v[k - l] = 0;
	}
	v
}

/// Concatenated monotone runs.
fn runs(r: &mut Rng, n: usize, mut len: impl FnMut(&mut Rng, usize) -> usize) -> Vec<u32> {
	let mut v = Vec::with_capacity(n);
	let style = r.below(4);
	while v.len() < n {
		let left = n - v.len();
		let l = len(r, left).clamp(1, left);
		let base = r.below(n + 1) as u32;
		let step = r.below(3) as u32;
		let desc = match style {
			0 => false,
			1 => true,
			_ => r.chance(1, 2),
		};
		for i in 0..l as u32 {
			let i = if desc { l as u32 - 1 - i } else { i };
			// Descending runs must be strict to count as such.
			v.push(base + i * step.max(desc as u32));
		}
	}
	v
}

/// Monotone stretches aligned (or nearly) to a chunk length, related in all ways to their
/// neighbours: continuing, tied at the boundary, overlapping, disjoint.
fn chunks(r: &mut Rng, n: usize) -> Vec<u32> {
	let c = r.pick(&[2000usize, 2000, 2000, 2000, 1000, 4000, 2001, 1999, 500, 64]);
	let phase = if r.chance(1, 5) { r.below(c) } else { 0 };
	let mut v: Vec<u32> = Vec::with_capacity(n);
	let mut bias = r.below(3);
	let tie = r.below(3);
	while v.len() < n {
		let l = if v.is_empty() && phase > 0 { phase } else { c };
		let l = l.min(n - v.len());
		if r.chance(1, 3) {
			bias = r.below(4);
		}
		let last = v.last().copied().unwrap_or(1 << 22);
		match bias {
			// Ascending, continuing / tied / slightly below.
			0 => {
				let s = match tie {
					0 => last + 1,
					1 => last,
					_ => (last + r.below(3) as u32).saturating_sub(1),
				};
				let d = r.range(1, 3) as u32;
				v.extend((0..l as u32).map(|i| s + i / d));
			}
			// Strictly descending, continuing / tied / slightly above.
			1 => {
				let s = match tie {
					0 => last.saturating_sub(1),
					1 => last,
					_ => (last + 1).saturating_sub(r.below(3) as u32),
				};
				v.extend((0..l as u32).map(|i| s.saturating_sub(i)));
			}
			2 => v.extend((0..l).map(|_| last)),
			_ => {
				let d = r.pick(&[3usize, 100, 1 << 22]);
				v.extend((0..l).map(|_| r.below(d) as u32));
			}
		}
	}
	v
}

/// 128-blocks with controlled numbers of small and large elements.
fn blocks(r: &mut Rng, n: usize) -> Vec<u32> {
	let b = r.pick(&[128usize, 128, 64, 256]);
	let mid = 1 << 20;
	let mut v = Vec::with_capacity(n);
	while v.len() < n {
		let l = b.min(n - v.len());
		let style = r.below(5);
		for i in 0..l {
			let small = match style {
				0 => true,
				1 => false,
				2 => i % 2 == 0,
				3 => i < l / 2,
				_ => r.chance(1, 2),
			};
			let jitter = r.below(1000) as u32;
			v.push(if small { mid - 1 - jitter } else { mid + jitter });
		}
	}
	v
}

/// Squeezes keys below `max`, keeping their order (not all distinctions).
pub fn squeeze(keys: &mut [u32], max: u32) {
	let hi = keys.iter().copied().max().unwrap_or(0) as u64;
	if hi >= max as u64 {
		for k in keys {
			*k = (*k as u64 * (max as u64 - 1) / hi) as u32;
		}
	}
}

/// Strictly increasing index set, with a taste for the ends of groups of ties.
pub fn gen_indices_of(r: &mut Rng, keys: &[u32]) -> Vec<usize> {
	let n = keys.len();
	if n < 2 || !r.chance(1, 3) {
		return gen_indices(r, n);
	}
	let mut k = keys.to_vec();
	k.sort_unstable();
	let mirror = r.chance(1, 4);
	let some = r.pick(&[1usize, 2, 5, 20]);
	let mut pick = vec![];
	for i in 1..n {
		if k[i] != k[i - 1] && r.chance(1, some) {
			for j in [i - 1, i] {
				if r.chance(2, 3) {
					pick.push(if mirror { n - 1 - j } else { j });
				}
			}
		}
	}
	if pick.len() > 3 && r.chance(1, 3) {
		let keep = r.range(1, 6);
		while pick.len() > keep {
			let i = r.below(pick.len());
			pick.swap_remove(i);
		}
	}
	for _ in 0..r.below(3) {
		pick.push(r.below(n));
	}
	pick.sort_unstable();
	pick.dedup();
	pick
}

/// Keys most of which tie, with some to either side, and indices among all of them.
pub fn outliers(r: &mut Rng, n: usize) -> (Vec<u32>, Vec<usize>) {
	let ties = r.pick(&[1, 1, 2, 4]);
	let (lo, hi) = match r.below(4) {
		0 => (r.below(4), r.below(4)),
		1 => (r.logu(n / 3 + 1) - 1, r.logu(n / 3 + 1) - 1),
		2 => (r.below(n), r.logu(n / 4 + 1)),
		_ => (r.logu(n / 4 + 1), r.below(n)),
	};
	let mut v: Vec<u32> = (0..n).map(|_| 100 + r.below(ties) as u32).collect();
	let few = r.chance(1, 2);
	for i in 0..lo + hi {
		let at = if r.chance(1, 8) { r.pick(&[0, 1, n / 4, n / 2, n / 4 * 3, n - 2, n - 1]) } else { r.below(n) };
		v[at.min(n - 1)] = match (i < lo, few) {
			(true, true) => r.pick(&[0, 50, 99]),
			(true, false) => r.below(100) as u32,
			(false, true) => r.pick(&[150, 200]),
			(false, false) => 150 + r.below(1000) as u32,
		};
	}
	// Where the ties begin and end, in order and in reverse.
	let a = v.iter().filter(|&&k| k < 100).count();
	let b = v.iter().filter(|&&k| k < 150).count();
	let mut ix = vec![];
	for e in [a, b, n - a, n - b] {
		if r.chance(1, 2) {
			ix.push((e + r.below(3)).saturating_sub(1).min(n - 1));
		}
	}
	if r.chance(1, 2) {
		// One of them in the middle of the set.
		let e = r.pick(&[a, b, n - a, n - b]).min(n - 1);
		ix = vec![e];
		for _ in 0..r.range(1, 2) {
			let d = r.below(6);
			ix.push(if r.chance(1, 2) { d.min(e) } else { r.below(e + 1) });
			ix.push(if r.chance(1, 2) { (n - 1 - d.min(n - 1)).max(e) } else { r.range(e, n - 1) });
		}
		ix.sort_unstable();
		ix.dedup();
		return (v, ix);
	}
	for _ in 0..r.below(4) {
		ix.push(r.below(n));
	}
	for _ in 0..r.below(4) {
		let d = r.below(6).min(n - 1);
		ix.push(if r.chance(1, 2) { d } else { n - 1 - d });
	}
	ix.sort_unstable();
	ix.dedup();
	(v, ix)
}

/// Strictly increasing index set below `n`.
pub fn gen_indices(r: &mut Rng, n: usize) -> Vec<usize> {
	if n == 0 {
		return vec![];
	}
	let mut pick = vec![false; n];
	match r.below(9) {
		0 => {}
		1 => pick[r.below(n)] = true,
		2 => pick.fill(true),
		3 => {
			let a = r.below(n);
			let b = r.range(a, n - 1);
			pick[a..=b].fill(true);
		}
		4 => {
			for _ in 0..r.range(1, 8) {
				pick[r.below(n)] = true;
			}
		}
		5 => {
			let s = r.logu(n);
			let o = r.below(s);
			for i in (o..n).step_by(s) {
				pick[i] = true;
			}
		}
		6 => {
			pick[0] = true;
			pick[n - 1] = true;
			pick[n / 2] = true;
		}
		7 => {
			// Neighbours of each other and of the ends.
			let c = r.below(n);
			for d in 0..3 {
				if c + d < n {
					pick[c + d] = true;
				}
				pick[n - 1 - d.min(n - 1)] = true;
			}
		}
		_ => {
			let den = r.range(2, 30);
			for p in &mut pick {
				*p = r.chance(1, den);
			}
		}
	}
	(0..n).filter(|&i| pick[i]).collect()
}
