//! Verdicts over recorded outcomes.

/// `out` must hold the elements given by `keys` (identity = input position), each exactly once.
pub fn conserved(keys: &[u32], out: &[(u32, u32)]) -> Result<(), String> {
	if out.len() != keys.len() {
		return Err(format!("length changed from {} to {}", keys.len(), out.len()));
	}
	let mut seen = vec![false; keys.len()];
	for (p, &(k, id)) in out.iter().enumerate() {
		let Some(s) = seen.get_mut(id as usize) else {
			return Err(format!("position {p} holds foreign identity {id:#x}"));
		};
		if *s {
			return Err(format!("element {id} appears twice (again at position {p})"));
		}
		*s = true;
		if keys[id as usize] != k {
			return Err(format!(
				"element {id} changed its key from {} to {k}",
				keys[id as usize]
			));
		}
	}
	Ok(())
}

pub fn sorted(out: &[(u32, u32)], rev: bool) -> Result<(), String> {
	for p in 1..out.len() {
		let (a, b) = (out[p - 1].0, out[p].0);
		if if rev { a < b } else { b < a } {
			return Err(format!(
				"not sorted at position {p}: key {} before {} (rev={rev})",
				a, b
			));
		}
	}
	Ok(())
}

pub fn stable(out: &[(u32, u32)]) -> Result<(), String> {
	for p in 1..out.len() {
		if out[p - 1].0 == out[p].0 && out[p - 1].1 > out[p].1 {
			return Err(format!(
				"equal elements reordered at position {p}: input position {} before {} (key {})",
				out[p - 1].1, out[p].1, out[p].0
			));
		}
	}
	Ok(())
}

/// Ranks at `cuts` are final and everything in between is on its side.
pub fn selected(out: &[(u32, u32)], cuts: &[usize], rev: bool) -> Result<(), String> {
	let f = |k: u32| if rev { u32::MAX - k } else { k };
	let mut want: Vec<u32> = out.iter().map(|e| f(e.0)).collect();
	want.sort_unstable();
	let mut lo = 0;
	for (c, &i) in cuts.iter().enumerate() {
		if f(out[i].0) != want[i] {
			return Err(format!(
				"index {i} holds rank key {} but sorting puts {} there (rev={rev})",
				f(out[i].0),
				want[i]
			));
		}
		for p in lo..i {
			if f(out[p].0) > want[i] || (c > 0 && f(out[p].0) < want[cuts[c - 1]]) {
				return Err(format!("position {p} is on the wrong side of selected index {i}"));
			}
		}
		lo = i + 1;
	}
	if let Some(&i) = cuts.last() {
		for p in lo..out.len() {
			if f(out[p].0) < want[i] {
				return Err(format!("position {p} is on the wrong side of selected index {i}"));
			}
		}
	}
	Ok(())
}

/// Digest of an outcome.
pub fn digest(out: &[(u32, u32)]) -> u64 {
	out.iter().fold(out.len() as u64, |h, &(k, i)| {
		crate::rng::mix(h ^ ((k as u64) << 32 | i as u64))
	})
}
pub fn digest_keys(keys: &[u32]) -> u64 {
	keys.iter()
		.fold(keys.len() as u64, |h, &k| crate::rng::mix(h ^ k as u64))
}
