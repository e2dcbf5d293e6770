//! Parent arrays whose cells outside the view under test are canaries.
use crate::elem::El;
use crate::hook::CAN;
use crate::ndarray::{Array1, Array2, Array3, ArrayD, Ix1, IxDyn, ArrayView1, ArrayViewMut1, Axis, ShapeBuilder, s};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Layout {
	/// Whole owned array.
	Owned,
	/// Every `step`-th cell from `off`, backwards when `step < 0`, `tail` cells behind.
	Step { off: usize, step: isize, tail: usize },
	/// Lane of a matrix along axis 0 or 1, C or F order, possibly reversed.
	Lane { axis: usize, at: usize, width: usize, f: bool, rev: bool },
	/// Main diagonal of a square matrix.
	Diag { extra: usize },
	/// Lane of a cube.
	Cube { axis: usize, f: bool },
	/// Lane of a five-dimensional array with permuted axes, possibly reversed.
	Deep { axis: usize, seed: u32, f: bool, rev: bool },
}

pub fn gen_layout(r: &mut Rng, n: usize) -> Layout {
	let big = n > 3000;
	match r.below(12) {
		0 if n <= 200 && n > 1 && !cfg!(miri) && r.chance(1, 4) => wide(r, n),
		0 | 1 => Layout::Owned,
		2 => Layout::Step { off: r.below(4), step: 1, tail: r.below(4) },
		3 => Layout::Step { off: r.below(4), step: -1, tail: r.below(4) },
		4 | 5 => Layout::Step {
			off: r.below(6),
			step: r.range(2, if big { 3 } else { 9 }) as isize,
			tail: r.below(6),
		},
		6 | 7 => Layout::Step {
			off: r.below(6),
			step: -(r.range(2, if big { 3 } else { 9 }) as isize),
			tail: r.below(6),
		},
		8 | 9 => {
			let width = r.range(1, if big { 3 } else { 7 });
			Layout::Lane {
				axis: r.below(2),
				at: r.below(width),
				width,
				f: r.chance(1, 2),
				rev: r.chance(1, 3),
			}
		}
		10 if n <= 300 => Layout::Diag { extra: r.below(3) },
		11 if n <= 3000 && r.chance(1, 2) => Layout::Deep {
			axis: r.below(5),
			seed: r.next() as u32,
			f: r.chance(1, 2),
			rev: r.chance(1, 2),
		},
		_ => Layout::Cube { axis: r.below(3), f: r.chance(1, 2) },
	}
}

/// Elements far apart.
pub fn wide(r: &mut Rng, n: usize) -> Layout {
	let most = (60_000 / n.max(1)).min(1 << 12);
	let step = r.range(most / 2, most) as isize;
	Layout::Step { off: r.below(3), step: if r.chance(1, 2) { step } else { -step }, tail: r.below(3) }
}

/// Layout of a given class, for enumerations.
pub fn layout_class(class: usize) -> Layout {
	match class {
		0 => Layout::Owned,
		1 => Layout::Step { off: 1, step: -1, tail: 1 },
		2 => Layout::Step { off: 1, step: 2, tail: 1 },
		3 => Layout::Step { off: 2, step: -3, tail: 1 },
		4 => Layout::Lane { axis: 0, at: 1, width: 3, f: false, rev: false },
		5 => Layout::Lane { axis: 1, at: 0, width: 2, f: true, rev: true },
		6 => Layout::Cube { axis: 1, f: false },
		7 => Layout::Diag { extra: 1 },
		_ => Layout::Deep { axis: 2, seed: 5, f: false, rev: true },
	}
}

enum Parent<T> {
	One(Array1<T>),
	Two(Array2<T>),
	Three(Array3<T>),
	Many(ArrayD<T>),
}

/// Where the lane of a deep parent runs: indices along the other axes.
fn deep_at(seed: u32, axis: usize, d: usize) -> usize {
	(seed as usize >> (d + axis)) & 1
}

pub struct Host<T> {
	parent: Parent<T>,
	layout: Layout,
	n: usize,
	/// Identity per parent cell in memory order before the operation.
	orig: Vec<u32>,
}

fn canary<T: El>(p: usize) -> T {
	// Alternate extreme keys, so that a stray comparison or move shows up.
	let key = if p % 2 == 0 { 0 } else { T::MAXKEY - 1 };
	T::mk(key, CAN + p as u32)
}

impl<T: El> Host<T> {
	pub fn new(layout: Layout, keys: &[u32]) -> Self {
		let n = keys.len();
		let mk = |len: usize| (0..len).map(canary::<T>).collect::<Vec<T>>();
		let parent = match layout {
			Layout::Owned => Parent::One(Array1::from_vec(mk(n))),
			Layout::Step { off, step, tail } => {
				let st = step.unsigned_abs();
				let span = if n == 0 { 0 } else { (n - 1) * st + 1 };
				Parent::One(Array1::from_vec(mk(off + span + tail)))
			}
			Layout::Lane { axis, width, f, .. } => {
				let dim = if axis == 0 { (n, width) } else { (width, n) };
				let v = mk(n * width);
				Parent::Two(Array2::from_shape_vec(dim.set_f(f), v).unwrap())
			}
			Layout::Diag { extra } => {
				let m = n + extra;
				// Non-square with the diagonal of length n.
				Parent::Two(Array2::from_shape_vec((n, m), mk(n * m)).unwrap())
			}
			Layout::Cube { axis, f } => {
				let mut d = [2, 2, 2];
				d[axis] = n;
				let v = mk(4 * n);
				Parent::Three(
					Array3::from_shape_vec((d[0], d[1], d[2]).set_f(f), v).unwrap(),
				)
			}
			Layout::Deep { axis, f, seed, .. } => {
				let mut d = [2; 5];
				d[(seed as usize >> 8) % 5] = 1;
				d[axis] = n;
				let v = mk(d.iter().product());
				Parent::Many(ArrayD::from_shape_vec(IxDyn(&d).set_f(f), v).unwrap())
			}
		};
		let mut h = Host { parent, layout, n, orig: vec![] };
		{
			let mut v = h.view_mut();
			assert_eq!(v.len(), n);
			for (i, &k) in keys.iter().enumerate() {
				v[i] = T::mk(k, i as u32);
			}
		}
		h.orig = h.cells().iter().map(|c| c.id()).collect();
		h
	}
	pub fn layout(&self) -> Layout {
		self.layout
	}
	pub fn cells(&self) -> &[T] {
		match &self.parent {
			Parent::One(a) => a.as_slice_memory_order().unwrap(),
			Parent::Two(a) => a.as_slice_memory_order().unwrap(),
			Parent::Three(a) => a.as_slice_memory_order().unwrap(),
			Parent::Many(a) => a.as_slice_memory_order().unwrap(),
		}
	}
	pub fn view_mut(&mut self) -> ArrayViewMut1<'_, T> {
		let n = self.n;
		match (&mut self.parent, self.layout) {
			(Parent::One(a), Layout::Owned) => a.view_mut(),
			(Parent::One(a), Layout::Step { off, step, .. }) => {
				let st = step.unsigned_abs();
				let span = if n == 0 { 0 } else { (n - 1) * st + 1 };
				a.slice_mut(s![off..off + span;step])
			}
			(Parent::Two(a), Layout::Lane { axis, at, rev, .. }) => {
				let mut v = if axis == 0 { a.column_mut(at) } else { a.row_mut(at) };
				if rev {
					v.invert_axis(Axis(0));
				}
				v
			}
			(Parent::Two(a), Layout::Diag { .. }) => a.diag_mut(),
			(Parent::Three(a), Layout::Cube { axis, .. }) => match axis {
				0 => a.slice_mut(s![.., 1, 0]),
				1 => a.slice_mut(s![0, .., 1]),
				_ => a.slice_mut(s![1, 0, ..]),
			},
			(Parent::Many(a), Layout::Deep { axis, seed, rev, .. }) => {
				let mut v = a.view_mut();
				v.swap_axes(0, (seed as usize >> 16) % 5);
				v.swap_axes(0, (seed as usize >> 16) % 5);
				for d in (0..5).rev() {
					if d != axis {
						if seed >> (20 + d) & 1 == 1 {
							v.invert_axis(Axis(d));
						}
						let at = deep_at(seed, axis, d) % v.len_of(Axis(d));
						v = v.index_axis_move(Axis(d), at);
					}
				}
				let mut v = v.into_dimensionality::<Ix1>().unwrap();
				if rev {
					v.invert_axis(Axis(0));
				}
				v
			}
			_ => unreachable!(),
		}
	}
	pub fn view(&self) -> ArrayView1<'_, T> {
		let n = self.n;
		match (&self.parent, self.layout) {
			(Parent::One(a), Layout::Owned) => a.view(),
			(Parent::One(a), Layout::Step { off, step, .. }) => {
				let st = step.unsigned_abs();
				let span = if n == 0 { 0 } else { (n - 1) * st + 1 };
				a.slice(s![off..off + span;step])
			}
			(Parent::Two(a), Layout::Lane { axis, at, rev, .. }) => {
				let mut v = if axis == 0 { a.column(at) } else { a.row(at) };
				if rev {
					v.invert_axis(Axis(0));
				}
				v
			}
			(Parent::Two(a), Layout::Diag { .. }) => a.diag(),
			(Parent::Three(a), Layout::Cube { axis, .. }) => match axis {
				0 => a.slice(s![.., 1, 0]),
				1 => a.slice(s![0, .., 1]),
				_ => a.slice(s![1, 0, ..]),
			},
			(Parent::Many(a), Layout::Deep { axis, seed, rev, .. }) => {
				let mut v = a.view();
				v.swap_axes(0, (seed as usize >> 16) % 5);
				v.swap_axes(0, (seed as usize >> 16) % 5);
				for d in (0..5).rev() {
					if d != axis {
						if seed >> (20 + d) & 1 == 1 {
							v.invert_axis(Axis(d));
						}
						let at = deep_at(seed, axis, d) % v.len_of(Axis(d));
						v = v.index_axis_move(Axis(d), at);
					}
				}
				let mut v = v.into_dimensionality::<Ix1>().unwrap();
				if rev {
					v.invert_axis(Axis(0));
				}
				v
			}
			_ => unreachable!(),
		}
	}
	/// Current `(key, id)` sequence of the view.
	pub fn out(&self) -> Vec<(u32, u32)> {
		self.view().iter().map(|e| (e.key(), e.id())).collect()
	}
	/// Cells outside the view must be what they were.
	pub fn check_canaries(&self) -> Result<usize, String> {
		let mut n = 0;
		for (p, c) in self.cells().iter().enumerate() {
			if self.orig[p] >= CAN {
				n += 1;
				let want = canary::<T>(p);
				if c.id() != self.orig[p] || c.key() != want.key() || !c.ok() {
					return Err(format!(
						"parent cell {p} outside the view changed: identity {:#x} -> {:#x}, key {} -> {}",
						self.orig[p], c.id(), want.key(), c.key()
					));
				}
			}
			if !c.ok() {
				return Err(format!("parent cell {p} holds a torn or misplaced element"));
			}
		}
		Ok(n)
	}
	/// Address range of the parent's cells and size of one.
	pub fn span(&self) -> (usize, usize) {
		let c = self.cells();
		(c.as_ptr() as usize, c.as_ptr() as usize + std::mem::size_of_val(c))
	}
}
