//! A QUBO read out of the library, and exact reference minimisation.
use annealers::model::FixedSingleQuadricModel;
use annealers::node::Binary;
use annealers::prelude::FixedSingleModelView;
use annealers::variable::Real;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Qubo {
	pub n: usize,
	pub lin: Vec<f64>,
	pub quad: BTreeMap<(usize, usize), f64>,
}

pub fn read_qubo<R: Real>(m: &FixedSingleQuadricModel<Binary<R>>) -> Qubo {
	let n = FixedSingleModelView::size(m);
	let mut q = Qubo {
		n,
		lin: Vec::with_capacity(n),
		quad: BTreeMap::new(),
	};
	for i in 0..n {
		q.lin
			.push(FixedSingleModelView::get_weight(m, &[i, i]).as_f64());
		for j in i + 1..n {
			let w = FixedSingleModelView::get_weight(m, &[i, j]).as_f64();
			if w != 0.0 {
				q.quad.insert((i, j), w);
			}
		}
	}
	q
}

/// The weights of a model of integers, exactly.
pub fn read_big<R: Real>(m: &FixedSingleQuadricModel<Binary<R>>) -> BTreeMap<(usize, usize), i128> {
	let n = FixedSingleModelView::size(m);
	let mut q = BTreeMap::new();
	for i in 0..n {
		for j in i..n {
			let w = FixedSingleModelView::get_weight(m, &[i, j]);
			let any: &dyn std::any::Any = &w;
			let w = match (any.downcast_ref::<i64>(), any.downcast_ref::<i128>()) {
				(Some(w), _) => *w as i128,
				(_, Some(w)) => *w,
				_ => panic!("not a model of large integers"),
			};
			if w != 0 {
				q.insert((i, j), w);
			}
		}
	}
	q
}

impl Qubo {
	pub fn energy(&self, s: &[bool]) -> f64 {
		let mut e = 0.0;
		for i in 0..self.n {
			if s[i] {
				e += self.lin[i];
			}
		}
		for ((i, j), w) in self.quad.iter() {
			if s[*i] && s[*j] {
				e += w;
			}
		}
		e
	}

	/// Minimum over the variables that `fixed` leaves open, and a minimiser;
	/// None if the elimination would need tables over more than `width` bits.
	pub fn min_over(&self, fixed: &[Option<bool>], width: usize) -> Option<f64> {
		let mut c = 0.0;
		let mut lin = self.lin.clone();
		let mut adj: Vec<BTreeMap<usize, f64>> = vec![BTreeMap::new(); self.n];
		let mut state: Vec<Option<bool>> = fixed.to_vec();
		for ((i, j), w) in self.quad.iter() {
			match (state[*i], state[*j]) {
				(Some(a), Some(b)) => {
					if a && b {
						c += w
					}
				}
				(Some(a), None) => {
					if a {
						lin[*j] += w
					}
				}
				(None, Some(b)) => {
					if b {
						lin[*i] += w
					}
				}
				(None, None) => {
					adj[*i].insert(*j, *w);
					adj[*j].insert(*i, *w);
				}
			}
		}
		for i in 0..self.n {
			if state[i] == Some(true) {
				c += lin[i];
			}
		}
		// Persistency: variables whose best value does not depend on the others.
		let mut work: Vec<usize> = (0..self.n).filter(|i| state[*i].is_none()).collect();
		while let Some(i) = work.pop() {
			if state[i].is_some() {
				continue;
			}
			let neg: f64 = adj[i].values().filter(|w| **w < 0.0).sum();
			let pos: f64 = adj[i].values().filter(|w| **w > 0.0).sum();
			let val = if lin[i] + neg >= 0.0 {
				false
			} else if lin[i] + pos <= 0.0 {
				true
			} else {
				continue;
			};
			state[i] = Some(val);
			if val {
				c += lin[i];
			}
			let ns: Vec<(usize, f64)> = adj[i].iter().map(|(j, w)| (*j, *w)).collect();
			adj[i].clear();
			for (j, w) in ns {
				adj[j].remove(&i);
				if val {
					lin[j] += w;
				}
				work.push(j);
			}
		}
		// Bucket elimination of the rest.
		let mut tables: Vec<(Vec<usize>, Vec<f64>)> = Vec::new();
		let open: Vec<usize> = (0..self.n).filter(|i| state[*i].is_none()).collect();
		for i in open.iter() {
			tables.push((vec![*i], vec![0.0, lin[*i]]));
			for (j, w) in adj[*i].iter() {
				if i < j {
					tables.push((vec![*i, *j], vec![0.0, 0.0, 0.0, *w]));
				}
			}
		}
		let mut left: Vec<usize> = open;
		while !left.is_empty() {
			let (pos, _) = left
				.iter()
				.enumerate()
				.map(|(p, v)| {
					let mut s: Vec<usize> = tables
						.iter()
						.filter(|t| t.0.contains(v))
						.flat_map(|t| t.0.iter().cloned())
						.collect();
					s.sort_unstable();
					s.dedup();
					(p, s.len())
				})
				.min_by_key(|t| t.1)
				.unwrap();
			let v = left.swap_remove(pos);
			let (mine, rest): (Vec<_>, Vec<_>) = tables.into_iter().partition(|t| t.0.contains(&v));
			tables = rest;
			let mut scope: Vec<usize> = mine.iter().flat_map(|t| t.0.iter().cloned()).collect();
			scope.sort_unstable();
			scope.dedup();
			scope.retain(|s| *s != v);
			if scope.len() > width {
				return None;
			}
			let mut out = vec![0.0; 1 << scope.len()];
			for (idx, o) in out.iter_mut().enumerate() {
				let mut best = f64::INFINITY;
				for val in 0..2usize {
					let mut e = 0.0;
					for (sc, tab) in mine.iter() {
						let mut k = 0;
						for (bit, s) in sc.iter().enumerate() {
							let x = if *s == v {
								val
							} else {
								let p = scope.binary_search(s).unwrap();
								(idx >> p) & 1
							};
							k |= x << bit;
						}
						e += tab[k];
					}
					if e < best {
						best = e;
					}
				}
				*o = best;
			}
			tables.push((scope, out));
		}
		for (_, t) in tables {
			c += t[0];
		}
		Some(c)
	}

	/// Exhaustive minimum (small n).
	pub fn ground(&self) -> (f64, Vec<bool>) {
		assert!(self.n <= 24);
		let mut lin = self.lin.clone();
		let mut s = vec![false; self.n];
		let mut adj: Vec<Vec<(usize, f64)>> = vec![Vec::new(); self.n];
		for ((i, j), w) in self.quad.iter() {
			adj[*i].push((*j, *w));
			adj[*j].push((*i, *w));
		}
		let mut e = 0.0;
		let mut best = (0.0, s.clone());
		for k in 1u64..(1u64 << self.n) {
			let i = k.trailing_zeros() as usize;
			let d = if s[i] { -1.0 } else { 1.0 };
			e += d * lin[i];
			s[i] = !s[i];
			for (j, w) in adj[i].iter() {
				lin[*j] += d * w;
			}
			if e < best.0 - 1e-12 {
				best = (e, s.clone());
			}
		}
		best
	}
}
