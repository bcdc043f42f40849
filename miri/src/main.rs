//! Generated programs over the public API, run under Miri: C20.
//!
//! usage: rqmiri SEED FIRST COUNT [MODE [SIZE]]
//! MODE 1: all but the solving programs; 2: those only (the thread pool they
//! start outlives main, so lost memory cannot be looked for); 0: both; 3: those
//! whose solver keeps the model; 4 (outside Miri): 0 many times over, counting
//! the memory in use, which ends at the first case that loses some.
//! Prints "CASE <n> <kind> size=<s>" before each case; Miri ends the process
//! at the first undefined behaviour.
use annealers::model::{FixedSingleQuadricModel, Neighbors, Prods, SingleModel, SingleModelView};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::prelude::*;
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::solver::Solver;
use annealers::variable::Real;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rand::{RngCore, SeedableRng};
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::cell::Cell;
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

struct G(u64);
impl G {
	fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
	fn below(&mut self, n: usize) -> usize {
		(self.next() >> 11) as usize % n.max(1)
	}
	fn coin(&mut self) -> bool {
		self.next() & 1024 == 1024
	}
	fn int(&mut self, k: i32) -> i32 {
		self.below(2 * k as usize + 1) as i32 - k
	}
}

// --- memory in use, counted (outside Miri, which does it better) -------------

#[cfg(not(miri))]
mod count {
	use std::alloc::{GlobalAlloc, Layout, System};
	use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
	pub static LIVE: AtomicIsize = AtomicIsize::new(0);
	struct Counting;
	unsafe impl GlobalAlloc for Counting {
		unsafe fn alloc(&self, l: Layout) -> *mut u8 {
			LIVE.fetch_add(l.size() as isize, Relaxed);
			System.alloc(l)
		}
		unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
			LIVE.fetch_sub(l.size() as isize, Relaxed);
			System.dealloc(p, l)
		}
	}
	#[global_allocator]
	static A: Counting = Counting;
}

/// Bytes lost by each run of the case when it is run over and over.
#[cfg(not(miri))]
fn lost(mut once: impl FnMut()) -> isize {
	use std::sync::atomic::Ordering::Relaxed;
	const RUNS: isize = 40;
	let mut least = isize::MAX;
	for _ in 0..6 {
		let before = count::LIVE.load(Relaxed);
		for _ in 0..RUNS {
			once();
		}
		// Queues of the thread pool grow by steps and shrink later, so one
		// round without growth is enough.
		least = least.min((count::LIVE.load(Relaxed) - before) / RUNS);
		if least <= 0 {
			break;
		}
	}
	least
}
#[cfg(miri)]
fn lost(_: impl FnMut()) -> isize {
	0
}

// --- labels -----------------------------------------------------------------

thread_local! {
	static CLONES: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// A heap-owning label whose clone can be made to panic.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Touchy(Box<String>);
impl Clone for Touchy {
	fn clone(&self) -> Self {
		CLONES.with(|c| {
			let k = c.get();
			if k == 0 {
				c.set(u64::MAX);
				panic!("clone");
			}
			if k != u64::MAX {
				c.set(k - 1);
			}
		});
		Touchy(self.0.clone())
	}
}

trait Lab: Clone + std::fmt::Debug + Eq + Ord + std::hash::Hash + Send + Sync + 'static {
	fn of(i: usize) -> Self;
}
impl Lab for String {
	fn of(i: usize) -> Self {
		format!("label{i}")
	}
}
impl Lab for u8 {
	fn of(i: usize) -> Self {
		i as u8
	}
}
impl Lab for Touchy {
	fn of(i: usize) -> Self {
		Touchy(Box::new(format!("t{i}")))
	}
}

// --- expressions ------------------------------------------------------------

type X<L, R> = Expr<L, L, L, R>;

fn leaf<L: Lab, R: Real>(g: &mut G) -> X<L, R> {
	match g.below(5) {
		0 => Expr::Number(R::from_i32(g.int(4))),
		1 => Expr::Placeholder(L::of(g.below(2))),
		2 => Expr::Spin(L::of(g.below(4))),
		_ => Expr::Binary(L::of(g.below(4))),
	}
}

fn tree<L: Lab, R: Real>(g: &mut G, depth: usize) -> X<L, R> {
	if depth == 0 {
		return leaf(g);
	}
	match g.below(7) {
		0 => leaf(g),
		1 => tree::<L, R>(g, depth - 1) + tree::<L, R>(g, depth - 1),
		2 => tree::<L, R>(g, depth - 1) - tree::<L, R>(g, depth - 1),
		3 => tree::<L, R>(g, depth - 1) * leaf::<L, R>(g),
		4 => -tree::<L, R>(g, depth - 1),
		5 => Expr::Constraint {
			label: L::of(g.below(2)),
			expr: Box::new(leaf::<L, R>(g) + leaf::<L, R>(g)),
		},
		_ => Expr::WithPenalty {
			expr: Box::new(tree::<L, R>(g, depth - 1)),
			penalty: Box::new(leaf(g)),
		},
	}
}

fn nodes<L: Lab, R: Real>(e: &X<L, R>) -> usize {
	1 + match e {
		Expr::Add(l, r) | Expr::Mul(l, r) => nodes(l) + nodes(r),
		Expr::Constraint { expr, .. } => nodes(expr),
		Expr::WithPenalty { expr, penalty } => nodes(expr) + nodes(penalty),
		_ => 0,
	}
}

/// Assigning operators, with and without a panic on the way.
fn assign<L: Lab, R: Real>(g: &mut G, size: usize, panics: bool) {
	let mut e: X<L, R> = tree(g, 1);
	let mut kept: Vec<X<L, R>> = Vec::new();
	for _ in 0..size {
		if panics && g.below(3) == 0 {
			CLONES.with(|c| c.set(g.below(4) as u64));
		}
		let op = g.below(9);
		let o: X<L, R> = tree(g, 1);
		let n = R::from_i32(g.int(3));
		let k = g.below(4);
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
			0 => e += o,
			1 => e -= o,
			2 => e *= o,
			3 => e += n,
			4 => e -= n,
			5 => e *= n,
			6 => e ^= k,
			7 => kept.push(e.clone()),
			_ => {
				e = e.clone().map(&mut |x| x);
			}
		}));
		CLONES.with(|c| c.set(u64::MAX));
		// Whatever happened, the expression must still be one.
		let n = nodes(&e);
		let text = format!("{e:?}");
		assert!(n > 0 && !text.is_empty());
		if r.is_err() || n > 60 {
			e = tree(g, 1);
		}
		if kept.len() > 3 {
			kept.remove(0);
		}
	}
	let same = kept.iter().filter(|k| **k == e).count();
	assert!(same <= kept.len());
}

/// Compile, feed and solve.
fn solve<R: Real>(g: &mut G, size: usize) {
	type L = String;
	let mut e: Expr<L, L, u8, R> = Expr::Number(R::from_i32(g.int(3)));
	let lf = |g: &mut G| -> Expr<L, L, u8, R> {
		match g.below(6) {
			0 => Expr::Placeholder(L::of(g.below(2))),
			1 | 2 => Expr::Spin(L::of(g.below(4))),
			_ => Expr::Binary(L::of(g.below(4))),
		}
	};
	for _ in 0..size {
		let t = match g.below(4) {
			0 => lf(g) * lf(g) * lf(g),
			1 => Expr::Constraint {
				label: g.below(2) as u8,
				expr: Box::new((lf(g) - lf(g)) ^ 2),
			},
			2 => Expr::WithPenalty {
				expr: Box::new(lf(g)),
				penalty: Box::new(lf(g) * lf(g)),
			},
			_ => lf(g) * Expr::Number(R::from_i32(g.int(3))),
		};
		e = e + t;
	}
	let dict: HashMap<L, R> = (0..2).map(|i| (L::of(i), R::from_i32(2 + i as i32))).collect();
	let compiled = e.compile();
	let compiled = compiled.feed_dict(dict);
	let mut s = SimpleSolver::new(&compiled);
	s.samples = 1 + g.below(2);
	s.iterations = 1;
	s.generations = 1 + g.below(2);
	s.solver_generator.beta = match g.below(2) {
		0 => BetaType::Count(g.below(4)),
		_ => BetaType::CountRange(2, R::from_i32(1), R::from_i32(2)),
	};
	s.solver_generator.sweeps_per_round = 1 + g.below(2);
	let _ = s.get_qubits().len();
	let (energy, sol, bad) = s.solve_with_constraints().unwrap();
	let _ = (energy.as_f64(), bad.len());
	for i in 0..5 {
		let l = L::of(i);
		if let Some(_) = sol.get(&l) {
			let _ = sol.local_field(&l);
		}
	}
	let _ = sol.keys().count();
	let _ = sol.energy();
}

/// Bit vectors.
fn bits(g: &mut G, size: usize) {
	let len = g.below(size * 3 + 1);
	let mut r = rand::rngs::StdRng::seed_from_u64(g.next());
	let v: Vec<bool> = (0..len).map(|_| g.coin()).collect();
	let mut b = match g.below(3) {
		0 => BinaryRepr::from_vec(&v),
		1 => BinaryRepr::new_random(len, &mut r),
		_ => {
			// every bit is written before it is read
			let mut b = unsafe { BinaryRepr::with_len_unchecked(len) };
			for (i, x) in v.iter().enumerate() {
				b.set(i, *x);
			}
			b
		}
	};
	assert_eq!(b.len(), len);
	let mut other = b.clone();
	for _ in 0..size * 2 {
		let i = g.below(len + 2);
		match g.below(10) {
			// safe calls may be given any index
			8 => {
				let i = g.below(len + 40);
				let x = g.coin();
				let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.set(i, x)));
			}
			9 => {
				let i = g.below(len + 40);
				let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.flip(i)));
				let _ = std::panic::catch_unwind(|| b[i]);
			}
			0 if i < len => b.set(i, g.coin()),
			1 if i < len => b.flip(i),
			2 if i < len => unsafe { b.set_unchecked(i, g.coin()) },
			3 if i < len => unsafe { b.flip_unchecked(i) },
			4 => {
				let _ = std::panic::catch_unwind(|| b.get(i));
			}
			5 => {
				assert_eq!(b.iter().count(), len);
				let mut it = b.iter();
				for _ in 0..4 {
					let _ = it.nth(g.below(len + 3));
				}
				let _ = (b.iter().skip(i).step_by(3).count(), b.iter().last(), it.size_hint());
			}
			6 => other = b.clone(),
			_ => {
				let t = b.to_vec();
				assert_eq!(t.len(), len);
				let ones = t.iter().filter(|x| **x).count();
				assert!(ones <= len);
			}
		}
	}
	let (x, y) = (other.to_vec(), b.to_vec());
	assert_eq!(x.len(), y.len());
	let s = SingleSolution::<Binary<i32>>::from_state(b);
	let mut sum = 0;
	for i in 0..s.len() {
		sum += s[i] as usize + s.get(i) as usize + unsafe { s.get_unchecked(i) } as usize;
	}
	assert!(sum <= 3 * len);
	for _ in 0..3 {
		let i = g.below(len + 40);
		let _ = std::panic::catch_unwind(|| s.get(i));
		let _ = std::panic::catch_unwind(|| s[i]);
	}
	r.next_u32();
}

fn use_model<M: SingleModelView>(m: &M, ids: &[usize], g: &mut G)
where
	M::Node: SingleNode,
{
	let len = ids.iter().max().map_or(0, |m| m + 1);
	let v: Vec<bool> = (0..len).map(|_| g.coin()).collect();
	let s = SingleSolution::<<M as SingleModelView>::Node>::from_vec(&v);
	let e = s.calculate_energy(m);
	let lf = s.clone().calculate_local_field(m);
	assert_eq!(lf.len(), len);
	let t = s.clone().with_energy(m).with_local_field(m);
	let _ = (e.as_f64(), t.compare_energy(&s));
	for p in m.prods() {
		let _ = m.get_weight(&p).as_f64();
		let _ = unsafe { m.get_weight_unchecked(&p).as_f64() };
		let _ = (p.len(), p.iter().count());
	}
	for i in ids {
		let _ = m.neighbors(*i).into_iter().count();
	}
}

/// Models, energies and the annealer.
fn models<R: Real>(g: &mut G, size: usize) {
	let n = g.below(size + 2);
	let mut d = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	let ids: Vec<usize> = (0..n).collect();
	let gap: Vec<usize> = (0..n).map(|i| 2 * i + 1).collect();
	let mut s = SingleModel::new(Binary::<R>::new(), Quadric);
	let mut h = SingleModel::new(Spin::<R>::new(), HighOrder::new(3));
	let mut two = FixedSingleQuadricModel::new(TwoVal::new(R::from_i32(3), R::from_i32(-2)), n);
	let mut sid = BTreeSet::new();
	let mut hid = BTreeSet::new();
	if n > 0 {
		for _ in 0..size * 2 {
			let (i, j) = (g.below(n), g.below(n));
			let w = R::from_i32(g.int(5));
			d.add_weight(i, j, w);
			two.add_weight(i, j, w);
			let (a, b) = (gap[i.min(j)], gap[i.max(j)]);
			s.add_weight([a, b], w);
			sid.insert(a);
			sid.insert(b);
			let mut set: BTreeSet<usize> = BTreeSet::new();
			for _ in 0..g.below(4) {
				set.insert(g.below(n));
			}
			hid.extend(set.iter().cloned());
			h.add_weight(set, w);
		}
	}
	let sid: Vec<usize> = sid.into_iter().collect();
	let hid: Vec<usize> = hid.into_iter().collect();
	use_model(&d, &ids, g);
	use_model(&two, &ids, g);
	use_model(&s, &sid, g);
	use_model(&h, &hid, g);
	let _ = Prods::<[usize; 2]>::new(2, n).count();
	let mut it = Prods::<[usize; 2]>::new(2, n);
	for _ in 0..4 {
		let _ = it.nth(g.below(n * n + 2));
	}
	let _ = Neighbors::<[usize; 2]>::new(g.below(n + 1), 2, n).count();
	// out of range
	let (i, j) = (g.below(n + 3), g.below(n + 3));
	let mut c = d.clone();
	let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		c.add_weight(i, j, R::from_i32(1))
	}));
	let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
		FixedSingleModelView::get_weight(&c, &[i.min(j), i.max(j)])
	}));
	// anneal
	let beta = |g: &mut G| match g.below(3) {
		0 => BetaType::Count(g.below(5)),
		1 => BetaType::CountRange(g.below(4), R::from_i32(1), R::from_i32(3)),
		_ => BetaType::Schedule((0..g.below(4)).map(|i| R::from_i32(i as i32)).collect()),
	};
	let mut r = rand::rngs::StdRng::seed_from_u64(g.next());
	let mut gd = SimulatedAnnealerGenerator::<FixedSingleQuadricModel<Binary<R>>>::new();
	gd.beta = beta(g);
	gd.sweeps_per_round = g.below(3);
	let v = gd.generate(&d).unwrap().solve_with_rng(&mut r).unwrap();
	assert_eq!(v[0].state.to_vec().len(), n);
	let mut gs = SimulatedAnnealerGenerator::<SingleModel<Binary<R>, Quadric>>::new();
	gs.beta = beta(g);
	gs.sweeps_per_round = g.below(3);
	let v = gs.generate(&s).unwrap().solve_with_rng(&mut r).unwrap();
	for x in v {
		let _ = x.state.to_vec();
		let _ = x.calculate_energy(&s);
	}
}

// --- solvers of the user's own ----------------------------------------------

type Dense<R> = FixedSingleQuadricModel<Binary<R>>;

#[derive(Debug)]
struct Failed;
impl std::fmt::Display for Failed {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "failed")
	}
}
impl std::error::Error for Failed {}

#[derive(Clone)]
enum What<R: Real> {
	States(Vec<SingleSolution<Binary<R>>>),
	Error,
	Panic,
}

/// Answers as it is told to; may keep what it is given.
struct Own<R: Real> {
	answers: Mutex<Vec<What<R>>>,
	refuse: usize,
	calls: Mutex<usize>,
	kept: Option<Arc<Mutex<Vec<&'static Dense<R>>>>>,
}

/// Reads its model while solving and when it is dropped.
struct OwnSolver<R: Real>(What<R>, &'static Dense<R>);

impl<R: Real> Drop for OwnSolver<R> {
	fn drop(&mut self) {
		read_model(self.1);
	}
}

impl<R: Real> SolverGenerator<'static, Dense<R>> for Own<R> {
	type SolverType = OwnSolver<R>;
	type ErrorType = Failed;
	fn generate(&self, model: &'static Dense<R>) -> Result<OwnSolver<R>, Failed> {
		let mut c = self.calls.lock().unwrap_or_else(|e| e.into_inner());
		*c += 1;
		if *c > 20 || *c == self.refuse {
			return Err(Failed);
		}
		if let Some(k) = &self.kept {
			k.lock().unwrap().push(model);
		}
		let a = self.answers.lock().unwrap_or_else(|e| e.into_inner());
		Ok(OwnSolver(a[*c % a.len()].clone(), model))
	}
}
impl<R: Real> UnstructuredSolverGenerator<'static, Dense<R>> for Own<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<R: Real> Solver for OwnSolver<R> {
	type ErrorType = Failed;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Real> ClassicalSolver for OwnSolver<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		_: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, Failed> {
		assert!(read_model(self.1).is_finite());
		match &self.0 {
			What::States(v) => Ok(v.clone()),
			What::Error => Err(Failed),
			What::Panic => panic!("solver"),
		}
	}
}

/// Solving with answers of any length, with energies and fields of their own.
fn answers<R: Real>(g: &mut G, size: usize, fitting: bool) {
	let n = 1 + g.below(size.min(5) * 4);
	let mut e: Expr<(), String, u8, R> = Expr::Binary(String::of(0)) * Expr::Number(R::from_i32(1));
	for i in 1..n {
		let t = Expr::Binary(String::of(i)) * Expr::Spin(String::of(g.below(i)));
		e = e
			+ match g.below(3) {
				0 => Expr::Constraint { label: i as u8, expr: Box::new(t) },
				_ => t * Expr::Number(R::from_i32(g.int(3))),
			};
	}
	let compiled = e.compile();
	let v = (0..1 + g.below(3))
		.map(|_| match g.below(8) {
			0 if !fitting => What::Error,
			1 if !fitting => What::Panic,
			_ => What::States(
				(0..g.below(3) + fitting as usize)
					.map(|_| {
						let len = match g.below(6) {
							_ if fitting => n,
							0 => 0,
							1 => n - 1,
							2 => n + 1 + g.below(20),
							3 => g.below(n + 1),
							_ => n,
						};
						let v: Vec<bool> = (0..len).map(|_| g.coin()).collect();
						let mut s = SingleSolution::from_vec(&v);
						let whole = g.coin();
						if whole || g.below(3) == 0 {
							s.energy = Some(R::from_i32(g.int(9)));
						}
						if whole && len < n && g.coin() {
							// better than the others
							s.energy = Some(R::from_i32(-100));
						}
						if whole || g.below(3) == 0 {
							let m = if whole { n } else if g.coin() { len } else { g.below(len + 3) };
							s.local_field = Some(vec![R::from_i32(1); m]);
						}
						s.occurrences = g.below(5);
						s
					})
					.collect(),
			),
		})
		.collect();
	let own = Own {
		answers: Mutex::new(v),
		refuse: if fitting { 0 } else { g.below(12) },
		calls: Mutex::new(0),
		kept: None,
	};
	let mut s = SimpleSolver::with_solver(&compiled, own);
	s.samples = g.below(3) + fitting as usize;
	s.iterations = 1 + g.below(2);
	s.generations = 1 + g.below(2);
	let r = catch_unwind(AssertUnwindSafe(|| s.solve_with_constraints()));
	if let Ok(Ok((energy, sol, bad))) = r {
		let _ = (energy.as_f64(), bad.len(), sol.occurrences(), sol.energy().map(|e| e.as_f64()));
		for i in 0..n + 2 {
			let l = String::of(i);
			let _ = catch_unwind(AssertUnwindSafe(|| sol.get(&l)));
			let _ = catch_unwind(AssertUnwindSafe(|| sol[&l]));
			let _ = catch_unwind(AssertUnwindSafe(|| sol.local_field(&l).map(|f| f.as_f64())));
		}
		let _ = sol.keys().count();
		let _ = catch_unwind(AssertUnwindSafe(|| format!("{sol:?}")));
	}
}

#[inline(never)]
fn read_model<R: Real>(m: &Dense<R>) -> f64 {
	use annealers::model::FixedSingleModelView as F;
	let mut sum = 0.0;
	for i in 0..F::size(m) {
		sum += F::get_weight(m, &[i, i]).as_f64();
	}
	sum
}

/// A solver that still reads the model it was given (for `'static`, it says)
/// when solving is over.
fn kept<R: Real>(g: &mut G, size: usize) {
	let mut e: Expr<(), String, (), R> = Expr::Number(R::from_i32(g.int(3)));
	for i in 0..size {
		e = e + Expr::Binary(String::of(i)) * Expr::Number(R::from_i32(1 + g.int(3)));
	}
	let compiled = e.compile();
	let kept = Arc::new(Mutex::new(Vec::new()));
	let own = Own {
		answers: Mutex::new(vec![What::States(vec![SingleSolution::from_vec(&vec![false; size])])]),
		refuse: 0,
		calls: Mutex::new(0),
		kept: Some(kept.clone()),
	};
	let mut s = SimpleSolver::with_solver(&compiled, own);
	s.samples = 1;
	s.iterations = 1;
	s.generations = 1;
	let r = s.solve();
	assert!(r.is_ok());
	drop(r);
	for m in kept.lock().unwrap().iter() {
		read_model(m);
	}
}

// --- models of the user's own -----------------------------------------------

/// A model whose parts need not agree with each other.
#[derive(Clone)]
struct Loose<R: Real> {
	node: Binary<R>,
	order: HighOrder,
	nodes: Vec<usize>,
	prods: Vec<BTreeSet<usize>>,
	near: Vec<BTreeSet<usize>>,
	weight: R,
}
impl<R: Real> SingleModelView for Loose<R> {
	type Node = Binary<R>;
	type NodesIter = Vec<usize>;
	type ProdsIter = Vec<BTreeSet<usize>>;
	type NeighborsIter = Vec<BTreeSet<usize>>;
	type Order = HighOrder;
	fn order(&self) -> &HighOrder {
		&self.order
	}
	fn node(&self) -> &Binary<R> {
		&self.node
	}
	fn nodes(&self) -> Vec<usize> {
		self.nodes.clone()
	}
	fn get_weight(&self, _: &<HighOrder as Order>::NodeSetType) -> R {
		self.weight
	}
	unsafe fn get_weight_unchecked(&self, _: &<HighOrder as Order>::NodeSetType) -> R {
		self.weight
	}
	fn prods(&self) -> Vec<BTreeSet<usize>> {
		self.prods.clone()
	}
	fn neighbors(&self, u: usize) -> Vec<BTreeSet<usize>> {
		self.near.iter().filter(|p| p.contains(&u)).cloned().collect()
	}
}

fn loose<R: Real>(g: &mut G, size: usize) {
	let n = 1 + g.below(size * 3);
	let wide = if g.coin() { 1 } else { n + 40 };
	let sets = |g: &mut G, top: usize| -> Vec<BTreeSet<usize>> {
		(0..g.below(5))
			.map(|_| {
				let mut s = BTreeSet::new();
				for _ in 0..1 + g.below(3) {
					s.insert(g.below(top));
				}
				s
			})
			.collect()
	};
	let m = Loose {
		node: Binary::<R>::new(),
		order: HighOrder::new(3),
		nodes: (0..n).collect(),
		prods: sets(g, n + wide),
		near: {
			let top = if g.coin() { n } else { n + 40 };
			sets(g, top)
		},
		weight: R::from_i32(g.int(2)),
	};
	let mut r = rand::rngs::StdRng::seed_from_u64(g.next());
	let mut b = BinaryRepr::new_random(n + g.below(9), &mut r);
	let beta = [1.0f64, 0.5];
	let _ = catch_unwind(AssertUnwindSafe(|| {
		classical_solver::algo::simulated_annealing(&mut r, &mut b, &beta, 2, &m)
	}));
	let _ = b.to_vec();
	let mut gen = SimulatedAnnealerGenerator::<Loose<R>>::new();
	gen.sweeps_per_round = 1;
	gen.beta = BetaType::Count(3);
	let _ = catch_unwind(AssertUnwindSafe(|| {
		gen.generate(&m).unwrap().solve_with_rng(&mut r).unwrap().len()
	}));
	let s = SingleSolution::<Binary<R>>::from_state(b);
	let _ = catch_unwind(AssertUnwindSafe(|| s.calculate_energy(&m)));
	let _ = catch_unwind(AssertUnwindSafe(|| s.clone().with_energy(&m).with_local_field(&m)));
}

fn run(g: &mut G, kind: usize, size: usize) {
	let k = g.below(3) == 0;
	match kind {
		0 => assign::<String, f64>(g, size, false),
		1 => assign::<Touchy, i32>(g, size, true),
		2 => bits(g, size),
		3 => models::<i64>(g, size.min(5)),
		4 => models::<f64>(g, size.min(5)),
		5 => assign::<u8, i64>(g, size, false),
		6 => assign::<String, i8>(g, size, false),
		7 => bits(g, size),
		8 => assign::<Touchy, f64>(g, size, true),
		10 => loose::<i64>(g, size),
		11 => loose::<f64>(g, size),
		12 => {
			if g.coin() {
				answers::<f64>(g, size, k)
			} else {
				answers::<i32>(g, size, k)
			}
		}
		13 => {
			if g.coin() {
				kept::<f64>(g, size)
			} else {
				kept::<i32>(g, size)
			}
		}
		_ => {
			if g.coin() {
				solve::<f64>(g, size.min(3))
			} else {
				solve::<i32>(g, size.min(3))
			}
		}
	}
}

const KINDS: [&str; 14] = [
	"assign-string-f64", "assign-panicking-i32", "bits", "models-i64", "models-f64",
	"assign-u8-i64", "assign-string-i8", "bits", "assign-panicking-f64", "solve",
	"own-model-i64", "own-model-f64", "own-solver", "kept-model",
];

fn main() {
	// Expected panics stay silent; a violated precondition of an unsafe
	// function arrives as a panic too, which then ends the process.
	std::panic::set_hook(Box::new(|info| {
		let text = info.to_string();
		if text.contains("unsafe precondition") {
			eprintln!("{text}");
		}
	}));
	let a: Vec<u64> = std::env::args().skip(1).map(|s| s.parse().unwrap()).collect();
	let (seed, first, count) = (a[0], a[1], a[2]);
	let mode = a.get(3).cloned().unwrap_or(0);
	let forced = a.get(4).cloned();
	let mut panicked = 0;
	for k in first..first + count {
		let mut g = G(seed.wrapping_mul(0x2545f4914f6cdd1d).wrapping_add(k));
		g.next();
		let kind = if mode == 3 { 13 } else { (k % 13) as usize };
		if (mode == 1 || mode == 2) && (kind == 9 || kind == 12) != (mode == 2) {
			continue;
		}
		let mut size = 1 + g.below(8);
		if let Some(s) = forced {
			size = s as usize;
		}
		println!("CASE {k} {} size={size}", KINDS[kind]);
		if mode == 4 {
			let start = g.0;
			let l = lost(|| {
				g.0 = start;
				let _ = catch_unwind(AssertUnwindSafe(|| run(&mut g, kind, size)));
			});
			if l > 0 {
				println!("LOST {l} bytes per run");
				std::process::exit(9);
			}
			continue;
		}
		// A panic is not what this property is about.
		if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut g, kind, size))).is_err() {
			panicked += 1;
		}
	}
	println!("DONE {count} cases, {panicked} panicked");
}
