//! A solver generator that records the models it is given and answers with
//! scripted states: the way any user of the library can see what is solved.
use crate::ast::*;
use crate::qubo::*;
use annealers::model::FixedSingleQuadricModel;
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::prelude::*;
use annealers::solution::SingleSolution;
use annealers::solver::Solver;
use annealers::variable::Real;
use rustqubo::solution::SolutionView;
use rustqubo::solve::SimpleSolver;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

pub type Model<R> = FixedSingleQuadricModel<Binary<R>>;

#[derive(Debug, Clone, PartialEq)]
pub struct ScriptErr(pub String);
impl std::fmt::Display for ScriptErr {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{}", self.0)
	}
}
impl std::error::Error for ScriptErr {}

/// What the k-th generated solver answers.
#[derive(Clone, Debug)]
pub enum Answer {
	States(Vec<Vec<bool>>),
	SolveErr(String),
	GenErr(String),
}

pub type ScriptFn = dyn Fn(usize, &Qubo) -> Answer + Send + Sync;

pub struct Shared {
	pub calls: Mutex<usize>,
	pub seen: Mutex<Vec<Qubo>>,
	pub script: Box<ScriptFn>,
	/// Busy-work before answering, per call index (schedule perturbation).
	pub delay: Box<dyn Fn(usize) -> u32 + Send + Sync>,
	/// Keep the last model in exact integers, too.
	pub exact: bool,
	pub big: Mutex<BTreeMap<(usize, usize), i128>>,
}

#[derive(Clone)]
pub struct ScriptGen(pub Arc<Shared>);

impl ScriptGen {
	pub fn new(script: impl Fn(usize, &Qubo) -> Answer + Send + Sync + 'static) -> Self {
		Self::with_delay(script, |_| 0)
	}
	pub fn with_delay(
		script: impl Fn(usize, &Qubo) -> Answer + Send + Sync + 'static,
		delay: impl Fn(usize) -> u32 + Send + Sync + 'static,
	) -> Self {
		Self::make(script, delay, false)
	}
	pub fn exact(script: impl Fn(usize, &Qubo) -> Answer + Send + Sync + 'static) -> Self {
		Self::make(script, |_| 0, true)
	}
	fn make(
		script: impl Fn(usize, &Qubo) -> Answer + Send + Sync + 'static,
		delay: impl Fn(usize) -> u32 + Send + Sync + 'static,
		exact: bool,
	) -> Self {
		ScriptGen(Arc::new(Shared {
			calls: Mutex::new(0),
			seen: Mutex::new(Vec::new()),
			script: Box::new(script),
			delay: Box::new(delay),
			exact,
			big: Mutex::new(BTreeMap::new()),
		}))
	}
	pub fn big(&self) -> BTreeMap<(usize, usize), i128> {
		self.0.big.lock().unwrap().clone()
	}
	pub fn calls(&self) -> usize {
		*self.0.calls.lock().unwrap()
	}
	pub fn seen(&self) -> Vec<Qubo> {
		self.0.seen.lock().unwrap().clone()
	}
}

pub struct ScriptSolver<R: Real> {
	answer: Answer,
	delay: u32,
	_p: std::marker::PhantomData<R>,
}

/// Generated solvers one case may ask for before it counts as never ending.
pub const CALL_LIMIT: usize = 200_000;

impl<R: Real> SolverGenerator<'static, Model<R>> for ScriptGen {
	type SolverType = ScriptSolver<R>;
	type ErrorType = ScriptErr;
	fn generate(&self, model: &'static Model<R>) -> Result<ScriptSolver<R>, ScriptErr> {
		let k = {
			let mut c = self.0.calls.lock().unwrap();
			*c += 1;
			if *c > CALL_LIMIT {
				panic!("work bound exceeded: more than {CALL_LIMIT} solver calls");
			}
			*c - 1
		};
		let q = read_qubo(model);
		if self.0.exact {
			*self.0.big.lock().unwrap() = read_big(model);
		}
		let answer = (self.0.script)(k, &q);
		self.0.seen.lock().unwrap().push(q);
		if let Answer::GenErr(e) = &answer {
			return Err(ScriptErr(e.clone()));
		}
		Ok(ScriptSolver {
			answer,
			delay: (self.0.delay)(k),
			_p: std::marker::PhantomData,
		})
	}
}

impl<R: Real> UnstructuredSolverGenerator<'static, Model<R>> for ScriptGen {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}

impl<R: Real> Solver for ScriptSolver<R> {
	type ErrorType = ScriptErr;
	type SolutionType = SingleSolution<Binary<R>>;
}

impl<R: Real> ClassicalSolver for ScriptSolver<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		_r: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, ScriptErr> {
		let mut x = 1u64;
		for _ in 0..self.delay {
			x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
		}
		std::hint::black_box(x);
		match &self.answer {
			Answer::States(v) => Ok(v.iter().map(|s| SingleSolution::from_vec(s)).collect()),
			Answer::SolveErr(e) => Err(ScriptErr(e.clone())),
			Answer::GenErr(_) => unreachable!(),
		}
	}
}

pub type Slv<'a, L, R> =
	SimpleSolver<'a, L, u8, ScriptGen, Model<R>, ScriptSolver<R>, R>;

/// Compile, feed and hand a solver driven by `gen` to `f`.
pub fn with_solver<L: Label, R: Real, O>(
	expr: LExpr<L, R>,
	feed: HashMap<u8, R>,
	gen: ScriptGen,
	f: impl FnOnce(&mut Slv<'_, L, R>) -> O,
) -> O {
	let model = expr.compile().feed_dict(feed);
	let mut s = SimpleSolver::with_solver(&model, gen);
	f(&mut s)
}

/// Everything observable about a compiled problem through one generation of a
/// scripted solver.
#[derive(Clone, Debug)]
pub struct Probe {
	pub offset: f64,
	pub qubo: Qubo,
	/// label number -> index in the QUBO
	pub index: BTreeMap<u8, usize>,
	pub ancillas: usize,
}

/// What one scripted answer produced.
#[derive(Clone, Debug)]
pub struct Shot {
	pub energy: f64,
	pub unsat: Vec<u8>,
	pub values: BTreeMap<u8, bool>,
	pub view_energy: Option<f64>,
	pub field: BTreeMap<u8, f64>,
}

/// Result of a solve in plain data, or why the view of it is inconsistent.
pub fn read_shot<L: Label, R: Real>(
	r: (R, SolutionView<L, R>, Vec<&u8>),
	labels: &HashMap<L, u8>,
) -> Result<Shot, String> {
	let (c, view, unsat) = r;
	let mut values = BTreeMap::new();
	let mut field = BTreeMap::new();
	let mut nkeys = 0;
	for k in view.keys() {
		nkeys += 1;
		let l = *labels
			.get(k)
			.ok_or_else(|| format!("solution has a variable the problem has not: {k:?}"))?;
		let v = view
			.get(k)
			.ok_or_else(|| format!("keys() lists {k:?} but get() has no value for it"))?;
		if view[k] != v {
			return Err(format!("view[{k:?}] and get({k:?}) differ"));
		}
		values.insert(l, v);
		if let Some(f) = view.local_field(k) {
			field.insert(l, f.as_f64());
		}
	}
	if nkeys != values.len() {
		return Err("keys() repeats a variable".into());
	}
	// Debug output shows the same assignment.
	let dbg = format!("{view:?}");
	for (l, v) in values.iter() {
		let want = format!("{:?}: {:?}", L::of(*l), v);
		if !dbg.contains(&want) {
			return Err(format!("Debug output {dbg} lacks {want}"));
		}
	}
	Ok(Shot {
		energy: c.as_f64(),
		unsat: unsat.into_iter().cloned().collect(),
		values,
		view_energy: view.energy().map(|e| e.as_f64()),
		field,
	})
}

pub fn label_map<L: Label>(n: u8) -> HashMap<L, u8> {
	(0..n).map(|i| (L::of(i), i)).collect()
}

/// Solve once with exactly one sample: the given state (cut or padded to the
/// size of the model).
pub fn shoot<L: Label, R: Real>(
	s: &mut Slv<'_, L, R>,
	state: impl Fn(usize) -> Vec<bool> + Send + Sync + 'static,
	labels: &HashMap<L, u8>,
) -> Result<(Shot, Qubo), String> {
	s.samples = 1;
	s.iterations = 1;
	s.generations = 1;
	let gen = ScriptGen::new(move |_, q| Answer::States(vec![state(q.n)]));
	s.solver_generator = gen.clone();
	let r = s.solve_with_constraints().map_err(|e| e.to_string())?;
	let shot = read_shot(r, labels)?;
	let seen = gen.seen();
	if seen.len() != 1 {
		return Err(format!("{} solvers generated for one sample", seen.len()));
	}
	Ok((shot, seen.into_iter().next().unwrap()))
}

/// Read the whole compiled problem. `strength` is what `coeff_strength` is set to.
pub fn probe<L: Label, R: Real>(
	s: &mut Slv<'_, L, R>,
	strength: R,
	labels: &HashMap<L, u8>,
) -> Result<Probe, String> {
	s.coeff_strength = strength;
	let (zero, qubo) = shoot(s, |n| vec![false; n], labels)?;
	let mut index: BTreeMap<u8, usize> = zero.values.keys().map(|k| (*k, 0)).collect();
	let mut bit = 0;
	while (1usize << bit) <= qubo.n {
		let (shot, q2) = shoot(
			s,
			move |n| (0..n).map(|i| ((i + 1) >> bit) & 1 == 1).collect(),
			labels,
		)?;
		if q2.n != qubo.n {
			return Err("the model changed between two solves".into());
		}
		for (l, v) in shot.values {
			match index.get_mut(&l) {
				Some(i) => *i |= (v as usize) << bit,
				None => return Err("the set of variables changed between two solves".into()),
			}
		}
		bit += 1;
	}
	let mut used = std::collections::BTreeSet::new();
	for (l, i) in index.iter_mut() {
		if *i == 0 || *i > qubo.n {
			return Err(format!("variable {l} is not tied to a bit of the solution"));
		}
		*i -= 1;
		if !used.insert(*i) {
			return Err(format!("two variables share bit {i} of the solution"));
		}
	}
	Ok(Probe {
		offset: zero.energy,
		ancillas: qubo.n - index.len(),
		qubo,
		index,
	})
}

impl Probe {
	/// Lowest energy with the labelled variables as in `x`; None if too wide.
	pub fn min_energy(&self, x: &[bool]) -> Option<f64> {
		let mut fixed = vec![None; self.qubo.n];
		for (l, i) in self.index.iter() {
			fixed[*i] = Some(x[*l as usize]);
		}
		Some(self.offset + self.qubo.min_over(&fixed, 17)?)
	}
}

pub fn close(a: f64, b: f64, scale: f64, eps: f64) -> bool {
	a == b || (a - b).abs() <= eps * scale
}
