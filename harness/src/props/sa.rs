//! The simulated annealer: C15 (cold annealing), C16 (Boltzmann), C17 (beta
//! schedules), C18 (end to end), C22 (seeded runs).
use crate::ast::{from_units, Label, FL};
use crate::fw::*;
use crate::props::energy::Ty;
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::Binary;
use annealers::order::{HighOrder, Quadric};
use annealers::prelude::*;
use annealers::repr::BinaryRepr;
use annealers::variable::Real;
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

fn arb_ty() -> BoxedStrategy<Ty> {
	prop_oneof![
		4 => Just(Ty::F64), 1 => Just(Ty::F32), 2 => Just(Ty::I32),
		1 => Just(Ty::I64), 1 => Just(Ty::I128), 1 => Just(Ty::I16),
		1 => Just(Ty::I8)
	]
	.boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
	/// dense quadratic model
	Dense,
	/// sparse model whose nodes are 0..n
	Sparse,
	/// sparse model whose node numbers have gaps
	Gaps,
	/// sparse model keyed by sets of any size
	High,
}

/// A quadratic problem with small integral weights.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prob {
	pub lin: Vec<i8>,
	pub quad: Vec<(u16, u16, i8)>,
}

impl Prob {
	fn n(&self) -> usize {
		self.lin.len()
	}
	/// Summed weights of the pairs.
	fn pairs(&self) -> BTreeMap<(usize, usize), i64> {
		let n = self.n();
		let mut m = BTreeMap::new();
		for (i, j, w) in self.quad.iter() {
			if n < 2 {
				break;
			}
			let (i, j) = (*i as usize % n, *j as usize % n);
			if i != j {
				*m.entry((i.min(j), i.max(j))).or_insert(0) += *w as i64;
			}
		}
		m
	}
	fn energy(&self, x: &[bool], unit: f64) -> f64 {
		let mut e = 0;
		for (i, w) in self.lin.iter().enumerate() {
			if x[i] {
				e += *w as i64;
			}
		}
		for ((i, j), w) in self.pairs() {
			if x[i] && x[j] {
				e += w;
			}
		}
		e as f64 * unit
	}
	fn energies(&self, unit: f64) -> Vec<f64> {
		(0..1usize << self.n())
			.map(|s| {
				let x: Vec<bool> = (0..self.n()).map(|i| (s >> i) & 1 == 1).collect();
				self.energy(&x, unit)
			})
			.collect()
	}
	fn range(&self) -> i64 {
		self.lin.iter().map(|w| (*w as i64).abs()).sum::<i64>()
			+ self.pairs().values().map(|w| w.abs()).sum::<i64>()
	}
	/// Largest sum of absolute weights at a node, and largest absolute weight.
	fn extremes(&self) -> (i64, i64) {
		let mut at: Vec<i64> = self.lin.iter().map(|w| (*w as i64).abs()).collect();
		let mut one: i64 = at.iter().cloned().max().unwrap_or(0);
		for ((i, j), w) in self.pairs() {
			at[i] += w.abs();
			at[j] += w.abs();
			one = std::cmp::max(one, w.abs());
		}
		(at.into_iter().max().unwrap_or(0), one)
	}
	/// Odd linear and even pair weights: no flip is ever free.
	fn untie(mut self) -> Prob {
		for w in self.lin.iter_mut() {
			*w = (*w).clamp(-20, 20) * 2 + 1;
		}
		for q in self.quad.iter_mut() {
			q.2 = q.2.clamp(-20, 20) * 2;
		}
		self
	}
}

fn prob(n: std::ops::RangeInclusive<usize>, w: i8) -> BoxedStrategy<Prob> {
	n.prop_flat_map(move |n| {
		(
			proptest::collection::vec(-w..=w, n),
			proptest::collection::vec((0u16..16, 0u16..16, -w..=w), 0..=(n * 2)),
		)
	})
	.prop_map(|(lin, quad)| Prob { lin, quad })
	.boxed()
}

/// As above with many variables; few or many pairs, anywhere.
fn prob_wide(n: std::ops::RangeInclusive<usize>, w: i8) -> BoxedStrategy<Prob> {
	n.prop_flat_map(move |n| {
		(
			proptest::collection::vec(-w..=w, n),
			proptest::collection::vec((any::<u16>(), any::<u16>(), -w..=w), 0..=(n * 3)),
		)
	})
	.prop_map(|(lin, quad)| Prob { lin, quad })
	.boxed()
}

type Dense<R> = FixedSingleQuadricModel<Binary<R>>;
type Sparse<R> = SingleModel<Binary<R>, Quadric>;
type High<R> = SingleModel<Binary<R>, HighOrder>;

fn dense<R: Real>(p: &Prob, unit: f64) -> Dense<R> {
	let mut m = Dense::new(Binary::new(), p.n());
	for (i, w) in p.lin.iter().enumerate() {
		m.add_weight(i, i, from_units(*w as i32, unit));
	}
	for ((i, j), w) in p.pairs() {
		m.add_weight(i, j, from_units(w as i32, unit));
	}
	m
}
fn ids(p: &Prob, kind: Kind) -> Vec<usize> {
	match kind {
		Kind::Gaps => (0..p.n()).map(|i| i * 3 + 1 + (i % 2)).collect(),
		_ => (0..p.n()).collect(),
	}
}
fn sparse<R: Real>(p: &Prob, kind: Kind, unit: f64) -> Sparse<R> {
	let id = ids(p, kind);
	let mut m = SingleModel::new(Binary::new(), Quadric);
	for (i, w) in p.lin.iter().enumerate() {
		m.add_weight([id[i], id[i]], from_units(*w as i32, unit));
	}
	for ((i, j), w) in p.pairs() {
		m.add_weight([id[i], id[j]], from_units(w as i32, unit));
	}
	m
}
/// The same model, its weights added in another order.
fn sparse_backwards<R: Real>(p: &Prob, kind: Kind, unit: f64) -> Sparse<R> {
	let id = ids(p, kind);
	let mut m = SingleModel::new(Binary::new(), Quadric);
	for ((i, j), w) in p.pairs().into_iter().rev() {
		m.add_weight([id[i], id[j]], from_units(w as i32, unit));
	}
	for (i, w) in p.lin.iter().enumerate().rev() {
		m.add_weight([id[i], id[i]], from_units(*w as i32, unit));
	}
	m
}
fn high<R: Real>(p: &Prob, unit: f64) -> High<R> {
	let mut m = SingleModel::new(Binary::new(), HighOrder::new(2));
	for (i, w) in p.lin.iter().enumerate() {
		m.add_weight([i].iter().cloned().collect::<BTreeSet<usize>>(), from_units(*w as i32, unit));
	}
	for ((i, j), w) in p.pairs() {
		m.add_weight([i, j].iter().cloned().collect::<BTreeSet<usize>>(), from_units(w as i32, unit));
	}
	m
}

fn unit_of(ty: Ty, half: bool) -> f64 {
	if ty.is_float() && half {
		0.5
	} else {
		1.0
	}
}

macro_rules! by_ty {
	($ty:expr, $f:ident ( $($a:expr),* )) => {
		match $ty {
			Ty::I8 => $f::<i8>($($a),*),
			Ty::I16 => $f::<i16>($($a),*),
			Ty::I32 => $f::<i32>($($a),*),
			Ty::I64 => $f::<i64>($($a),*),
			Ty::I128 => $f::<i128>($($a),*),
			Ty::F32 => $f::<f32>($($a),*),
			Ty::F64 => $f::<f64>($($a),*),
		}
	};
}

fn bits_of(n: usize, v: u64) -> Vec<bool> {
	(0..n).map(|i| (v >> (i % 64)) & 1 == 1).collect()
}

/// One run of the annealer the way a user starts it; the values of `ids`.
fn anneal<'a, M, R: Real>(
	m: &'a M,
	ids: &[usize],
	beta: BetaType<R>,
	sweeps: usize,
	seed: u64,
) -> Result<Vec<bool>, String>
where
	M: SingleModelView<Node = Binary<R>> + Send + Sync,
{
	let mut g = SimulatedAnnealerGenerator::<'a, M>::new();
	g.beta = beta;
	g.sweeps_per_round = sweeps;
	let s = annealers::solver::SolverGenerator::generate(&g, m).map_err(|e| e.to_string())?;
	let mut r = StdRng::seed_from_u64(seed);
	let v = s.solve_with_rng(&mut r).map_err(|e| e.to_string())?;
	if v.len() != 1 {
		return Err(format!("{} solutions of one run", v.len()));
	}
	let need = ids.iter().max().map(|m| m + 1).unwrap_or(0);
	if v[0].len() < need {
		return Err(format!(
			"a solution of {} bits for a model with node {}",
			v[0].len(),
			need - 1
		));
	}
	if v[0].occurrences != 1 {
		return Err(format!("{} occurrences of a new solution", v[0].occurrences));
	}
	Ok(ids.iter().map(|i| v[0].get(*i)).collect())
}

fn anneal_kind<R: Real>(
	p: &Prob,
	kind: Kind,
	unit: f64,
	beta: BetaType<R>,
	sweeps: usize,
	seed: u64,
) -> Result<Vec<bool>, String> {
	let id = ids(p, kind);
	match kind {
		Kind::Dense => anneal(&dense::<R>(p, unit), &id, beta, sweeps, seed),
		Kind::Sparse | Kind::Gaps => anneal(&sparse::<R>(p, kind, unit), &id, beta, sweeps, seed),
		Kind::High => anneal(&high::<R>(p, unit), &id, beta, sweeps, seed),
	}
}

/// The algorithm itself, from a given state.
fn direct<R: Real>(
	p: &Prob,
	kind: Kind,
	unit: f64,
	betas: &[R],
	sweeps: usize,
	seed: u64,
	init: &[bool],
) -> Vec<bool> {
	let mut st = BinaryRepr::from_vec(init);
	let mut r = StdRng::seed_from_u64(seed);
	match kind {
		Kind::Dense => simulated_annealing(&mut r, &mut st, betas, sweeps, &dense::<R>(p, unit)),
		Kind::High => simulated_annealing(&mut r, &mut st, betas, sweeps, &high::<R>(p, unit)),
		_ => simulated_annealing(
			&mut r,
			&mut st,
			betas,
			sweeps,
			&sparse::<R>(p, Kind::Sparse, unit),
		),
	}
	st.to_vec()
}

fn arb_kind() -> BoxedStrategy<Kind> {
	prop_oneof![
		3 => Just(Kind::Dense), 1 => Just(Kind::Sparse), 1 => Just(Kind::Gaps), 1 => Just(Kind::High)
	]
	.boxed()
}

// ---------------------------------------------------------------------------
// C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ColdCase {
	pub p: Prob,
	pub ty: Ty,
	pub kind: Kind,
	pub half: bool,
	/// hot betas (index into a table) before the cold end
	pub hot: Vec<u8>,
	pub sweeps: u8,
	pub init: u64,
	pub seed: u64,
}

/// Negligible chance of any uphill move, for any type.
const COLD: i32 = 20_000;

fn local_min(p: &Prob, unit: f64, x: &[bool]) -> Result<(), String> {
	let e = p.energy(x, unit);
	for i in 0..p.n() {
		let mut y = x.to_vec();
		y[i] = !y[i];
		let f = p.energy(&y, unit);
		if f < e {
			return Err(format!(
				"variable {i} of {x:?} can still be flipped from energy {e} to {f}"
			));
		}
	}
	Ok(())
}

fn hot_betas<R: Real>(hot: &[u8], float: bool) -> Vec<R> {
	hot.iter()
		.map(|h| {
			if float {
				R::from_f64([0.0, 0.02, 0.1, 0.3, 1.0][*h as usize % 5])
			} else {
				R::from_i32([0, 0, 0, 1, 1][*h as usize % 5])
			}
		})
		.collect()
}

fn cold_check<R: Real>(c: &ColdCase, ctx: &mut Ctx) -> Res {
	let unit = unit_of(c.ty, c.half);
	let p = &c.p;
	let n = p.n();
	let tied = c.p.clone();
	let untied = c.p.clone().untie();
	// 1. From a given state, with ties: the energy never rises in a cold sweep.
	let dk = if c.kind == Kind::Gaps { Kind::Sparse } else { c.kind };
	let init = bits_of(n, c.init);
	let cold = [R::from_i32(COLD)];
	let mut last = tied.energy(&init, unit);
	let mut moved = false;
	for s in 0..5usize {
		let x = direct::<R>(&tied, dk, unit, &cold, s, c.seed, &init);
		if x.len() != n {
			return Err(format!("{} bits for {n} variables", x.len()));
		}
		if s == 0 && x != init {
			return Err("no sweep was asked for, but the state changed".into());
		}
		let e = tied.energy(&x, unit);
		ctx.sub += 1;
		if e > last {
			return Err(format!(
				"cold sweep {s} from {init:?} raised the energy from {last} to {e} (state {x:?})"
			));
		}
		moved |= e < last;
		last = e;
	}
	// 2. Without ties, the end is a local minimum whatever happened before.
	let enough: usize = std::cmp::min(untied.range() * 2 + 2, 4000) as usize;
	let mut betas = hot_betas::<R>(&c.hot, c.ty.is_float());
	// One round is sweeps_per_round sweeps.
	let spr = c.sweeps as usize % 4 + 1;
	for _ in 0..enough / spr + 1 {
		betas.push(R::from_i32(COLD));
	}
	let x = direct::<R>(&untied, dk, unit, &betas, spr, c.seed, &init);
	ctx.sub += 1;
	local_min(&untied, unit, &x).map_err(|e| format!("after annealing from {init:?}: {e}"))?;
	let y = anneal_kind::<R>(
		&untied,
		c.kind,
		unit,
		BetaType::Schedule(betas.clone()),
		spr,
		c.seed,
	)?;
	ctx.sub += 1;
	local_min(&untied, unit, &y).map_err(|e| format!("after a solver run: {e}"))?;
	ctx.label(format!("{:?}", c.kind));
	ctx.label(format!("{:?}", c.ty));
	if moved {
		ctx.label("cold moves");
	}
	if !c.hot.is_empty() {
		ctx.label("hot start");
	}
	ctx.nontrivial_if(n >= 2 && !untied.pairs().is_empty());
	Ok(())
}

struct ColdLeg {
	wide: bool,
}
impl Leg for ColdLeg {
	type Case = ColdCase;
	fn name(&self) -> &'static str {
		if self.wide {
			"cold-wide"
		} else {
			"cold"
		}
	}
	fn rule(&self) -> &'static str {
		if self.wide {
			return "As 'cold', with 11 to 130, sometimes up to 400 variables.";
		}
		"A quadratic problem of up to 10 variables in one of four containers and six number types, an initial state and a schedule whose end is cold. Oracles: energy never rises over cold sweeps; the final state is a single-flip local minimum. Non-trivial: at least two coupled variables."
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.wide {
			t.pick(700, 30_000)
		} else {
			t.pick(90_000, 1_000_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<ColdCase> {
		(
			if self.wide {
				prop_oneof![9 => prob_wide(11..=130, 6), 1 => prob_wide(131..=400, 6)].boxed()
			} else {
				prob(0..=10, 6)
			},
			arb_ty(),
			arb_kind(),
			any::<bool>(),
			proptest::collection::vec(0u8..5, 0..8),
			0u8..4,
			any::<u64>(),
			any::<u64>(),
		)
			.prop_map(|(p, ty, kind, half, hot, sweeps, init, seed)| ColdCase {
				p,
				ty,
				kind,
				half,
				hot,
				sweeps,
				init,
				seed,
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		600
	}
	fn check(&self, c: &ColdCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(c.p.range()), cold_check(c, ctx))
	}
}

pub fn c15() -> Property {
	Property {
		id: "C15",
		legs: vec![Box::new(ColdLeg { wide: false }), Box::new(ColdLeg { wide: true })],
		assumptions: &["weights are small multiples of the unit, so that energies are exact"],
	}
}

// ---------------------------------------------------------------------------
// C16

/// Upper bound (Chernoff) on the natural log of the probability that a
/// Binomial(n, q)/n is as far from q as `f`, for the q in [lo, hi] nearest f.
fn log_tail(n: f64, f: f64, lo: f64, hi: f64) -> f64 {
	let q = f.clamp(lo.max(0.0), hi.min(1.0));
	let term = |a: f64, b: f64| {
		if a <= 0.0 {
			0.0
		} else if b <= 0.0 {
			f64::INFINITY
		} else {
			a * (a / b).ln()
		}
	};
	-n * (term(f, q) + term(1.0 - f, 1.0 - q))
}

/// ln(1e-11)
const CUT: f64 = -25.3;

/// Distribution over states after `betas` (one sweep each), from `start`,
/// visiting the variables in order.
fn metropolis(p: &Prob, unit: f64, betas: &[f64], start: &[f64]) -> Vec<f64> {
	let n = p.n();
	let e = p.energies(unit);
	let mut d = start.to_vec();
	for b in betas {
		for i in 0..n {
			let mut nd = vec![0.0; d.len()];
			for s in 0..d.len() {
				let t = s ^ (1 << i);
				let ed = e[t] - e[s];
				let a = if ed <= 0.0 { 1.0 } else { f64::exp(-ed * b) };
				nd[t] += d[s] * a;
				nd[s] += d[s] * (1.0 - a);
			}
			d = nd;
		}
	}
	d
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BoltzCase {
	pub p: Prob,
	pub ty: Ty,
	pub kind: Kind,
	pub half: bool,
	/// beta in hundredths (floats); integral types use 1
	pub beta: u16,
	pub seed: u64,
	pub samples: u32,
}

fn boltz_check<R: Real>(c: &BoltzCase, ctx: &mut Ctx) -> Res {
	let unit = unit_of(c.ty, c.half);
	let p = &c.p;
	let (beta, rb) = if c.ty.is_float() {
		let rb = R::from_f64(c.beta as f64 / 100.0);
		(rb.as_f64(), rb)
	} else {
		(1.0, R::from_i32(1))
	};
	let e: Vec<f64> = p.energies(unit);
	let z: f64 = e.iter().map(|e| f64::exp(-beta * e)).sum();
	let want: Vec<f64> = e.iter().map(|e| f64::exp(-beta * e) / z).collect();
	// How long until a Metropolis chain has mixed?
	let k = want.len();
	let mut rounds = 0;
	for cand in [8usize, 16, 32, 64, 128] {
		let tv = (0..k)
			.map(|s| {
				let mut st = vec![0.0; k];
				st[s] = 1.0;
				let d = metropolis(p, unit, &vec![beta; cand], &st);
				d.iter().zip(&want).map(|(a, b): (&f64, &f64)| -> f64 { f64::abs(a - b) }).fold(0.0f64, f64::max)
			})
			.fold(0.0f64, f64::max);
		if tv < 1e-6 {
			rounds = cand * 2;
			break;
		}
	}
	if rounds == 0 {
		ctx.label("does not mix");
		return Ok(());
	}
	let id = ids(p, c.kind);
	let mut count = vec![0u64; k];
	{
		let sched = BetaType::Schedule(vec![rb; rounds / 4]);
		let run = |seed: u64| -> Result<Vec<bool>, String> {
			match c.kind {
				Kind::Dense => anneal(&dense::<R>(p, unit), &id, sched.clone(), 4, seed),
				Kind::High => anneal(&high::<R>(p, unit), &id, sched.clone(), 4, seed),
				_ => anneal(&sparse::<R>(p, c.kind, unit), &id, sched.clone(), 4, seed),
			}
		};
		for s in 0..c.samples {
			let x = run(c.seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(s as u64))?;
			let idx = x
				.iter()
				.enumerate()
				.fold(0usize, |a, (i, b)| a | ((*b as usize) << i));
			count[idx] += 1;
		}
	}
	let nsamp = c.samples as f64;
	for s in 0..k {
		let f = count[s] as f64 / nsamp;
		let t = log_tail(nsamp, f, want[s] - 1e-5, want[s] + 1e-5);
		ctx.sub += 1;
		if t < CUT {
			return Err(format!(
				"state {s:0b} of energy {} was returned in {f:.4} of {} runs at beta {beta}; its Boltzmann probability is {:.4}",
				e[s], c.samples, want[s]
			));
		}
	}
	ctx.label(format!("{:?}", c.kind));
	ctx.label(format!("{:?}", c.ty));
	ctx.nontrivial_if(p.n() >= 2 && want.iter().filter(|w| **w > 0.02).count() >= 2);
	Ok(())
}

struct BoltzLeg;
impl Leg for BoltzLeg {
	type Case = BoltzCase;
	fn name(&self) -> &'static str {
		"boltzmann"
	}
	fn rule(&self) -> &'static str {
		"A problem of 1 to 3 variables at one fixed temperature, thousands of seeded runs; the frequency of each state is compared with its Boltzmann probability (Chernoff bound, alarm below 1e-11). Non-trivial: at least two variables and two states above 2 %."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(900, 6_000)
	}
	fn strategy(&self, t: Tier) -> BoxedStrategy<BoltzCase> {
		let samples = t.pick(4_000u32, 20_000);
		(
			(prob(1..=3, 3), 0u8..3).prop_map(|(p, ties)| match ties {
				// flips that cost nothing
				0 => Prob {
					lin: p.lin.iter().map(|w| *w.clamp(&-2, &2)).collect(),
					quad: p.quad.iter().map(|q| (q.0, q.1, q.2.clamp(-2, 2))).collect(),
				},
				_ => Prob {
					lin: p.lin.iter().map(|w| w.clamp(&-1, &1) * 2 + 1).collect(),
					quad: p.quad.iter().map(|q| (q.0, q.1, q.2.clamp(-1, 1) * 2)).collect(),
				},
			}),
			arb_ty(),
			arb_kind(),
			any::<bool>(),
			15u16..250,
			any::<u64>(),
		)
			.prop_map(move |(p, ty, kind, half, beta, seed)| BoltzCase {
				p,
				ty,
				kind,
				half,
				beta,
				seed,
				samples,
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		60
	}
	fn shrink_tries(&self) -> u32 {
		0
	}
	fn check(&self, c: &BoltzCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(c.p.range()), boltz_check(c, ctx))
	}
}

/// Many independent pairs of variables at one temperature, scattered over
/// the node numbers: every pair follows its own Boltzmann distribution, and
/// two pairs are independent.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlocksCase {
	/// (linear, linear, pair) weights
	pub blocks: Vec<(i8, i8, i8)>,
	/// how far apart the two variables of a block are
	pub stride: bool,
	pub kind: Kind,
	pub beta: u16,
	pub seed: u64,
	pub samples: u32,
}

fn blocks_check(c: &BlocksCase, ctx: &mut Ctx) -> Res {
	let nb = c.blocks.len();
	let place = |b: usize, k: usize| if c.stride { k * nb + b } else { 2 * b + k };
	let beta = c.beta as f64 / 100.0;
	let mut p = Prob {
		lin: vec![0; nb * 2],
		quad: vec![],
	};
	let mut want = vec![];
	for (b, (h, g, j)) in c.blocks.iter().enumerate() {
		p.lin[place(b, 0)] = *h;
		p.lin[place(b, 1)] = *g;
		p.quad.push((place(b, 0) as u16, place(b, 1) as u16, *j));
		let e = [0, *h as i32, *g as i32, *h as i32 + *g as i32 + *j as i32];
		let z: f64 = e.iter().map(|e| f64::exp(-beta * *e as f64)).sum();
		want.push(e.map(|e| f64::exp(-beta * e as f64) / z));
	}
	let mut need = 0;
	for (b, (h, g, j)) in c.blocks.iter().enumerate() {
		let one = Prob {
			lin: vec![*h, *g],
			quad: vec![(0, 1, *j)],
		};
		let mixed = [8usize, 16, 32, 64, 128].iter().cloned().find(|k| {
			(0..4).all(|s| {
				let mut st = vec![0.0; 4];
				st[s] = 1.0;
				metropolis(&one, 1.0, &vec![beta; *k], &st)
					.iter()
					.zip(&want[b])
					.all(|(a, w)| f64::abs(a - w) < 1e-6)
			})
		});
		match mixed {
			Some(k) => need = std::cmp::max(need, k),
			None => {
				ctx.label("does not mix");
				return Ok(());
			}
		}
	}
	let id = ids(&p, c.kind);
	let sched = BetaType::Schedule(vec![beta; need / 4 + 1]);
	let (d, s, h) = (
		dense::<f64>(&p, 1.0),
		sparse::<f64>(&p, c.kind, 1.0),
		high::<f64>(&p, 1.0),
	);
	let mut count = vec![[0u64; 4]; nb];
	let mut joint = vec![[0u64; 16]; nb];
	for k in 0..c.samples {
		let seed = c.seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(k as u64);
		let x = match c.kind {
			Kind::Dense => anneal(&d, &id, sched.clone(), 4, seed),
			Kind::High => anneal(&h, &id, sched.clone(), 4, seed),
			_ => anneal(&s, &id, sched.clone(), 4, seed),
		}?;
		let at: Vec<usize> = (0..nb)
			.map(|b| x[place(b, 0)] as usize + 2 * x[place(b, 1)] as usize)
			.collect();
		for b in 0..nb {
			count[b][at[b]] += 1;
			joint[b][at[b] * 4 + at[(b + 1) % nb]] += 1;
		}
	}
	let ns = c.samples as f64;
	for b in 0..nb {
		for s in 0..4 {
			let f = count[b][s] as f64 / ns;
			ctx.sub += 1;
			if log_tail(ns, f, want[b][s] - 1e-5, want[b][s] + 1e-5) < CUT - 5.0 {
				return Err(format!(
					"block {b} of {nb} ({:?}) was in state {s:02b} in {f:.4} of {} runs at beta {beta}; its Boltzmann probability is {:.4}",
					c.blocks[b], c.samples, want[b][s]
				));
			}
		}
		if nb < 2 {
			continue;
		}
		let o = (b + 1) % nb;
		for s in 0..16 {
			let w = want[b][s / 4] * want[o][s % 4];
			let f = joint[b][s] as f64 / ns;
			ctx.sub += 1;
			if log_tail(ns, f, w - 2e-5, w + 2e-5) < CUT - 5.0 {
				return Err(format!(
					"blocks {b} and {o} of {nb} ({:?} and {:?}) were in states {:02b} and {:02b} in {f:.4} of {} runs at beta {beta}, {w:.4} expected",
					c.blocks[b], c.blocks[o], s / 4, s % 4, c.samples
				));
			}
		}
	}
	ctx.label(format!("{:?}", c.kind));
	ctx.nontrivial_if(nb >= 2);
	Ok(())
}

struct BlocksLeg;
impl Leg for BlocksLeg {
	type Case = BlocksCase;
	fn name(&self) -> &'static str {
		"blocks"
	}
	fn rule(&self) -> &'static str {
		"2 to 50 independent pairs of coupled variables at one fixed temperature, thousands of seeded runs; the frequency of every state of a pair, and of two neighbouring pairs together, against the Boltzmann probabilities (Chernoff bound, alarm below 1e-13). Non-trivial: at least two pairs."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(48, 1_000)
	}
	fn strategy(&self, t: Tier) -> BoxedStrategy<BlocksCase> {
		let samples = t.pick(600u32, 3_000);
		let odd = || proptest::sample::select(vec![-3i8, -1, 1, 3]);
		let block = prop_oneof![
			4 => (odd(), odd(), proptest::sample::select(vec![-2i8, 0, 2])),
			// where some flips cost nothing
			1 => proptest::sample::select(vec![(0i8, 0i8, 1i8), (0, 0, -1), (1, 0, -1), (-1, -1, 1), (2, -1, 1), (1, -2, -1)]),
		];
		(
			proptest::collection::vec(block, 2..40),
			any::<bool>(),
			arb_kind(),
			20u16..110,
			any::<u64>(),
		)
			.prop_map(move |(mut blocks, stride, kind, beta, seed)| {
				if kind != Kind::Dense {
					// slow, for they look a node's pairs up in all of them
					blocks.truncate(8);
				}
				BlocksCase {
					blocks,
					stride,
					kind,
					beta,
					seed,
					samples,
				}
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		40
	}
	fn shrink_tries(&self) -> u32 {
		0
	}
	fn check(&self, c: &BlocksCase, ctx: &mut Ctx) -> Res {
		blocks_check(c, ctx)
	}
}

pub fn c16() -> Property {
	Property {
		id: "C16",
		legs: vec![Box::new(BoltzLeg), Box::new(BlocksLeg)],
		assumptions: &[
			"StdRng yields uniform numbers",
			"cases whose Metropolis chain has not mixed after 128 sweeps are skipped (counted as 'does not mix')",
		],
	}
}

// ---------------------------------------------------------------------------
// C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedCase {
	pub p: Prob,
	pub half: bool,
	pub count: u16,
	pub lo: u16,
	pub hi: u16,
	pub sched: Vec<u16>,
	pub sweeps: u8,
	pub seed: u64,
	pub shift: u8,
}

/// The geometric schedule of `count` values from `lo` to `hi`.
fn geometric(lo: f64, hi: f64, count: usize) -> Vec<f64> {
	match count {
		0 => vec![],
		1 => vec![lo],
		_ => (0..count)
			.map(|i| lo * (hi / lo).powf(i as f64 / (count - 1) as f64))
			.collect(),
	}
}

fn same_runs(
	what: &str,
	a: &dyn Fn(u64) -> Result<Vec<bool>, String>,
	b: &dyn Fn(u64) -> Result<Vec<bool>, String>,
	seed: u64,
	runs: u64,
	allowed: u64,
	ctx: &mut Ctx,
) -> Res {
	let mut diff = 0;
	let mut example = None;
	for k in 0..runs {
		let s = seed.wrapping_add(k.wrapping_mul(0x9e3779b97f4a7c15));
		let (x, y) = (a(s)?, b(s)?);
		ctx.sub += 1;
		if x != y {
			diff += 1;
			example = Some((s, x, y));
		}
	}
	if diff > allowed {
		return Err(format!(
			"{what}: {diff} of {runs} seeded runs differ, for example {example:?}"
		));
	}
	Ok(())
}

/// Runs of the same model written in type R must follow those in f64.
fn as_f64_runs<R: Real>(
	c: &SchedCase,
	beta: impl Fn() -> BetaType<R>,
	beta64: impl Fn() -> BetaType<f64>,
	what: &str,
	allowed: u64,
	ctx: &mut Ctx,
) -> Res {
	let id = ids(&c.p, Kind::Dense);
	let m = dense::<R>(&c.p, 1.0);
	let m64 = dense::<f64>(&c.p, 1.0);
	let sw = c.sweeps as usize % 4 + 1;
	same_runs(
		&format!("{what} as {}", std::any::type_name::<R>()),
		&|s| anneal(&m, &id, beta(), sw, s),
		&|s| anneal(&m64, &id, beta64(), sw, s),
		c.seed,
		12,
		allowed,
		ctx,
	)
}

fn sched_check(c: &SchedCase, ctx: &mut Ctx) -> Res {
	let unit = if c.half { 0.5 } else { 1.0 };
	let p = &c.p;
	let n = p.n();
	let id = ids(p, Kind::Dense);
	let m = dense::<f64>(p, unit);
	let sw = c.sweeps as usize % 4 + 1;
	let count = c.count as usize;
	let runs = 12;
	// a. A given schedule is followed as it is.
	let list: Vec<f64> = c.sched.iter().map(|b| *b as f64 / 64.0).collect();
	same_runs(
		"a solver with an explicit schedule against the algorithm run with it",
		&|s| anneal(&m, &id, BetaType::Schedule(list.clone()), sw, s),
		&|s| {
			let mut r = StdRng::seed_from_u64(s);
			let mut st = BinaryRepr::new_random(n, &mut r);
			simulated_annealing(&mut r, &mut st, &list[..], sw, &m);
			Ok(st.to_vec())
		},
		c.seed,
		runs,
		0,
		ctx,
	)?;
	// b. A count and a range mean the geometric schedule between the ends.
	let (lo, hi) = ((c.lo as f64 + 1.0) / 64.0, (c.hi as f64 + 1.0) / 64.0);
	same_runs(
		&format!("CountRange({count}, {lo}, {hi}) against the geometric schedule"),
		&|s| anneal(&m, &id, BetaType::CountRange(count, lo, hi), sw, s),
		&|s| anneal(&m, &id, BetaType::Schedule(geometric(lo, hi, count)), sw, s),
		c.seed ^ 1,
		runs,
		0,
		ctx,
	)?;
	// c. Rounds of k sweeps are sweeps at the same temperature.
	same_runs(
		"rounds of sweeps against single sweeps",
		&|s| anneal(&m, &id, BetaType::Schedule(list.clone()), sw, s),
		&|s| {
			let long = list.iter().flat_map(|b| std::iter::repeat(*b).take(sw)).collect();
			anneal(&m, &id, BetaType::Schedule(long), 1, s)
		},
		c.seed ^ 2,
		runs,
		0,
		ctx,
	)?;
	// d. A count alone: from the temperature where the most coupled variable
	// moves freely to the one where a flip of the largest weight is rare.
	let (node, one) = p.extremes();
	if one > 0 {
		let (lo, hi) = (
			f64::ln(2.0) / (node as f64 * unit),
			f64::ln(100.0) / (one as f64 * unit),
		);
		same_runs(
			&format!("Count({count}) against the range {lo}..{hi}"),
			&|s| anneal(&m, &id, BetaType::Count(count), sw, s),
			&|s| anneal(&m, &id, BetaType::Schedule(geometric(lo, hi, count)), sw, s),
			c.seed ^ 3,
			runs,
			0,
			ctx,
		)?;
		// ... so that scaling a problem changes nothing.
		let k = f64::powi(2.0, c.shift as i32 % 21 - 10);
		let scaled = dense::<f64>(p, unit * k);
		same_runs(
			&format!("Count({count}) of the problem multiplied by {k}"),
			&|s| anneal(&m, &id, BetaType::Count(count), sw, s),
			&|s| anneal(&scaled, &id, BetaType::Count(count), sw, s),
			c.seed ^ 4,
			runs,
			0,
			ctx,
		)?;
	} else {
		ctx.label("no weights");
		// Nothing to anneal: any state will do.
		for b in [BetaType::Count(count), BetaType::Count(1)] {
			anneal(&m, &id, b, sw, c.seed)?;
		}
	}
	// ... and only temperature times weight counts, however small or large.
	let wide = f64::powi(2.0, ((c.seed >> 8) % 121) as i32 - 60);
	let scaled = dense::<f64>(p, unit * wide);
	for b in [
		(BetaType::Schedule(list.clone()), BetaType::Schedule(list.iter().map(|b| b / wide).collect())),
		(BetaType::CountRange(count, lo, hi), BetaType::CountRange(count, lo / wide, hi / wide)),
		(BetaType::Count(count), BetaType::Count(count)),
	] {
		if one == 0 && matches!(b.0, BetaType::Count(_)) {
			continue;
		}
		same_runs(
			&format!("{:?} of the problem, and {:?} of it multiplied by {wide}", b.0, b.1),
			&|s| anneal(&m, &id, b.0.clone(), sw, s),
			&|s| anneal(&scaled, &id, b.1.clone(), sw, s),
			c.seed ^ 7,
			4,
			0,
			ctx,
		)?;
	}
	// e. The number type a problem is written in does not matter.
	let ints = || BetaType::Count(count);
	as_f64_runs::<i32>(c, || BetaType::Count(count), ints, "Count", 0, ctx)?;
	as_f64_runs::<i64>(c, || BetaType::Count(count), ints, "Count", 0, ctx)?;
	as_f64_runs::<i16>(c, || BetaType::Count(count), ints, "Count", 0, ctx)?;
	as_f64_runs::<i128>(c, || BetaType::Count(count), ints, "Count", 0, ctx)?;
	as_f64_runs::<f32>(c, || BetaType::Count(count), ints, "Count", 2, ctx)?;
	let (il, ih) = (c.lo as i32 % 4 + 1, c.hi as i32 % 7 + 1);
	as_f64_runs::<i32>(
		c,
		|| BetaType::CountRange(count, il, ih),
		|| BetaType::CountRange(count, il as f64, ih as f64),
		"CountRange",
		0,
		ctx,
	)?;
	as_f64_runs::<f32>(
		c,
		|| BetaType::CountRange(count, il as f32, ih as f32),
		|| BetaType::CountRange(count, il as f64, ih as f64),
		"CountRange",
		2,
		ctx,
	)?;
	let il: Vec<i64> = c.sched.iter().map(|b| *b as i64 % 4).collect();
	as_f64_runs::<i64>(
		c,
		|| BetaType::Schedule(il.clone()),
		|| BetaType::Schedule(il.iter().map(|b| *b as f64).collect()),
		"Schedule",
		0,
		ctx,
	)?;
	// f. No rounds or no sweeps: the initial state.
	let fresh = |s: u64| -> Result<Vec<bool>, String> {
		Ok(BinaryRepr::new_random(n, &mut StdRng::seed_from_u64(s)).to_vec())
	};
	for b in [BetaType::Count(0), BetaType::CountRange(0, 1.0, 2.0), BetaType::Schedule(vec![])] {
		same_runs(
			"no rounds",
			&|s| anneal(&m, &id, b.clone(), sw, s),
			&fresh,
			c.seed ^ 5,
			2,
			0,
			ctx,
		)?;
	}
	same_runs(
		"no sweeps",
		&|s| anneal(&m, &id, BetaType::Count(count), 0, s),
		&fresh,
		c.seed ^ 6,
		2,
		0,
		ctx,
	)?;
	match count {
		0 => ctx.label("count 0"),
		1 => ctx.label("count 1"),
		_ => ctx.label("count 2+"),
	}
	ctx.nontrivial_if(one > 0 && count > 0);
	Ok(())
}

struct SchedLeg;
impl Leg for SchedLeg {
	type Case = SchedCase;
	fn name(&self) -> &'static str {
		"schedules"
	}
	fn rule(&self) -> &'static str {
		"A problem of up to 5 (now and then 70) variables, a count (now and then up to 400), a range and a list of temperatures; runs with equal seeds are compared between ways to say the same schedule, number types and scales. Non-trivial: some weight is not zero and the schedule is not empty."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(24_000, 300_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<SchedCase> {
		(
			prop_oneof![
				160 => prob(1..=5, 6), 20 => prob(0..=2, 0), 20 => prob(0..=1, 6),
				1 => prob_wide(6..=70, 6)
			],
			any::<bool>(),
			prop_oneof![25 => Just(0u16), 50 => Just(1u16), 125 => 2u16..12, 1 => 12u16..400],
			0u16..128,
			0u16..256,
			prop_oneof![
				200 => proptest::collection::vec(0u16..200, 0..10),
				1 => proptest::collection::vec(0u16..200, 10..300)
			],
			0u8..4,
			any::<u64>(),
			0u8..21,
		)
			.prop_map(|(p, half, count, lo, hi, sched, sweeps, seed, shift)| SchedCase {
				p,
				half,
				count,
				lo,
				hi,
				sched,
				sweeps,
				seed,
				shift,
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		400
	}
	fn check(&self, c: &SchedCase, ctx: &mut Ctx) -> Res {
		sched_check(c, ctx)
	}
}

/// The automatic range seen from outside: how often one variable is found at
/// its bad value.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RangeCase {
	pub w: i8,
	pub ty: Ty,
	pub kind: Kind,
	pub half: bool,
	pub count: u8,
	pub seed: u64,
	pub samples: u32,
}

fn range_check<R: Real>(c: &RangeCase, ctx: &mut Ctx) -> Res {
	let unit = unit_of(c.ty, c.half);
	let p = Prob {
		lin: vec![c.w],
		quad: vec![],
	};
	let w = (c.w as f64 * unit).abs();
	let count = c.count as usize;
	let betas = geometric(f64::ln(2.0) / w, f64::ln(100.0) / w, count);
	let d = metropolis(&p, unit, &betas, &[0.5, 0.5]);
	let mut ones = 0u64;
	for k in 0..c.samples {
		let x = anneal_kind::<R>(
			&p,
			c.kind,
			unit,
			BetaType::Count(count),
			1,
			c.seed.wrapping_add(k as u64),
		)?;
		ones += x[0] as u64;
	}
	ctx.sub += 1;
	let f = ones as f64 / c.samples as f64;
	if log_tail(c.samples as f64, f, d[1] - 1e-5, d[1] + 1e-5) < CUT {
		return Err(format!(
			"a variable of weight {} is set in {f:.4} of {} runs with Count({count}), {:.4} expected",
			c.w as f64 * unit, c.samples, d[1]
		));
	}
	ctx.label(format!("{:?}", c.ty));
	ctx.nontrivial_if(count > 0);
	Ok(())
}

struct RangeLeg;
impl Leg for RangeLeg {
	type Case = RangeCase;
	fn name(&self) -> &'static str {
		"auto-range"
	}
	fn rule(&self) -> &'static str {
		"One variable with a weight and an automatic schedule of 0 to 6 rounds of one sweep; the frequency of its bad value over thousands of seeded runs against the exact probability (Chernoff bound, alarm below 1e-11). Non-trivial: at least one round."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(800, 4_000)
	}
	fn strategy(&self, t: Tier) -> BoxedStrategy<RangeCase> {
		let samples = t.pick(4_000u32, 20_000);
		(
			prop_oneof![1i8..100, -100i8..=-1],
			arb_ty(),
			prop_oneof![3 => Just(Kind::Dense), 1 => Just(Kind::Sparse), 1 => Just(Kind::Gaps), 1 => Just(Kind::High)],
			any::<bool>(),
			0u8..7,
			any::<u64>(),
		)
			.prop_map(move |(w, ty, kind, half, count, seed)| RangeCase {
				w,
				ty,
				kind,
				half,
				count,
				seed,
				samples,
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		60
	}
	fn shrink_tries(&self) -> u32 {
		0
	}
	fn check(&self, c: &RangeCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room((c.w as i64).abs()), range_check(c, ctx))
	}
}

pub fn c17() -> Property {
	Property {
		id: "C17",
		legs: vec![Box::new(SchedLeg), Box::new(RangeLeg)],
		assumptions: &[
			"integral weights small enough to be exact in every number type",
			"two schedules that differ by rounding give the same run except with negligible probability",
		],
	}
}

// ---------------------------------------------------------------------------
// C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeedCase {
	pub p: Prob,
	pub ty: Ty,
	pub kind: Kind,
	pub half: bool,
	pub count: u8,
	pub sweeps: u8,
	pub seed: u64,
	/// coefficients are tenths, whose sums depend on the order of adding them
	#[serde(default)]
	pub tenth: bool,
}

fn seed_check<R: Real>(c: &SeedCase, ctx: &mut Ctx) -> Res {
	let unit = if c.tenth && c.ty.is_float() {
		ctx.label("tenths".to_string());
		0.1
	} else {
		unit_of(c.ty, c.half)
	};
	let p = &c.p;
	let sw = c.sweeps as usize % 4;
	let beta = || BetaType::Count(c.count as usize);
	let a = anneal_kind::<R>(p, c.kind, unit, beta(), sw, c.seed)?;
	// Another model, solver and stream of the same seed.
	let b = anneal_kind::<R>(p, c.kind, unit, beta(), sw, c.seed)?;
	ctx.sub += 1;
	if a != b {
		return Err(format!("seed {} gave {a:?} and then {b:?}", c.seed));
	}
	if matches!(c.kind, Kind::Sparse | Kind::Gaps) {
		let m = sparse_backwards::<R>(p, c.kind, unit);
		let b = anneal(&m, &ids(p, c.kind), beta(), sw, c.seed)?;
		ctx.sub += 1;
		if a != b {
			return Err(format!(
				"seed {} gave {a:?}, and {b:?} with the weights added in another order",
				c.seed
			));
		}
	}
	// The same solver used twice, from several threads.
	let m = dense::<R>(p, unit);
	let mut g = SimulatedAnnealerGenerator::<'_, Dense<R>>::new();
	g.beta = beta();
	g.sweeps_per_round = sw;
	let s = annealers::solver::SolverGenerator::generate(&g, &m).map_err(|e| e.to_string())?;
	let go = |seed: u64| {
		let mut r = StdRng::seed_from_u64(seed);
		s.solve_with_rng(&mut r).unwrap().pop().unwrap().state.to_vec()
	};
	let first = go(c.seed);
	let others: Vec<Vec<bool>> = std::thread::scope(|sc| {
		let hs: Vec<_> = (0..3u64)
			.map(|k| {
				let go = &go;
				sc.spawn(move || {
					if k > 0 {
						let _ = go(c.seed.wrapping_add(k));
					}
					go(c.seed)
				})
			})
			.collect();
		hs.into_iter().map(|h| h.join().unwrap()).collect()
	});
	ctx.sub += 3;
	for o in others {
		if o != first {
			return Err(format!("one solver and seed {} gave {first:?} and {o:?}", c.seed));
		}
	}
	if c.kind == Kind::Dense && first != a {
		return Err(format!("equal solvers and seeds gave {first:?} and {a:?}"));
	}
	// One stream used for two runs: the second continues it.
	let mut r = StdRng::seed_from_u64(c.seed);
	let mut q = StdRng::seed_from_u64(c.seed);
	for _ in 0..3 {
		let x = s.solve_with_rng(&mut r).unwrap().pop().unwrap().state.to_vec();
		let y = s.solve_with_rng(&mut q).unwrap().pop().unwrap().state.to_vec();
		ctx.sub += 1;
		if x != y {
			return Err(format!("equal streams gave {x:?} and {y:?}"));
		}
	}
	ctx.label(format!("{:?}", c.kind));
	ctx.nontrivial_if(p.n() >= 2 && c.count > 0 && sw > 0);
	Ok(())
}

struct SeedLeg;
impl Leg for SeedLeg {
	type Case = SeedCase;
	fn name(&self) -> &'static str {
		"seeds"
	}
	fn rule(&self) -> &'static str {
		"A problem, a schedule and a seed; the run is repeated with new models, with one solver, and from several threads. Non-trivial: at least two variables and one sweep."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(24_000, 300_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<SeedCase> {
		(
			prop_oneof![30 => prob(0..=16, 6), 1 => prop_oneof![9 => prob_wide(17..=150, 6), 1 => prob_wide(151..=400, 6)]],
			arb_ty(),
			arb_kind(),
			any::<bool>(),
			0u8..8,
			0u8..4,
			any::<u64>(),
			any::<bool>(),
		)
			.prop_map(|(p, ty, kind, half, count, sweeps, seed, tenth)| SeedCase {
				p,
				ty,
				kind,
				half,
				count,
				sweeps,
				seed,
				tenth,
			})
			.boxed()
	}
	fn check(&self, c: &SeedCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(c.p.range()), seed_check(c, ctx))
	}
}

pub fn c22() -> Property {
	Property {
		id: "C22",
		legs: vec![Box::new(SeedLeg)],
		assumptions: &[],
	}
}

// ---------------------------------------------------------------------------
// C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EndCase {
	pub ty: Ty,
	pub half: bool,
	/// small objective: (coefficient, variables) with spins where the flag says
	pub obj: Vec<(i8, Vec<u8>, bool)>,
	pub constant: i8,
	/// groups of variables of which exactly one has to be set
	pub onehot: Vec<Vec<u8>>,
	pub penalty: Option<(u8, u8)>,
	/// everything is multiplied by 2^mag, for floating point types
	#[serde(default)]
	pub mag: i8,
}

const EV: u8 = 6;

impl EndCase {
	fn all(&self) -> f64 {
		if self.ty.is_float() {
			(self.mag as f64).exp2()
		} else {
			1.0
		}
	}
	fn unit(&self) -> f64 {
		unit_of(self.ty, self.half) * self.all()
	}
	fn objective(&self, x: &[bool]) -> f64 {
		let mut e = self.constant as f64;
		for (c, vs, spin) in self.obj.iter() {
			let mut t = *c as f64;
			for (k, v) in vs.iter().enumerate() {
				t *= match (x[*v as usize], *spin && k == 0) {
					(true, _) => 1.0,
					(false, true) => -1.0,
					(false, false) => 0.0,
				};
			}
			e += t;
		}
		e * self.unit()
	}
	fn groups(&self) -> Vec<Vec<u8>> {
		self.onehot
			.iter()
			.map(|g| {
				let mut g = g.clone();
				g.sort_unstable();
				g.dedup();
				g
			})
			.filter(|g| !g.is_empty())
			.collect()
	}
	fn vars(&self) -> Vec<u8> {
		let mut s = BTreeSet::new();
		for (_, vs, _) in self.obj.iter() {
			s.extend(vs.iter().cloned());
		}
		for g in self.groups() {
			s.extend(g);
		}
		if let Some((a, b)) = self.penalty {
			s.insert(a);
			s.insert(b);
		}
		s.into_iter().collect()
	}
	fn expr<L: Label, R: Real>(&self) -> rustqubo::Expr<(), L, u8, R> {
		use rustqubo::Expr;
		type X<L, R> = Expr<(), L, u8, R>;
		let u = self.unit();
		let mut e: X<L, R> = Expr::Number(from_units(self.constant as i32, u));
		for (c, vs, spin) in self.obj.iter() {
			let mut t: X<L, R> = Expr::Number(from_units(*c as i32, u));
			for (k, v) in vs.iter().enumerate() {
				t = t * if *spin && k == 0 {
					Expr::Spin(L::of(*v))
				} else {
					Expr::Binary(L::of(*v))
				};
			}
			e += t;
		}
		for (k, g) in self.groups().iter().enumerate() {
			let mut s: X<L, R> = Expr::Number(R::from_i32(-1));
			for v in g {
				s += Expr::Binary(L::of(*v));
			}
			e += Expr::Constraint {
				label: k as u8,
				expr: Box::new(s ^ 2),
			};
		}
		if let Some((a, b)) = self.penalty {
			// a -> b, as a penalty
			let v: X<L, R> = Expr::Number(from_units(20, self.all()))
				* (Expr::Binary(L::of(a))
					* (Expr::Number(R::from_i32(1)) - Expr::Binary(L::of(b))));
			e = Expr::WithPenalty {
				expr: Box::new(e),
				penalty: Box::new(v),
			};
		}
		e
	}
	fn pen(&self, x: &[bool]) -> f64 {
		match self.penalty {
			Some((a, b)) if x[a as usize] && !x[b as usize] => 20.0 * self.all(),
			_ => 0.0,
		}
	}
	fn violated(&self, x: &[bool]) -> Vec<u8> {
		self.groups()
			.iter()
			.enumerate()
			.filter(|(_, g)| g.iter().filter(|v| x[**v as usize]).count() != 1)
			.map(|(k, _)| k as u8)
			.collect()
	}
}

fn end_check<R: Real>(c: &EndCase, ctx: &mut Ctx) -> Res {
	let vars = c.vars();
	let n = vars.len();
	let state = |s: usize| -> Vec<bool> {
		let mut x = vec![false; EV as usize];
		for (k, v) in vars.iter().enumerate() {
			x[*v as usize] = (s >> k) & 1 == 1;
		}
		x
	};
	let mut best: Option<f64> = None;
	for s in 0..1usize << n {
		let x = state(s);
		if c.violated(&x).is_empty() {
			let e = c.objective(&x) + c.pen(&x);
			best = Some(best.map_or(e, |b: f64| b.min(e)));
		}
	}
	let Some(best) = best else {
		ctx.label("infeasible");
		return Ok(());
	};
	let compiled = c.expr::<FL, R>().compile();
	let mut solver = rustqubo::solve::SimpleSolver::new(&compiled);
	solver.samples = 400;
	solver.coeff_strength = from_units(50, c.all());
	let tol = 1e-3 * c.all();
	let mut last = String::new();
	// The solver draws its own seeds: a run may be unlucky, every one of
	// five is not.
	for attempt in 0..5 {
		let (e, sol, bad) = solver
			.solve_with_constraints()
			.map_err(|e| format!("solver error {e}"))?;
		let mut x = vec![false; EV as usize];
		for v in vars.iter() {
			match sol.get(&FL::of(*v)) {
				Some(b) => x[*v as usize] = b,
				None => return Err(format!("the solution has no value for variable {v}")),
			}
		}
		let bad: BTreeSet<u8> = bad.into_iter().cloned().collect();
		let really: BTreeSet<u8> = c.violated(&x).into_iter().collect();
		ctx.sub += 1;
		// What is reported about the solution must be true in every run.
		if bad != really {
			return Err(format!(
				"reported violated constraints {bad:?}, really violated {really:?} at {x:?}"
			));
		}
		let obj = c.objective(&x) + c.pen(&x);
		if bad.is_empty() && e.as_f64() < obj - tol {
			return Err(format!("reported energy {} below the true {obj} at {x:?}", e.as_f64()));
		}
		if bad.is_empty() && (e.as_f64() - best).abs() <= tol && (obj - best).abs() <= tol {
			if attempt > 0 {
				ctx.label("needed more than one run");
			}
			ctx.label(format!("{:?}", c.ty));
			ctx.nontrivial_if(n >= 2);
			if !c.groups().is_empty() {
				ctx.label("constraints");
			}
			if c.obj.iter().any(|o| o.1.len() > 2) {
				ctx.label("cubic");
			}
			return Ok(());
		}
		solver.samples *= 3;
		last = format!(
			"energy {} (objective {obj}, violated {bad:?}) at {x:?}, the best is {best}",
			e.as_f64()
		);
	}
	Err(format!("five runs of the solver found no optimum: {last}"))
}

struct EndLeg;
impl Leg for EndLeg {
	type Case = EndCase;
	fn name(&self) -> &'static str {
		"end-to-end"
	}
	fn rule(&self) -> &'static str {
		"A problem of up to 6 variables (objective up to degree 3, exactly-one constraints, a penalty) solved by the built-in solver with many samples, everything multiplied by a power of two from 2^-16 to 2^16 for floating point types; compared with the exhaustive optimum over feasible assignments. Non-trivial: at least two variables."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(160, 4_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<EndCase> {
		let term = (
			prop_oneof![-3i8..=-1, 1i8..=3],
			proptest::sample::subsequence((0..EV).collect::<Vec<u8>>(), 1..=3),
			proptest::bool::weighted(0.3),
		)
			.prop_map(|(c, v, s)| {
				// cubic terms stay small: their substitution costs weight
				let c = if v.len() > 2 { c.signum() } else { c };
				(c, v, s)
			});
		let nocubic = (
			prop_oneof![-2i8..=-1, 1i8..=2],
			proptest::sample::subsequence((0..EV).collect::<Vec<u8>>(), 1..=2),
			proptest::bool::weighted(0.3),
		);
		let free = (
			arb_ty(),
			any::<bool>(),
			proptest::collection::vec(term, 1..5),
			-3i8..=3,
		)
			.prop_map(|(ty, half, obj, constant)| EndCase {
				ty,
				half,
				obj,
				constant,
				onehot: vec![],
				penalty: None,
				mag: 0,
			});
		let con = (
			arb_ty(),
			any::<bool>(),
			proptest::collection::vec(nocubic, 0..4),
			-3i8..=3,
			proptest::collection::vec(
				proptest::sample::subsequence((0..EV).collect::<Vec<u8>>(), 1..=3),
				1..=2,
			),
			proptest::option::weighted(0.3, (0..EV, 0..EV)),
		)
			.prop_map(|(ty, half, obj, constant, onehot, penalty)| EndCase {
				ty,
				half,
				obj,
				constant,
				onehot,
				penalty: penalty.filter(|(a, b)| a != b),
				mag: 0,
			});
		(
			prop_oneof![1 => free, 2 => con],
			prop_oneof![3 => Just(0i8), 2 => -16i8..=16],
		)
			.prop_map(|(mut c, mag)| {
				c.mag = mag;
				c
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		40
	}
	fn shrink_tries(&self) -> u32 {
		0
	}
	fn check(&self, c: &EndCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(1000), end_check(c, ctx))
	}
}

/// Many small independent parts, whose best values are known: what is optimal
/// for the whole is optimal for every part.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartsCase {
	pub ty: Ty,
	pub half: bool,
	pub parts: Vec<u8>,
	/// seed of the order in which the terms are added
	pub order: u64,
	pub coeff: u8,
	/// a solver as it is made, in a pool of so many threads, for the first parts
	#[serde(default)]
	pub pool: Option<u8>,
}

const PARTS: u8 = 7;

fn parts_check<R: Real>(c: &PartsCase, ctx: &mut Ctx) -> Res {
	match c.pool {
		Some(t) => {
			let c = PartsCase {
				parts: c.parts.clone().into_iter().take(3).collect(),
				pool: Some(0),
				..c.clone()
			};
			ctx.label("in a pool");
			rayon::ThreadPoolBuilder::new()
				.num_threads(1 + t as usize % 9)
				.build()
				.map_err(|e| e.to_string())?
				.install(|| parts_run::<R>(&c, ctx))
		}
		None => parts_run::<R>(c, ctx),
	}
}

fn parts_run<R: Real>(c: &PartsCase, ctx: &mut Ctx) -> Res {
	use rustqubo::Expr;
	type X<R> = Expr<(), u16, u16, R>;
	let unit = unit_of(c.ty, c.half);
	let k = c.coeff as i32 % 4 + 1;
	// i16 sums stay small
	let num = |v: i32| -> X<R> { Expr::Number(from_units(v * k, unit)) };
	let x = |i: usize| -> X<R> { Expr::Binary((i * 7 % 1009) as u16) };
	let mut terms: Vec<X<R>> = vec![];
	let mut best = 0i64;
	// the value each variable has to have, if only one is best
	let mut want: Vec<Option<bool>> = vec![];
	let mut cons: Vec<(u16, usize, usize)> = vec![];
	for (n, part) in c.parts.iter().enumerate() {
		let (a, b) = (2 * n, 2 * n + 1);
		match part % PARTS {
			0 => {
				terms.push(num(2) * x(a));
				terms.push(num(-2) * x(b));
				best -= 2;
				want.extend([Some(false), Some(true)]);
			}
			1 => {
				terms.push(num(2) * x(a) * x(b));
				terms.push(num(-2) * x(a));
				best -= 2;
				want.extend([Some(true), Some(false)]);
			}
			2 => {
				terms.push(num(-2) * x(a) * x(b));
				best -= 2;
				want.extend([Some(true), Some(true)]);
			}
			3 => {
				// s in {-1, 1}
				let s: X<R> = Expr::Spin((a * 7 % 1009) as u16);
				terms.push(num(1) * s);
				terms.push(num(-2) * x(b));
				best -= 3;
				want.extend([Some(false), Some(true)]);
			}
			4 => {
				terms.push(num(1) * ((x(a) - x(b) - Expr::Number(R::from_i32(1))) ^ 2));
				want.extend([Some(true), Some(false)]);
			}
			5 => {
				terms.push(Expr::Constraint {
					label: n as u16,
					expr: Box::new((x(a) + x(b) - Expr::Number(R::from_i32(1))) ^ 2),
				});
				cons.push((n as u16, a, b));
				want.extend([None, None]);
			}
			_ => {
				terms.push(num(2) * x(b));
				terms.push(num(-1) * x(a) * (Expr::Number(R::from_i32(1)) - x(b)));
				best -= 1;
				want.extend([Some(true), Some(false)]);
			}
		}
	}
	let mut g = StdRng::seed_from_u64(c.order);
	rand::seq::SliceRandom::shuffle(&mut terms[..], &mut g);
	let mut e: X<R> = Expr::Number(R::from_i32(0));
	for t in terms {
		e += t;
	}
	let best = best as f64 * k as f64 * unit;
	let compiled = e.compile();
	let mut solver = rustqubo::solve::SimpleSolver::new(&compiled);
	if c.pool.is_none() {
		solver.samples = 16;
		// the defaults take minutes
		solver.solver_generator.sweeps_per_round = if want.len() > 30 { 1 } else { 4 };
		solver.coeff_strength = from_units(k, unit);
	}
	let mut last = String::new();
	for attempt in 0..6 {
		let (e, sol, bad) = solver
			.solve_with_constraints()
			.map_err(|e| format!("solver error {e}"))?;
		let mut v = vec![];
		for i in 0..want.len() {
			match sol.get(&((i * 7 % 1009) as u16)) {
				Some(b) => v.push(b),
				None => return Err(format!("the solution has no value for variable {i}")),
			}
		}
		let bad: BTreeSet<u16> = bad.into_iter().cloned().collect();
		let really: BTreeSet<u16> =
			cons.iter().filter(|(_, a, b)| v[*a] == v[*b]).map(|(l, _, _)| *l).collect();
		ctx.sub += 1;
		if bad != really {
			return Err(format!("reported violated constraints {bad:?}, really violated {really:?} at {v:?}"));
		}
		if bad.is_empty() && e.as_f64() < best - 1e-3 {
			return Err(format!("reported energy {} below the best {best}", e.as_f64()));
		}
		let wrong: Vec<usize> =
			(0..v.len()).filter(|i| want[*i].map_or(false, |w| w != v[*i])).collect();
		let good = (e.as_f64() - best).abs() <= 1e-3;
		if bad.is_empty() && wrong.is_empty() != good {
			return Err(format!(
				"reported energy {} (the best is {best}) with variables {wrong:?} off their best values",
				e.as_f64()
			));
		}
		if bad.is_empty() && good {
			if attempt > 0 {
				ctx.label("needed more than one run");
			}
			ctx.label(format!("{:?}", c.ty));
			if !cons.is_empty() {
				ctx.label("constraints");
			}
			ctx.nontrivial_if(want.len() >= 10 || c.pool.is_some());
			return Ok(());
		}
		last = format!("energy {}, violated {bad:?}, {wrong:?} off their best values", e.as_f64());
		solver.samples *= 4;
	}
	Err(format!("six runs of the solver with up to {} samples found no optimum of {} independent parts: {last}", solver.samples / 4, c.parts.len()))
}

struct PartsLeg;
impl Leg for PartsLeg {
	type Case = PartsCase;
	fn name(&self) -> &'static str {
		"parts"
	}
	fn rule(&self) -> &'static str {
		"A problem of 1 to 40 independent parts of two variables each (objective terms and two-variable exactly-one constraints), whose optimum is known part by part, solved by the built-in solver; in a quarter of the cases up to 3 parts by a solver exactly as it is made, in a pool of 1 to 9 threads. Oracles: the reported violations and energy are true; the optimum is found. Non-trivial: at least ten variables, or in a pool."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(400, 8_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<PartsCase> {
		(
			arb_ty(),
			any::<bool>(),
			prop_oneof![
				3 => proptest::collection::vec(0u8..PARTS, 1..12),
				2 => proptest::collection::vec(0u8..4, 12..40)
			],
			any::<u64>(),
			0u8..4,
			proptest::option::weighted(0.25, 0u8..9),
		)
			.prop_map(|(ty, half, parts, order, coeff, pool)| PartsCase {
				ty,
				half,
				parts,
				order,
				coeff,
				pool,
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		40
	}
	fn shrink_tries(&self) -> u32 {
		0
	}
	fn check(&self, c: &PartsCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(1000), parts_check(c, ctx))
	}
}

/// Tours through a few places, in the words of the library's own example.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TourCase {
	pub float: bool,
	pub places: u8,
	pub dist: Vec<u8>,
	/// how a place at a position is labelled
	pub swap: bool,
	pub penalty: u8,
}

#[derive(PartialEq, Eq, Copy, Clone, Debug, Hash, PartialOrd, Ord)]
struct Stop(u8, u8);

fn tour_check<R: Real>(c: &TourCase, ctx: &mut Ctx) -> Res {
	use rustqubo::Expr;
	type X<R> = Expr<(), Stop, String, R>;
	let n = 2 + c.places as usize % 3;
	let unit = if c.float { 0.5 } else { 1.0 };
	let d = |i: usize, j: usize| -> i32 { c.dist[(i * 4 + j) % c.dist.len()] as i32 };
	let stop = |place: usize, pos: usize| if c.swap { Stop(pos as u8, place as u8) } else { Stop(place as u8, pos as u8) };
	let x = |place: usize, pos: usize| -> X<R> { Expr::Binary(stop(place, pos)) };
	let mut rules: X<R> = Expr::zero();
	for a in 0..n {
		let mut place: X<R> = -Expr::one();
		let mut pos: X<R> = -Expr::one();
		for b in 0..n {
			place = place + x(a, b);
			pos = pos + x(b, a);
		}
		rules = rules + Expr::Constraint { label: format!("place {a}"), expr: Box::new(place ^ 2) };
		rules += Expr::Constraint { label: format!("position {a}"), expr: Box::new(pos ^ 2) };
	}
	let mut length: X<R> = Expr::zero();
	for i in 0..n {
		for j in 0..n {
			for k in 0..n {
				if i != j {
					length = length
						+ Expr::Number(from_units(d(i, j), unit)) * x(i, k) * x(j, (k + 1) % n);
				}
			}
		}
	}
	// one violated rule costs more than any tour
	let factor = 40 + c.penalty as i32;
	let compiled = (Expr::Number(from_units(factor, unit)) * rules + length).compile();
	let tour = |p: &[usize]| -> f64 { (0..n).map(|k| d(p[k], p[(k + 1) % n]) as f64 * unit).sum() };
	// all orders
	let mut best = f64::INFINITY;
	let mut all: Vec<Vec<usize>> = vec![vec![]];
	for _ in 0..n {
		all = all
			.into_iter()
			.flat_map(|p| {
				(0..n)
					.filter(|q| p.as_slice().iter().all(|r| r != q))
					.map(|q| {
						let mut p = p.clone();
						p.push(q);
						p
					})
					.collect::<Vec<_>>()
			})
			.collect();
	}
	for p in all.into_iter() {
		let t = tour(&p);
		best = if t < best { t } else { best };
	}
	let mut solver = rustqubo::solve::SimpleSolver::new(&compiled);
	solver.samples = 4;
	solver.iterations = 2;
	solver.generations = 8;
	solver.solver_generator.sweeps_per_round = 4;
	let mut last = vec![];
	for _ in 0..5 {
		let (e, sol, bad) = solver.solve_with_constraints().map_err(|e| e.to_string())?;
		let on = |place: usize, pos: usize| -> Result<bool, String> {
			sol.get(&stop(place, pos)).ok_or_else(|| format!("no value for {place} at {pos}"))
		};
		if sol.keys().count() != n * n {
			return Err(format!("{} variables instead of {}", sol.keys().count(), n * n));
		}
		let mut order = vec![0; n];
		let mut violated: BTreeSet<String> = BTreeSet::new();
		for a in 0..n {
			let (mut p, mut q) = (0, 0);
			for b in 0..n {
				p += on(a, b)? as i32;
				q += on(b, a)? as i32;
				if on(a, b)? {
					order[b] = a;
				}
			}
			if p != 1 {
				violated.insert(format!("place {a}"));
			}
			if q != 1 {
				violated.insert(format!("position {a}"));
			}
		}
		let told: BTreeSet<String> = bad.into_iter().cloned().collect();
		ctx.sub += 1;
		if told != violated {
			return Err(format!("violated are {violated:?}, reported {told:?}"));
		}
		if violated.is_empty() {
			let t = tour(&order);
			if !crate::capture::close(e.as_f64(), t, 1.0 + t, 1e-9) {
				return Err(format!("tour {order:?} of length {t}, energy {}", e.as_f64()));
			}
			if t < best {
				return Err(format!("tour {order:?} of length {t}, the shortest has {best}"));
			}
			ctx.label(format!("places{n}"));
			ctx.label(if t == best { "shortest" } else { "not the shortest" });
			ctx.nontrivial_if(n > 2);
			return Ok(());
		}
		last = violated.into_iter().collect();
		solver.samples *= 4;
	}
	Err(format!("five runs found no tour of {n} places; the last violated {last:?}"))
}

struct TourLeg;
impl Leg for TourLeg {
	type Case = TourCase;
	fn name(&self) -> &'static str {
		"tours"
	}
	fn rule(&self) -> &'static str {
		"Tours of 2 to 4 places as in the library's example, labels of two numbers and of text, by the built-in solver. Oracles: the reported violations are true, a tour is found, its energy is its length and not below the shortest. Non-trivial: more than 2 places."
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(300, 6_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<TourCase> {
		(any::<bool>(), 0u8..3, proptest::collection::vec(0u8..10, 16), any::<bool>(), 0u8..20)
			.prop_map(|(float, places, dist, swap, penalty)| TourCase {
				float,
				places,
				dist,
				swap,
				penalty,
			})
			.boxed()
	}
	fn shrink_iters(&self) -> u32 {
		40
	}
	fn shrink_tries(&self) -> u32 {
		0
	}
	fn check(&self, c: &TourCase, ctx: &mut Ctx) -> Res {
		if c.dist.is_empty() {
			return Ok(());
		}
		if c.float {
			tour_check::<f64>(c, ctx)
		} else if c.swap {
			tour_check::<i32>(c, ctx)
		} else {
			tour_check::<i64>(c, ctx)
		}
	}
}

pub fn c18() -> Property {
	Property {
		id: "C18",
		legs: vec![Box::new(EndLeg), Box::new(PartsLeg), Box::new(TourLeg)],
		assumptions: &["the operating system's random numbers are random: five independent runs with many samples do not all miss"],
	}
}
