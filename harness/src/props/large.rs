//! Problems with more of everything than a byte can count: several hundred
//! variables, constraints, placeholders, samples. One structure, with its own
//! reference, from which each property takes what it says.
use crate::capture::{close, Answer, Model, ScriptGen, ScriptSolver};
use crate::fw::*;
use crate::qubo::Qubo;
use annealers::variable::Real;
use proptest::prelude::*;
use rustqubo::Expr;
use rustqubo::solve::SimpleSolver;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

type Slv<'a, R> = SimpleSolver<'a, u32, u16, ScriptGen, Model<R>, ScriptSolver<R>, R>;
type X<R> = Expr<u16, u32, u16, R>;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum LTy {
	I32,
	I64,
	F64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeCase {
	pub ty: LTy,
	/// coefficients of the variables; half of those may be written as spins
	pub lin: Vec<i8>,
	pub spin: u8,
	pub quad: Vec<(u16, u16, i8)>,
	pub cub: Vec<(u16, u16, u16, i8)>,
	/// as products with a placeholder of its own, whose value is the second
	pub fed: Vec<(u16, u8)>,
	/// a penalty around a term
	pub pen: Vec<(u16, u16, i8)>,
	/// how many constraints: each says that a variable of its own is 0
	pub cons: u16,
	/// numbers of the labels of variables, scrambled
	pub mix: u32,
	pub bits: Vec<u64>,
}

fn bit(seed: u64, i: usize) -> bool {
	let mut x = seed ^ (i as u64).wrapping_mul(0x9e3779b97f4a7c15);
	x = (x ^ (x >> 31)).wrapping_mul(0xbf58476d1ce4e5b9);
	x = (x ^ (x >> 29)).wrapping_mul(0x94d049bb133111eb);
	(x >> 40) & 1 == 1
}

impl LargeCase {
	fn n(&self) -> usize {
		self.lin.len() + self.cons as usize
	}
	fn label(&self, i: usize) -> u32 {
		(i as u32).wrapping_mul(self.mix | 1) ^ self.mix
	}
	fn at(&self, i: u16) -> usize {
		i as usize % self.lin.len()
	}
	fn is_spin(&self, i: usize) -> bool {
		self.spin > 0 && i % (self.spin as usize + 1) == 0
	}
	fn expr<R: Real>(&self) -> X<R> {
		let num = |w: i32| X::<R>::Number(R::from_i32(w));
		let var = |i: usize| {
			if i < self.lin.len() && self.is_spin(i) {
				X::<R>::Spin(self.label(i))
			} else {
				X::<R>::Binary(self.label(i))
			}
		};
		let mut parts: Vec<X<R>> = Vec::new();
		for (i, w) in self.lin.iter().enumerate() {
			parts.push(num(*w as i32) * var(i));
		}
		for (a, b, w) in self.quad.iter() {
			parts.push(num(*w as i32) * var(self.at(*a)) * var(self.at(*b)));
		}
		for (a, b, c, w) in self.cub.iter() {
			let [a, b, c] = [*a, *b, *c].map(|i| X::<R>::Binary(self.label(self.at(i))));
			parts.push(num(*w as i32) * a * b * c);
		}
		for (p, (a, _)) in self.fed.iter().enumerate() {
			parts.push(X::<R>::Placeholder(p as u16) * var(self.at(*a)));
		}
		for (a, b, w) in self.pen.iter() {
			parts.push(X::<R>::WithPenalty {
				expr: Box::new(var(self.at(*a))),
				penalty: Box::new(num(*w as i32) * var(self.at(*b))),
			});
		}
		for k in 0..self.cons {
			parts.push(X::<R>::Constraint {
				label: k,
				expr: Box::new(var(self.lin.len() + k as usize)),
			});
		}
		// constraints and terms in any order
		let m = self.mix as usize | 1;
		let len = parts.len();
		let mut order: Vec<usize> = (0..len).collect();
		order.sort_by_key(|i| (i.wrapping_mul(m) >> 3) & 0xffff);
		let mut e = num(0);
		for i in order {
			e = e + parts[i].clone();
		}
		e
	}
	fn feed<R: Real>(&self) -> HashMap<u16, R> {
		self.fed
			.iter()
			.enumerate()
			.map(|(p, (_, v))| (p as u16, R::from_i32(*v as i32)))
			.collect()
	}
	/// By hand; `w`: the weight of each constraint.
	fn energy(&self, x: &[bool], w: i64) -> i64 {
		let v = |i: usize| -> i64 {
			if i < self.lin.len() && self.is_spin(i) {
				if x[i] {
					1
				} else {
					-1
				}
			} else {
				x[i] as i64
			}
		};
		let mut e = 0;
		for (i, w) in self.lin.iter().enumerate() {
			e += *w as i64 * v(i);
		}
		for (a, b, w) in self.quad.iter() {
			e += *w as i64 * v(self.at(*a)) * v(self.at(*b));
		}
		for (a, b, c, w) in self.cub.iter() {
			if x[self.at(*a)] && x[self.at(*b)] && x[self.at(*c)] {
				e += *w as i64;
			}
		}
		for (a, f) in self.fed.iter() {
			e += *f as i64 * v(self.at(*a));
		}
		for (a, b, w) in self.pen.iter() {
			e += v(self.at(*a)) + *w as i64 * v(self.at(*b));
		}
		for k in 0..self.cons as usize {
			e += w * x[self.lin.len() + k] as i64;
		}
		e
	}
}

/// The models seen and what to answer.
type Script = Box<dyn Fn(usize, &Qubo) -> Vec<Vec<bool>> + Send + Sync>;

struct Got {
	energy: f64,
	view: BTreeMap<u32, bool>,
	field: BTreeMap<u32, f64>,
	inner: Option<f64>,
	unsat: Vec<u16>,
	models: Vec<Qubo>,
}

fn run<R: Real>(
	s: &mut Slv<'_, R>,
	strength: i32,
	generations: usize,
	samples: usize,
	script: Script,
) -> Result<Got, String> {
	let gen = ScriptGen::new(move |k, q| Answer::States(script(k, q)));
	s.solver_generator = gen.clone();
	s.coeff_strength = R::from_i32(strength);
	s.iterations = 1;
	s.generations = generations;
	s.samples = samples;
	let (c, view, unsat) = s.solve_with_constraints().map_err(|e| e.to_string())?;
	let mut values = BTreeMap::new();
	let mut field = BTreeMap::new();
	for k in view.keys() {
		values.insert(*k, view.get(k).ok_or("a key without a value")?);
		if let Some(f) = view.local_field(k) {
			field.insert(*k, f.as_f64());
		}
	}
	Ok(Got {
		energy: c.as_f64(),
		view: values,
		field,
		inner: view.energy().map(|e| e.as_f64()),
		unsat: unsat.into_iter().cloned().collect(),
		models: gen.seen(),
	})
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part {
	/// energies of the compiled problem
	Energy,
	/// labels of violated constraints
	Labels,
	/// weights of constraints
	Weights,
	/// what a solution tells
	Report,
	/// the choice among samples
	Choice,
	/// thread pools
	Threads,
}

fn large_check<R: Real>(part: Part, c: &LargeCase, ctx: &mut Ctx) -> Res {
	if part == Part::Choice || part == Part::Threads {
		return choice_check::<R>(part, c, ctx);
	}
	let n = c.n();
	let model = c.expr::<R>().compile().feed_dict(c.feed());
	let mut solver = SimpleSolver::with_solver(&model, ScriptGen::new(|_, _| unreachable!()));
	// an even share for each
	let share = 8i64;
	let strength = (c.cons.max(1) as i64 * share) as i32;
	// which bit belongs to which variable
	let mut index: BTreeMap<u32, usize> = (0..n).map(|i| (c.label(i), 0)).collect();
	let mut size = n;
	let mut b = 0;
	let mut offset = 0.0;
	let mut first: Option<Qubo> = None;
	while (1usize << b) <= size {
		let got = run(
			&mut solver,
			strength,
			1,
			1,
			Box::new(move |_, q| vec![(0..q.n).map(|i| ((i + 1) >> b) & 1 == 1).collect()]),
		)?;
		if got.view.len() != n {
			return Err(format!("{n} variables, the solution has {}", got.view.len()));
		}
		for (l, v) in got.view.iter() {
			match index.get_mut(l) {
				Some(i) => *i |= (*v as usize) << b,
				None => return Err(format!("the solution has an unknown variable {l}")),
			}
		}
		if first.is_none() {
			let q = got.models[0].clone();
			size = q.n;
			let st: Vec<bool> = (0..q.n).map(|i| (i + 1) & 1 == 1).collect();
			offset = got.energy - q.energy(&st);
			first = Some(q);
		}
		b += 1;
	}
	let qubo = first.unwrap();
	let mut used = BTreeSet::new();
	for (l, i) in index.iter_mut() {
		if *i == 0 || *i > qubo.n || !used.insert(*i) {
			return Err(format!("variable {l} has no bit of its own"));
		}
		*i -= 1;
	}
	let at: Vec<usize> = (0..n).map(|i| index[&c.label(i)]).collect();
	ctx.label(format!("bits{}", qubo.n / 100 * 100));
	ctx.nontrivial_if(n > 256);
	let scale = qubo.lin.iter().map(|w| w.abs()).sum::<f64>()
		+ qubo.quad.values().map(|w| w.abs()).sum::<f64>()
		+ offset.abs();
	for (round, seed) in c.bits.iter().enumerate() {
		let seed = *seed;
		let mut x: Vec<bool> = (0..n).map(|i| bit(seed, i)).collect();
		if round == 1 {
			// all constraints violated
			for k in c.lin.len()..n {
				x[k] = true;
			}
		}
		let want = c.energy(&x, share) as f64;
		match part {
			Part::Energy => {
				let mut fixed = vec![None; qubo.n];
				for i in 0..n {
					fixed[at[i]] = Some(x[i]);
				}
				match qubo.min_over(&fixed, 17) {
					Some(e) if close(e + offset, want, scale, 1e-9) => ctx.sub += 1,
					Some(e) => {
						return Err(format!(
							"energy {} for sample {round}, {want} for the expression",
							e + offset
						))
					}
					None => ctx.label("helpers-too-many"),
				}
			}
			Part::Labels | Part::Report => {
				let st: Vec<bool> = {
					let mut s: Vec<bool> = (0..qubo.n).map(|i| bit(!seed, i)).collect();
					for i in 0..n {
						s[at[i]] = x[i];
					}
					s
				};
				let st2 = st.clone();
				let got = run(&mut solver, strength, 1, 1, Box::new(move |_, _| vec![st2.clone()]))?;
				ctx.sub += 1;
				let violated: Vec<u16> =
					(0..c.cons).filter(|k| x[c.lin.len() + *k as usize]).collect();
				let mut unsat = got.unsat.clone();
				unsat.sort_unstable();
				if unsat != violated {
					return Err(format!(
						"{} of {} constraints are violated, {} are reported",
						violated.len(),
						c.cons,
						unsat.len()
					));
				}
				if part == Part::Labels {
					continue;
				}
				for i in 0..n {
					if got.view.get(&c.label(i)) != Some(&x[i]) {
						return Err(format!("variable {i} of {n} has another value in the solution"));
					}
				}
				let e = qubo.energy(&st);
				if !close(got.energy, e + offset, scale, 1e-9) {
					return Err(format!("energy {} reported, {} in the model", got.energy, e + offset));
				}
				if qubo.n == n && !close(got.energy, want, scale, 1e-9) {
					return Err(format!("energy {} reported, {want} for the expression", got.energy));
				}
				if !got.inner.map_or(false, |v| close(v, e, scale, 1e-9)) {
					return Err(format!("the solution has energy {:?} instead of {e}", got.inner));
				}
				// local fields
				let mut f: Vec<f64> = (0..qubo.n).map(|i| qubo.lin[i]).collect();
				for ((i, j), w) in qubo.quad.iter() {
					if st[*j] {
						f[*i] += w;
					}
					if st[*i] {
						f[*j] += w;
					}
				}
				for i in 0..n {
					let d = if st[at[i]] { -f[at[i]] } else { f[at[i]] };
					match got.field.get(&c.label(i)) {
						Some(v) if close(*v, d, scale, 1e-9) => {}
						v => {
							return Err(format!(
								"flipping variable {i} of {n} costs {d}, its local field is {v:?}"
							))
						}
					}
				}
			}
			_ => {}
		}
	}
	if part == Part::Weights && c.cons > 0 {
		// each attempt better than the one before, with violated constraints
		let gens = 2 + c.bits.len();
		let bits = c.bits.clone();
		let cons_at: Vec<usize> = at[c.lin.len()..].to_vec();
		let history: Arc<Mutex<Vec<Vec<bool>>>> = Arc::new(Mutex::new(Vec::new()));
		let h2 = history.clone();
		let ca = cons_at.clone();
		let got = run(
			&mut solver,
			strength,
			gens,
			1,
			Box::new(move |k, q| {
				let seed = bits[k % bits.len()].wrapping_add(k as u64);
				let mut st: Vec<bool> = (0..q.n).map(|i| bit(seed, i)).collect();
				// some violation in each
				st[ca[seed as usize % ca.len()]] = true;
				h2.lock().unwrap().push(ca.clone().into_iter().map(|i| st[i]).collect());
				vec![st]
			}),
		)?;
		let history = history.lock().unwrap().clone();
		if history.len() > gens || got.models.len() != history.len() {
			return Err(format!("{} attempts made, {gens} allowed", history.len()));
		}
		let mut last: Option<Vec<f64>> = None;
		for (g, q) in got.models.iter().enumerate() {
			let w: Vec<f64> = cons_at.clone().into_iter().map(|i| q.lin[i]).collect();
			let total: f64 = w.clone().into_iter().sum();
			if let Some(k) = w.clone().into_iter().position(|w| !(w > 0.0)) {
				return Err(format!("attempt {g}: weight {} of constraint {k}", w[k]));
			}
			// shares of integers are rounded, by less than one each
			let eps = if R::from_f64(0.5).as_f64() == 0.5 { 1e-6 } else { w.len() as f64 };
			if (total - strength as f64).abs() > eps {
				return Err(format!("attempt {g}: the weights sum to {total}, the strength is {strength}"));
			}
			match &last {
				None => {
					if w.clone().into_iter().any(|w| (w - share as f64).abs() > 1e-9) {
						return Err("the constraints do not share the strength equally at first".into());
					}
				}
				Some(old) => {
					let v = &history[g - 1];
					if eps < 1.0 {
						// the least factor of a violated constraint, the greatest and
						// the least of the others
						let (mut lo, mut hi) = (f64::INFINITY, 0.0f64);
						let mut up = f64::INFINITY;
						for k in 0..w.len() {
							let r = w[k] / old[k];
							if v[k] {
								up = if r < up { r } else { up };
							} else {
								lo = if r < lo { r } else { lo };
								hi = if r > hi { r } else { hi };
							}
						}
						if hi > 0.0 && (hi - lo > 1e-9 || up < lo - 1e-9) {
							return Err(format!(
								"attempt {g}: satisfied constraints changed by factors {lo} to {hi}, violated ones by {up} or more"
							));
						}
					}
				}
			}
			// nothing else changes
			for i in 0..q.n {
				if q.lin[i] != qubo.lin[i] && !cons_at.contains_item(i) {
					return Err(format!("attempt {g}: the weight of bit {i} changed"));
				}
			}
			if q.quad != qubo.quad {
				return Err(format!("attempt {g}: a coupling changed"));
			}
			last = Some(w);
			ctx.sub += 1;
		}
	}
	Ok(())
}

trait ContainsItem {
	fn contains_item(&self, i: usize) -> bool;
}
impl ContainsItem for Vec<usize> {
	fn contains_item(&self, i: usize) -> bool {
		self.as_slice().iter().any(|x| *x == i)
	}
}

/// A small problem and several hundred samples.
fn choice_check<R: Real>(part: Part, c: &LargeCase, ctx: &mut Ctx) -> Res {
	let n = 3 + c.spin as usize;
	let mut e = X::<R>::Number(R::from_i32(0));
	let lin: Vec<i32> = (0..n).map(|i| 1 + c.lin[i].unsigned_abs() as i32).collect();
	for (i, w) in lin.iter().enumerate() {
		e = e + X::<R>::Number(R::from_i32(*w)) * X::<R>::Binary(i as u32);
	}
	// never feasible, with a contribution independent of the sample
	e = e + X::<R>::Constraint { label: 0, expr: Box::new(X::<R>::Number(R::from_i32(1)) + X::<R>::Number(R::from_i32(0)) * X::<R>::Binary(0)) };
	let model = e.compile().feed_dict(HashMap::new());
	let samples = c.lin.len();
	let per = if part == Part::Choice { 1 + (c.mix as usize % 3) * (c.cons as usize / 3) } else { 1 };
	let gens = 1 + c.bits.len() % 2;
	let bits = c.bits.clone();
	// every sample has all bits but for one, which has the fewest
	let low = (bits[0] % (samples * per) as u64) as usize;
	let script = move |k: usize, q: &Qubo| -> Vec<Vec<bool>> {
		let annealer = k % samples;
		(0..per)
			.map(|j| {
				let pos = annealer * per + j;
				let seed = bits[(k / samples) % bits.len()];
				(0..q.n).map(|i| pos != low && (i == 0 || bit(seed.wrapping_add(pos as u64 * 77), i))).collect()
			})
			.collect()
	};
	let go = |threads: usize| -> Result<Got, String> {
		let s = script.clone();
		let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().map_err(|e| e.to_string())?;
		let model = &model;
		pool.install(move || {
			let mut solver = SimpleSolver::with_solver(model, ScriptGen::new(|_, _| unreachable!()));
			run(&mut solver, 50, gens, samples, Box::new(s))
		})
	};
	let a = go(3)?;
	ctx.label(format!("samples{}", samples / 100 * 100));
	ctx.nontrivial_if(samples > 256);
	if a.models.len() != samples * gens {
		return Err(format!("{} annealers made, {samples} samples in {gens} attempts configured", a.models.len()));
	}
	if part == Part::Choice {
		if a.view.values().any(|v| *v) {
			return Err(format!(
				"sample {low} of {} is the best of all, another one is returned (energy {})",
				samples * per,
				a.energy
			));
		}
		if !close(a.energy, 50.0, 50.0, 1e-9) {
			return Err(format!("energy {} instead of 50", a.energy));
		}
	} else {
		for t in [1, 2, 7] {
			let b = go(t)?;
			if b.view != a.view || b.energy != a.energy || b.unsat != a.unsat || b.models.len() != a.models.len() {
				return Err(format!("another answer with {t} threads than with 3"));
			}
			ctx.sub += 1;
		}
	}
	Ok(())
}

pub struct LargeLeg {
	pub part: Part,
	pub quick: u64,
}

impl Leg for LargeLeg {
	type Case = LargeCase;
	fn name(&self) -> &'static str {
		"large"
	}
	fn rule(&self) -> &'static str {
		match self.part {
			Part::Choice | Part::Threads => "257 to 600 annealers over a small problem, for C06 up to 260 samples of each, one of them better than all others; non-trivial = more than 256",
			_ => "257 to 700 variables, up to 400 constraints, 300 placeholders, 20 products of three variables, penalties; several samples; non-trivial = more than 256 variables",
		}
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(self.quick, self.quick * 20)
	}
	fn shrink_iters(&self) -> u32 {
		120
	}
	fn shrink_tries(&self) -> u32 {
		1
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<LargeCase> {
		let part = self.part;
		let w = || -9i8..=9;
		let many_cons = part == Part::Labels || part == Part::Weights;
		(
			prop_oneof![Just(LTy::I32), Just(LTy::I64), Just(LTy::F64)],
			if many_cons {
				proptest::collection::vec(w(), 1..120).boxed()
			} else if part == Part::Choice || part == Part::Threads {
				proptest::collection::vec(w(), 257..600).boxed()
			} else {
				proptest::collection::vec(w(), 200..520).boxed()
			},
			0u8..4,
			proptest::collection::vec((any::<u16>(), any::<u16>(), w()), 0..200),
			proptest::collection::vec((any::<u16>(), any::<u16>(), any::<u16>(), w()), 0..20),
			prop_oneof![1 => 0usize..3, 1 => 200usize..300]
				.prop_flat_map(|n| proptest::collection::vec((any::<u16>(), 1u8..6), n)),
			proptest::collection::vec((any::<u16>(), any::<u16>(), w()), 0..40),
			if many_cons { 257u16..400 } else { 57u16..260 },
			any::<u32>(),
			proptest::collection::vec(any::<u64>(), 2..5),
		)
			.prop_map(|(ty, lin, spin, quad, cub, fed, pen, cons, mix, bits)| LargeCase {
				ty,
				lin,
				spin,
				quad,
				cub,
				fed,
				pen,
				cons,
				mix,
				bits,
			})
			.boxed()
	}
	fn check(&self, c: &LargeCase, ctx: &mut Ctx) -> Res {
		if c.lin.len() < 8 && matches!(self.part, Part::Choice | Part::Threads) || c.lin.is_empty() || c.bits.is_empty() {
			return Ok(());
		}
		match c.ty {
			LTy::I32 => large_check::<i32>(self.part, c, ctx),
			LTy::I64 => large_check::<i64>(self.part, c, ctx),
			LTy::F64 => large_check::<f64>(self.part, c, ctx),
		}
	}
}

pub fn leg(part: Part, quick: u64) -> Box<LargeLeg> {
	Box::new(LargeLeg { part, quick })
}
