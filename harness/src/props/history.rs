//! Whole runs of the solver against scripted annealers: C04 (constraint
//! weights), C06 (which sample is returned, errors), C23 (independence of the
//! number of threads and of their timing).
use crate::ast::*;
use crate::capture::*;
use crate::dispatch;
use crate::fw::*;
use crate::props::energy::{Lb, Ty};
use crate::qubo::Qubo;
use annealers::variable::Real;
use proptest::prelude::*;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Block {
	pub label: u8,
	pub kind: u8,
	pub coef: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
	pub blocks: Vec<Block>,
	/// Objective coefficient of each variable of the blocks.
	pub obj: Vec<i8>,
	/// Free variables with their own coefficients, coupled in a chain.
	pub free: Vec<(i8, i8)>,
	pub ty: Ty,
	pub lb: Lb,
	pub strength: u16,
	pub samples: u8,
	pub iterations: u8,
	pub generations: u8,
	/// One in `feasible` sampled states satisfies everything; 0 for none.
	pub feasible: u8,
	pub seed: u64,
	/// States each annealer returns (0 for some of them, if more than one).
	pub states: u8,
	/// (call, is it the generator that fails)
	pub fail: Option<(u16, bool)>,
	/// Numbers of threads, for C23.
	pub delay: u16,
	/// (p, k): the objective has (P - k) * the product of the first three free
	/// variables, P = p; the compiler needs helper variables for it.
	#[serde(default)]
	pub cubic: Option<(u8, u8)>,
	/// Every generation of an attempt returns the same values for the blocks and
	/// a better objective than the one before.
	#[serde(default)]
	pub descent: bool,
	/// The strength is a multiple of 2^mag, for f64.
	#[serde(default)]
	pub mag: i8,
}

/// Variables that count the generations of an attempt in a descent.
const COUNT: usize = 8;

const W: u8 = 3; // variables per block

fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e3779b97f4a7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

impl HistCase {
	fn strength(&self) -> f64 {
		let s = self.strength as f64;
		if self.ty == Ty::F64 && !self.descent {
			s * (self.mag as f64).exp2()
		} else {
			s
		}
	}
	fn var(&self, block: usize, k: u8) -> u8 {
		block as u8 * W + k
	}
	fn freevar(&self, k: usize) -> u8 {
		(self.blocks.len() as u8) * W + k as u8
	}
	fn nvars(&self) -> u8 {
		self.counter(0) + if self.descent { COUNT as u8 } else { 0 }
	}
	fn counter(&self, k: usize) -> u8 {
		self.freevar(self.free.len()) + k as u8
	}
	/// Constraint expression of a block: zero when satisfied.
	fn con(&self, bi: usize) -> E {
		let bl = &self.blocks[bi];
		let x = |k: u8| E::Bin(self.var(bi, k));
		let e = match bl.kind % 4 {
			0 => x(0),
			1 => E::Pow(
				b(E::Sub(b(E::Add(b(x(0)), b(x(1)))), b(E::Num(1)))),
				2,
			),
			2 => E::Mul(b(x(0)), b(x(1))),
			_ => E::Pow(
				b(E::Sub(
					b(E::Add(b(E::Add(b(x(0)), b(x(1)))), b(x(2)))),
					b(E::Num(1)),
				)),
				2,
			),
		};
		E::Mul(b(E::Num(1 + bl.coef as i32 % 3)), b(e))
	}
	fn violated(&self, bi: usize, x: &[bool]) -> bool {
		let v = |k: u8| x[self.var(bi, k) as usize] as i32;
		match self.blocks[bi].kind % 4 {
			0 => v(0) != 0,
			1 => v(0) + v(1) != 1,
			2 => v(0) * v(1) != 0,
			_ => v(0) + v(1) + v(2) != 1,
		}
	}
	/// Constant term of the block's constraint.
	fn constant(&self, bi: usize) -> f64 {
		match self.blocks[bi].kind % 4 {
			1 | 3 => 1.0 + (self.blocks[bi].coef % 3) as f64,
			_ => 0.0,
		}
	}
	fn objective(&self) -> E {
		let mut e = E::Num(0);
		for bi in 0..self.blocks.len() {
			for k in 0..W {
				let i = self.var(bi, k) as usize;
				// variable 0 of kind 0 carries the weight alone
				let c = if k == 0 && self.blocks[bi].kind % 4 == 0 {
					0
				} else {
					self.obj[i % self.obj.len()]
				};
				e = E::Add(
					b(e),
					b(E::Mul(b(E::Num(c as i32)), b(E::Bin(self.var(bi, k))))),
				);
			}
		}
		for (k, (l, q)) in self.free.iter().enumerate() {
			let v = self.freevar(k);
			e = E::Add(b(e), b(E::Mul(b(E::Num(*l as i32)), b(E::Bin(v)))));
			if k > 0 {
				e = E::Add(
					b(e),
					b(E::Mul(
						b(E::Mul(b(E::Num(*q as i32)), b(E::Bin(v)))),
						b(E::Bin(self.freevar(k - 1))),
					)),
				);
			}
		}
		if self.descent {
			for k in 0..COUNT {
				// outweighs whatever the weights do
				let c = -((self.strength as i32 * 8) << k);
				e = E::Add(
					b(e),
					b(E::Mul(b(E::Num(c)), b(E::Bin(self.counter(k))))),
				);
			}
		}
		if let Some((_, k)) = self.cubic() {
			let f = |i| b(E::Bin(self.freevar(i)));
			let c = E::Sub(b(E::Ph(0)), b(E::Num(k as i32)));
			e = E::Add(
				b(e),
				b(E::Mul(b(c), b(E::Mul(f(0), b(E::Mul(f(1), f(2))))))),
			);
		}
		e
	}
	fn cubic(&self) -> Option<(u8, u8)> {
		self.cubic.filter(|_| self.free.len() >= 3)
	}
	fn placeholder(&self) -> i32 {
		1 + self.cubic.map_or(0, |c| c.0) as i32
	}
	fn feed<R: Real>(&self) -> HashMap<u8, R> {
		match self.cubic() {
			Some(_) => vec![(0u8, R::from_i32(self.placeholder()))].into_iter().collect(),
			None => HashMap::new(),
		}
	}
	pub fn expr(&self) -> E {
		let mut e = self.objective();
		for bi in 0..self.blocks.len() {
			e = E::Add(b(e), b(E::Con(self.blocks[bi].label, b(self.con(bi)))));
		}
		e
	}
	/// Weight of the block's label in a model, read off its own coefficients.
	fn weight(&self, bi: usize, q: &Qubo, index: &BTreeMap<u8, usize>) -> f64 {
		let c = 1.0 + (self.blocks[bi].coef % 3) as f64;
		let i = |k: u8| index[&self.var(bi, k)];
		let quad = |a: usize, b: usize| {
			q.quad
				.get(&(a.min(b), a.max(b)))
				.copied()
				.unwrap_or(0.0)
		};
		match self.blocks[bi].kind % 4 {
			0 => q.lin[i(0)] / c,
			2 => quad(i(0), i(1)) / c,
			_ => quad(i(0), i(1)) / 2.0 / c,
		}
	}
	/// The state number `st` of call `k`, by variable.
	fn state(&self, k: usize, st: usize) -> Vec<bool> {
		if self.descent {
			let mut x = self.plain_state(0, 0);
			let g = k / self.samples.max(1) as usize % self.generations.max(1) as usize;
			for i in 0..COUNT {
				x[self.counter(i) as usize] = (g >> i) & 1 == 1;
			}
			return x;
		}
		self.plain_state(k, st)
	}
	fn plain_state(&self, k: usize, st: usize) -> Vec<bool> {
		let h = mix(self.seed ^ mix((k as u64) << 8 | st as u64));
		let n = self.nvars() as usize;
		let mut x = vec![false; n];
		for (i, v) in x.iter_mut().enumerate() {
			*v = (mix(h ^ (i as u64) << 32) >> 11) & 1 == 1;
		}
		if self.feasible > 0 && mix(h ^ 77) % self.feasible as u64 == 0 {
			for bi in 0..self.blocks.len() {
				let pick = (mix(h ^ (1000 + bi as u64)) % 3) as u8;
				for k in 0..W {
					x[self.var(bi, k) as usize] = match self.blocks[bi].kind % 4 {
						0 => k != 0 && x[self.var(bi, k) as usize],
						1 | 2 => k == pick % 2,
						_ => k == pick,
					};
				}
			}
		}
		x
	}
	fn nstates(&self, k: usize, samples: usize) -> usize {
		let n = 1 + mix(self.seed ^ 99 ^ k as u64) as usize % (self.states.max(1) as usize);
		// some annealers come back empty-handed, never the first of a generation
		if samples > 1 && k % samples != 0 && mix(self.seed ^ 55 ^ k as u64) % 5 == 0 {
			0
		} else {
			n
		}
	}
	fn answer(&self, k: usize, index: &BTreeMap<u8, usize>, n: usize) -> Answer {
		if let Some((at, gen)) = self.fail {
			if at as usize == k {
				let msg = format!("fail{k}");
				return if gen {
					Answer::GenErr(msg)
				} else {
					Answer::SolveErr(msg)
				};
			}
		}
		let samples = self.samples.max(1) as usize;
		Answer::States(
			(0..self.nstates(k, samples))
				.map(|st| {
					let x = self.state(k, st);
					// helper variables at random
					let mut s: Vec<bool> = (0..n)
						.map(|i| mix(self.seed ^ mix((k * 64 + st) as u64) ^ i as u64) & 64 != 0)
						.collect();
					for (l, i) in index.iter() {
						s[*i] = x[*l as usize];
					}
					s
				})
				.collect(),
		)
	}
}

struct GenInfo {
	/// weight of every label
	w: BTreeMap<u8, f64>,
	offset: f64,
	model: Qubo,
	/// best samples (several when tied), by bit
	best: Vec<Vec<bool>>,
	energy: f64,
	/// the labels violated by each best sample
	viol: Vec<Vec<u8>>,
}

#[derive(Debug)]
enum Outcome {
	Done(Shot),
	Err(String),
}

/// Run the case and describe every generation.
fn run<L: Label, R: Real>(c: &HistCase, eps: f64) -> Result<(Vec<GenInfo>, Outcome), String> {
	let expr = build::<L, R>(&c.expr(), 1.0);
	with_solver(expr, c.feed(), ScriptGen::new(|_, _| unreachable!()), |s| run_on(c, s, eps))
}

fn run_on<L: Label, R: Real>(
	c: &HistCase,
	s: &mut Slv<'_, L, R>,
	eps: f64,
) -> Result<(Vec<GenInfo>, Outcome), String> {
	let labels = label_map::<L>(c.nvars());
	let samples = c.samples.max(1) as usize;
	let strength = R::from_f64(c.strength());
	let p = probe(s, strength, &labels)?;
	let index = p.index.clone();
	let n = p.qubo.n;
	if index.len() != c.nvars() as usize || (c.cubic().is_none() && n != index.len()) {
		return Err(format!(
			"the problem has {} variables, its solutions {} and its model {}",
			c.nvars(),
			index.len(),
			p.qubo.n
		));
	}
	s.samples = samples;
	s.iterations = c.iterations.max(1) as usize;
	s.generations = c.generations.max(1) as usize;
	let mut once = || -> Result<(Outcome, Vec<Qubo>), String> {
		let c2 = c.clone();
		let ix = index.clone();
		let gen = ScriptGen::with_delay(
			move |k, _| c2.answer(k, &ix, n),
			{
				let d = c.delay as u64;
				let seed = c.seed;
				move |k| {
					if d == 0 {
						0
					} else {
						(mix(seed ^ k as u64) % d) as u32 * 50
					}
				}
			},
		);
		s.solver_generator = gen.clone();
		let out = match s.solve_with_constraints() {
			Ok(r) => Outcome::Done(read_shot(r, &labels)?),
			Err(e) => Outcome::Err(e.to_string()),
		};
		Ok((out, gen.seen()))
	};
	let (out, seen) = once()?;
	if mix(c.seed ^ 5) % 4 == 0 {
		// Nothing is left over from one call to the next.
		let (out2, seen2) = once()?;
		if seen2.len() != seen.len() {
			return Err(format!(
				"the first call to solve asked for {} anneals, the same call again for {}",
				seen.len(),
				seen2.len()
			));
		}
		for (k, (a, b)) in seen.iter().zip(seen2.iter()).enumerate() {
			if a.lin != b.lin || a.quad != b.quad {
				return Err(format!(
					"anneal {k} of the first call to solve had the model {a:?}, of the same call again {b:?}"
				));
			}
		}
		if format!("{out:?}") != format!("{out2:?}") {
			return Err(format!(
				"the first call to solve gave {out:?}, the same call again {out2:?}"
			));
		}
	}
	let mut gens = Vec::new();
	// objective constant is 0: the offset is what the constraints add
	for (g, chunk) in seen.chunks(samples).enumerate() {
		for q in chunk.iter() {
			if q.lin != chunk[0].lin || q.quad != chunk[0].quad {
				return Err("annealers of one generation were given different models".into());
			}
		}
		let q = chunk[0].clone();
		let mut w: BTreeMap<u8, f64> = BTreeMap::new();
		let mut offset = 0.0;
		for bi in 0..c.blocks.len() {
			let v = c.weight(bi, &q, &index);
			let o = w.entry(c.blocks[bi].label).or_insert(v);
			if !close(*o, v, *o, eps) {
				return Err(format!(
					"constraints of one label {} are weighted {o} and {v}",
					c.blocks[bi].label
				));
			}
			offset += v * c.constant(bi);
		}
		let mut all: Vec<(f64, Vec<bool>)> = Vec::new();
		for k in 0..chunk.len() {
			if let Answer::States(v) = c.answer(g * samples + k, &index, n) {
				for st in v {
					all.push((q.energy(&st), st));
				}
			}
		}
		let scale: f64 = q.lin.iter().map(|v| v.abs()).sum::<f64>()
			+ q.quad.values().map(|v| v.abs()).sum::<f64>();
		// With the weights found, the model is the problem at every state.
		for (e, st) in all.iter().take(4) {
			let mut x = vec![false; c.nvars() as usize];
			for (l, i) in index.iter() {
				x[*l as usize] = st[*i];
			}
			let env = Env {
				x,
				ph: vec![c.placeholder() as f64],
				w: w.iter().map(|(a, b)| (*a, *b)).collect(),
				unit: 1.0,
			};
			let want = c.expr().eval(&env, &mut 0.0);
			let mut fixed = vec![None; n];
			for i in index.values() {
				fixed[*i] = Some(st[*i]);
			}
			let got = if n == index.len() {
				*e
			} else {
				q.min_over(&fixed, 17).ok_or("too many helper variables")?
			} + offset;
			if !close(got, want, scale, eps * 10.0) {
				return Err(format!(
					"generation {g}: with the weights {w:?} the problem is worth {want} at {:?}, the model {got}",
					env.x
				));
			}
		}
		let min = all.iter().fold(f64::INFINITY, |m, a| m.min(a.0));
		let mut best: Vec<Vec<bool>> = Vec::new();
		for (e, st) in all {
			if close(e, min, scale, eps) && !best.contains(&st) {
				best.push(st);
			}
		}
		let viol = best
			.iter()
			.map(|st| {
				let mut x = vec![false; c.nvars() as usize];
				for (l, i) in index.iter() {
					x[*l as usize] = st[*i];
				}
				let mut v: Vec<u8> = (0..c.blocks.len())
					.filter(|bi| c.violated(*bi, &x))
					.map(|bi| c.blocks[bi].label)
					.collect();
				v.sort_unstable();
				v
			})
			.collect();
		gens.push(GenInfo {
			w,
			offset,
			model: q,
			best,
			energy: min,
			viol,
		});
	}
	Ok((gens, out))
}

fn weights_check<L: Label, R: Real>(c: &HistCase, ty: Ty, ctx: &mut Ctx) -> Res {
	let eps = if ty == Ty::F32 { 1e-4 } else { 1e-9 };
	let (gens, _) = run::<L, R>(c, eps)?;
	let per = c.generations.max(1) as usize;
	let labels: BTreeSet<u8> = c.blocks.iter().map(|b| b.label).collect();
	let k = labels.len() as f64;
	let s = c.strength();
	let float = ty.is_float();
	let mut moved = false;
	let mut lowest = f64::INFINITY;
	let mut lowest_total = f64::INFINITY;
	for (g, info) in gens.iter().enumerate() {
		if g % per == 0 {
			lowest = f64::INFINITY;
			lowest_total = f64::INFINITY;
		}
		let sum: f64 = info.w.values().sum();
		for (l, w) in info.w.iter() {
			if !(*w > 0.0) {
				return Err(format!("generation {g}: constraint {l} has weight {w}"));
			}
			if !float && *w < 1.0 {
				return Err(format!("generation {g}: constraint {l} has weight {w}"));
			}
		}
		let ok = if float {
			close(sum, s, s, eps)
		} else {
			(sum - s).abs() <= k
		};
		if !ok {
			return Err(format!(
				"generation {g}: the weights {:?} sum to {sum}, the strength is {s}",
				info.w
			));
		}
		if g % per == 0 {
			for (l, w) in info.w.iter() {
				let ok = if float {
					close(*w, s / k, s, eps)
				} else {
					(*w - s / k).abs() <= 1.0 && *w == *info.w.values().next().unwrap()
				};
				if !ok {
					return Err(format!(
						"generation {g} starts an attempt, constraint {l} has weight {w}, an equal share is {}",
						s / k
					));
				}
			}
		}
		ctx.sub += 1;
		// what the next generation of the same attempt has to look like
		if let Some(next) = gens.get(g + 1) {
			if (g + 1) % per != 0 && !info.best.is_empty() {
				let size: f64 = info.model.lin.iter().map(|v| v.abs()).sum::<f64>()
					+ info.model.quad.values().map(|v| v.abs()).sum::<f64>();
				let margin = 1e-6 * (s + info.energy.abs()) + eps / 1000.0 * size;
				let improving = g % per == 0
					|| (info.energy < lowest - margin
						&& info.energy + info.offset < lowest_total - margin);
				let judged = info.viol.windows(2).all(|v| v[0] == v[1]);
				let v: BTreeSet<u8> = info.viol[0].iter().cloned().collect();
				if judged && !v.is_empty() {
					for a in labels.iter().filter(|l| v.contains(l)) {
						for b in labels.iter().filter(|l| !v.contains(l)) {
							let before = info.w[a] / info.w[b];
							let after = next.w[a] / next.w[b];
							if float && improving {
								if !(after > before * (1.0 + 1e-4)) {
									return Err(format!(
										"generation {g}: constraint {a} was violated and {b} was not, but their weights went from {}/{} to {}/{}",
										info.w[a], info.w[b], next.w[a], next.w[b]
									));
								}
								moved = true;
							} else if float && !(after >= before * (1.0 - 1e-4)) {
								return Err(format!(
									"generation {g}: constraint {a} was violated and {b} was not, but its relative weight fell"
								));
							}
						}
					}
					if !float {
						for b in labels.iter().filter(|l| !v.contains(l)) {
							if next.w[b] > info.w[b] {
								return Err(format!(
									"generation {g}: constraint {b} was satisfied while others were not, and its weight rose from {} to {}",
									info.w[b], next.w[b]
								));
							}
						}
						if v.len() == 1 {
							let a = v.iter().next().unwrap();
							if next.w[a] < info.w[a] {
								return Err(format!(
									"generation {g}: only constraint {a} was violated and its weight fell from {} to {}",
									info.w[a], next.w[a]
								));
							}
						}
						moved |= next.w != info.w;
					}
				}
			}
		}
		lowest = lowest.min(info.energy);
		lowest_total = lowest_total.min(info.energy + info.offset);
	}
	// An integral type shows the pressure too, given room and time.
	if !float {
		for (att, chunk) in gens.chunks(per).enumerate() {
			for a in labels.iter() {
				let always: Vec<&GenInfo> = chunk
					.iter()
					.take(1)
					.filter(|i| i.viol.iter().all(|v| !v.is_empty() && v.iter().all(|l| l == a)))
					.collect();
				if let (Some(first), Some(second)) = (always.first(), chunk.get(1)) {
					// one violation moves the share by s/(10k+1)/... : judged
					// only when that is more than two units
					let m = first.viol[0].len() as f64;
					let others: Vec<&u8> = labels.iter().filter(|l| *l != a).collect();
					if !others.is_empty() && first.viol.len() == 1 {
						let d = s / k - s / k * (1.0 / (1.0 + m / (10.0 * k)));
						if d > 2.0 && others.iter().any(|o| second.w[*o] >= first.w[*o]) {
							return Err(format!(
								"attempt {att}: only constraint {a} was violated and no weight moved"
							));
						}
					}
				}
			}
		}
	}
	ctx.label(format!("{ty:?}"));
	ctx.label(format!("labels{}", labels.len()));
	ctx.label(format!("generations-seen{}", (gens.len() / 10) * 10));
	ctx.nontrivial_if(moved && labels.len() >= 2);
	Ok(())
}

/// What a generation lets happen: the run ends with one of its best samples,
/// or goes on.
fn select_check<L: Label, R: Real>(c: &HistCase, ty: Ty, ctx: &mut Ctx) -> Res {
	let eps = if ty == Ty::F32 { 1e-5 } else { 1e-11 };
	let (gens, out) = run::<L, R>(c, eps)?;
	let samples = c.samples.max(1) as usize;
	let total = c.generations.max(1) as usize * c.iterations.max(1) as usize;
	ctx.label(format!("{ty:?}"));
	if gens.len() > total {
		return Err(format!("{} generations, {total} allowed", gens.len()));
	}
	// Errors
	let done_calls = gens.len() * samples;
	match (&out, c.fail) {
		(Outcome::Err(e), Some((at, _))) => {
			if *e != format!("fail{at}") {
				return Err(format!("error {e} reported, fail{at} happened"));
			}
			ctx.label("error-propagated");
			ctx.nontrivial = true;
			return Ok(());
		}
		(Outcome::Err(e), None) => return Err(format!("error {e} reported, none happened")),
		(Outcome::Done(_), Some((at, _))) if (at as usize) < done_calls => {
			return Err(format!(
				"annealer call {at} failed and solve succeeded after {done_calls} calls"
			));
		}
		_ => {}
	}
	let Outcome::Done(shot) = out else { unreachable!() };
	let as_values = |st: &Vec<bool>, index: &BTreeMap<u8, usize>| -> BTreeMap<u8, bool> {
		index.iter().map(|(l, i)| (*l, st[*i])).collect()
	};
	let index = {
		let labels = label_map::<L>(c.nvars());
		let expr = build::<L, R>(&c.expr(), 1.0);
		with_solver(expr, c.feed(), ScriptGen::new(|_, _| unreachable!()), |s| {
			probe(s, R::from_f64(c.strength()), &labels)
		})?
		.index
	};
	// Every generation but the last must have gone on for a reason.
	let last = gens.len() - 1;
	for (g, info) in gens.iter().enumerate() {
		ctx.sub += 1;
		if g < last && info.viol.iter().all(|v| v.is_empty()) {
			return Err(format!(
				"the best sample of generation {g} satisfies every constraint, and the run went on"
			));
		}
	}
	let li = &gens[last];
	if li.viol.iter().all(|v| v.is_empty()) {
		if !shot.unsat.is_empty() {
			return Err(format!(
				"the best sample of the last generation satisfies every constraint, {:?} reported",
				shot.unsat
			));
		}
		if !li.best.iter().any(|st| as_values(st, &index) == shot.values) {
			return Err(format!(
				"the returned solution is not the best sample (energy {}) of the last generation",
				li.energy
			));
		}
	}
	if shot.unsat.is_empty() {
		if !li.viol.iter().any(|v| v.is_empty()) {
			return Err("reported feasible, but the last best sample is not".into());
		}
	} else if gens.len() < total {
		return Err(format!(
			"gave up with unsatisfied constraints after {} of {total} generations",
			gens.len()
		));
	}
	// The returned solution is the best sample of some generation, reported
	// with that generation's energy and violations.
	let mut sorted = shot.unsat.clone();
	sorted.sort_unstable();
	let mut found = false;
	let mut why = String::from("it is no generation's best sample");
	let per = c.generations.max(1) as usize;
	let tail = last / per * per;
	for info in gens.iter().rev() {
		for (st, v) in info.best.iter().zip(info.viol.iter()) {
			if as_values(st, &index) == shot.values {
				let scale: f64 = info.model.lin.iter().map(|v| v.abs()).sum::<f64>()
					+ info.model.quad.values().map(|v| v.abs()).sum::<f64>();
				if !close(shot.energy, info.energy + info.offset, scale, eps * 10.0) {
					why = format!(
						"its energy is {}, reported as {}",
						info.energy + info.offset,
						shot.energy
					);
				} else if *v != sorted {
					why = format!("it violates {v:?}, reported {sorted:?}");
				} else if let (false, Some(g)) = (
					sorted.is_empty(),
					// Whether the constant term counts in comparisons between
					// generations is left open.
					gens[tail..].iter().position(|o| {
						let m = 1e-5 * (1.0 + scale + o.energy.abs() + info.offset.abs());
						o.energy < info.energy - m
							&& o.energy + o.offset < info.energy + info.offset - m
					}),
				) {
					why = format!(
						"its energy is {} (constant {}), while generation {} found {} (constant {})",
						info.energy,
						info.offset,
						tail + g,
						gens[tail + g].energy,
						gens[tail + g].offset
					);
				} else {
					found = true;
				}
			}
		}
	}
	if !found {
		return Err(format!("the returned solution is wrong: {why}"));
	}
	ctx.label(if shot.unsat.is_empty() { "feasible" } else { "infeasible" });
	ctx.label(format!("generation{}", last.min(5)));
	ctx.nontrivial_if(samples >= 2 && (c.blocks.is_empty() || last > 0));
	Ok(())
}

fn shape(gens: &[GenInfo], out: &Outcome) -> String {
	match out {
		Outcome::Done(s) => format!(
			"{} generations, energy {}, values {:?}, unsatisfied {:?}, field {:?}, {:?}",
			gens.len(),
			s.energy,
			s.values,
			s.unsat,
			s.field,
			s.view_energy
		),
		Outcome::Err(e) => format!("error {e}"),
	}
}

fn threads_check<L: Label, R: Real>(c: &HistCase, ty: Ty, ctx: &mut Ctx) -> Res {
	let eps = if ty == Ty::F32 { 1e-5 } else { 1e-11 };
	let mut first: Option<(usize, String)> = None;
	for threads in [1usize, 2, 3, 8, 16] {
		let pool = rayon::ThreadPoolBuilder::new()
			.num_threads(threads)
			.build()
			.unwrap();
		for rep in 0..2u64 {
			let mut c2 = c.clone();
			// different timing, same answers
			c2.delay = if rep == 0 { 0 } else { c.delay };
			let (gens, out) = pool.install(|| run::<L, R>(&c2, eps))?;
			let shape = shape(&gens, &out);
			ctx.sub += 1;
			match &first {
				None => first = Some((threads, shape)),
				Some((t0, f)) => {
					if *f != shape {
						return Err(format!(
							"with {t0} threads: {f}; with {threads} threads: {shape}"
						));
					}
				}
			}
		}
	}
	if let (Some((_, alone)), 0) = (first, mix(c.seed ^ 3) % 3) {
		// Several calls at the same time, on one problem and one pool.
		let model = build::<L, R>(&c.expr(), 1.0).compile().feed_dict(c.feed::<R>());
		let threads = 2 + (mix(c.seed ^ 4) % 5) as usize;
		let pool = rayon::ThreadPoolBuilder::new()
			.num_threads(threads)
			.build()
			.unwrap();
		let all: Vec<Result<String, String>> = pool.install(|| {
			(0..4u16)
				.into_par_iter()
				.map(|k| {
					let mut c2 = c.clone();
					c2.delay = c.delay / (k + 1);
					let mut s = rustqubo::solve::SimpleSolver::with_solver(
						&model,
						ScriptGen::new(|_, _| unreachable!()),
					);
					run_on::<L, R>(&c2, &mut s, eps).map(|(gens, out)| shape(&gens, &out))
				})
				.collect()
		});
		for got in all {
			let got = got?;
			ctx.sub += 1;
			if got != alone {
				return Err(format!(
					"alone: {alone}; one of 4 calls at the same time on {threads} threads: {got}"
				));
			}
		}
		ctx.label("concurrent");
	}
	ctx.label(format!("samples{}", c.samples));
	ctx.nontrivial_if(c.samples >= 2);
	Ok(())
}

fn strat(ncons: std::ops::RangeInclusive<usize>, fails: bool, gens: u8, ints: bool) -> BoxedStrategy<HistCase> {
	strat_of(ncons, 5, 5, fails, gens, ints)
}

fn strat_of(
	ncons: std::ops::RangeInclusive<usize>,
	labels: u8,
	free: usize,
	fails: bool,
	gens: u8,
	ints: bool,
) -> BoxedStrategy<HistCase> {
	let block = (0u8..labels, 0u8..4, 0u8..3).prop_map(|(label, kind, coef)| Block { label, kind, coef });
	let ty = if ints {
		prop_oneof![
			4 => Just(Ty::F64),
			2 => Just(Ty::F32),
			2 => Just(Ty::I32),
			1 => Just(Ty::I64),
			1 => Just(Ty::I128),
		]
		.boxed()
	} else {
		prop_oneof![Just(Ty::F64), Just(Ty::I32)].boxed()
	};
	(
		(
			proptest::collection::vec(block, ncons),
			proptest::collection::vec(-9i8..=9, 1..8),
			proptest::collection::vec((-9i8..=9, -9i8..=9), 0..=free),
			ty,
			prop_oneof![3 => Just(Lb::Fuel), 1 => Just(Lb::Str), 1 => Just(Lb::Pair)],
		),
		(
			prop_oneof![2 => 1u16..20, 4 => 20u16..1000],
			prop_oneof![12 => 1u8..6, 1 => 6u8..40],
			1u8..5,
			1u8..=gens,
			0u8..8,
			any::<u64>(),
			prop_oneof![12 => 1u8..4, 1 => 4u8..48],
			if fails {
				proptest::option::weighted(0.5, (0u16..12, any::<bool>())).boxed()
			} else {
				Just(None).boxed()
			},
			any::<u16>(),
			proptest::option::weighted(0.3, (0u8..6, 0u8..6)),
			(proptest::bool::weighted(0.15), prop_oneof![3 => Just(0i8), 1 => -40i8..=20]),
		),
	)
		.prop_filter("something to solve", |((b, _, f, ..), _)| b.len() + f.len() > 0)
		.prop_map(
			|(
				(blocks, obj, free, ty, lb),
				(strength, samples, iterations, generations, feasible, seed, states, fail, delay, cubic, (descent, mag)),
			)| {
				HistCase {
					blocks,
					obj,
					free,
					ty,
					lb,
					strength,
					samples,
					iterations,
					generations,
					feasible,
					seed,
					states,
					fail,
					delay: delay % 400,
					cubic,
					descent,
					mag,
				}
			},
		)
		.boxed()
}

struct WeightsLeg {
	wide: bool,
}
impl Leg for WeightsLeg {
	type Case = HistCase;
	fn name(&self) -> &'static str {
		if self.wide {
			"many-labels"
		} else {
			"weights"
		}
	}
	fn rule(&self) -> &'static str {
		if self.wide {
			return "As 'weights', with 6 to 45 constraints under up to 60 labels, up to 40 other variables and up to 150 generations.";
		}
		"problems with up to 7 constraints under up to 5 labels, solved by an annealer with scripted answers for up to 4 attempts of up to 30 generations; the weight of every label is read off the model of every generation; non-trivial = at least 2 labels and the weights moved"
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.wide {
			t.pick(600, 12_000)
		} else {
			t.pick(40_000, 300_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<HistCase> {
		if self.wide {
			return strat_of(6..=45, 60, 40, false, 150, true)
				.prop_map(|mut c| {
					// the models are large
					c.samples = c.samples % 3 + 1;
					c.states = c.states.min(8);
					let small = c.nvars() < 60;
					c.iterations = c.iterations.min(if small { 3 } else { 1 });
					c.generations = c.generations.min(if small { 150 } else { 40 });
					c
				})
				.boxed();
		}
		strat(1..=7, false, 30, true)
	}
	fn check(&self, c: &HistCase, ctx: &mut Ctx) -> Res {
		if c.blocks.is_empty() {
			return Ok(());
		}
		let mut c = c.clone();
		c.delay = 0;
		if c.feasible < 6 {
			c.feasible = 0;
		}
		dispatch!(c.lb, c.ty, weights_check(&c, c.ty, ctx))
	}
}

pub fn c04() -> Property {
	Property {
		id: "C04",
		legs: vec![Box::new(WeightsLeg { wide: false }), Box::new(WeightsLeg { wide: true }), crate::props::large::leg(crate::props::large::Part::Weights, 80)],
		assumptions: &[
			"coeff_strength positive",
			"whether a later generation counts as an improvement is judged only where the energies with and without the constant term agree on it",
		],
	}
}

struct SelectLeg {
	name: &'static str,
	cons: bool,
	fails: bool,
	wide: bool,
}
impl Leg for SelectLeg {
	type Case = HistCase;
	fn name(&self) -> &'static str {
		self.name
	}
	fn rule(&self) -> &'static str {
		if self.wide {
			return "As 'constrained' and 'errors', with up to 30 constraints, 60 other variables, 255 annealers per generation and 40 generations.";
		}
		"scripted annealers returning 0 to 47 states each, 1 to 39 annealers per generation, some samples feasible, optionally one failing annealer; the returned solution against the samples of every generation; non-trivial = at least 2 annealers and (no constraints or more than one generation), or an error"
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.wide {
			t.pick(400, 10_000)
		} else {
			t.pick(30_000, 150_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<HistCase> {
		if self.wide {
			return (strat_of(0..=30, 40, 40, true, 40, true), 1u16..300, 0u16..2000)
				.prop_map(|(mut c, samples, fail)| {
					c.samples = samples.min(255) as u8;
					let work = c.samples as usize * c.nvars() as usize;
					let most = (6_000 / (work + 1)).clamp(2, 40);
					c.iterations = c.iterations.min(2);
					c.generations = c.generations.min(most as u8);
					c.states = c.states.min(if work > 2_000 { 3 } else { 12 });
					if let Some(f) = &mut c.fail {
						f.0 = fail;
					}
					c
				})
				.boxed();
		}
		strat(if self.cons { 1..=5 } else { 0..=0 }, self.fails, 6, true)
	}
	fn check(&self, c: &HistCase, ctx: &mut Ctx) -> Res {
		if c.nvars() == 0 {
			return Ok(());
		}
		let mut c = c.clone();
		c.delay = 0;
		dispatch!(c.lb, c.ty, select_check(&c, c.ty, ctx))
	}
}

/// Problems whose constraints have no labels, solved by `solve`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlainCase {
	nv: u8,
	lin: Vec<i8>,
	quad: Vec<(u8, u8, i8)>,
	con: Vec<(u8, u8)>,
	states: Vec<u64>,
	samples: u8,
	generations: u8,
	fail: Option<u8>,
	int: bool,
}

fn plain_run<R: Real>(c: &PlainCase, ctx: &mut Ctx) -> Res {
	use rustqubo::Expr;
	type X<R> = Expr<(), String, (), R>;
	let q = |i: u8| X::<R>::Binary(format!("x{}", i % c.nv));
	let mut e = X::<R>::Number(R::from_i32(0));
	for i in 0..c.nv {
		let w = c.lin[i as usize % c.lin.len()];
		e = e + X::Number(R::from_i32(w as i32)) * q(i);
	}
	for (i, j, w) in c.quad.iter() {
		e = e + X::Number(R::from_i32(*w as i32)) * q(*i) * q(*j);
	}
	for (i, j) in c.con.iter() {
		e = e + X::Constraint {
			label: (),
			expr: Box::new(q(*i) * q(*j)),
		};
	}
	let model = e.compile();
	let go = |labelled: bool| -> Result<(String, Vec<Qubo>), String> {
		let c2 = c.clone();
		let gen = ScriptGen::new(move |k, m| match c2.fail {
			Some(f) if f as usize == k => Answer::SolveErr(format!("fail{k}")),
			_ => Answer::States(
				c2.states
					.iter()
					.map(|s| {
						let h = mix(*s ^ k as u64);
						(0..m.n).map(|i| (h >> (i % 64)) & 1 == 1).collect()
					})
					.collect(),
			),
		});
		let mut s = rustqubo::solve::SimpleSolver::with_solver(&model, gen.clone());
		s.samples = c.samples.max(1) as usize;
		s.generations = c.generations.max(1) as usize;
		s.iterations = 2;
		let out = if labelled {
			s.solve_with_constraints().map(|(e, v, u)| {
				if u.len() > c.con.len() {
					panic!("more violations than constraints");
				}
				(e, v)
			})
		} else {
			s.solve()
		};
		let out = match out {
			Err(e) => format!("error {e}"),
			Ok((e, v)) => {
				let keys: BTreeSet<&String> = v.keys().collect();
				if keys.len() != c.nv as usize {
					return Err(format!("{} variables, the solution has {keys:?}", c.nv));
				}
				let vals: Vec<String> = keys
					.into_iter()
					.map(|k| format!("{k} {:?} {} {:?}", v.get(k), v[k], v.local_field(k)))
					.collect();
				format!("{e} {:?} {} {vals:?}", v.energy(), v.occurrences())
			}
		};
		Ok((out, gen.seen()))
	};
	let (a, sa) = go(false)?;
	let (b, sb) = go(true)?;
	ctx.sub += 1;
	if a != b {
		return Err(format!("solve gives {a}, solve_with_constraints {b}"));
	}
	if sa.len() != sb.len() || sa.iter().zip(sb.iter()).any(|(x, y)| x.lin != y.lin || x.quad != y.quad) {
		return Err("solve asks for other anneals than solve_with_constraints".into());
	}
	ctx.label(if a.starts_with("error") { "error" } else { "answer" });
	ctx.nontrivial_if(c.nv >= 2 && c.states.len() >= 2);
	Ok(())
}

struct PlainLeg;
impl Leg for PlainLeg {
	type Case = PlainCase;
	fn name(&self) -> &'static str {
		"unlabelled"
	}
	fn rule(&self) -> &'static str {
		"problems over up to 9 variables without placeholders and constraint labels, answered by solve and by solve_with_constraints from the same scripted annealer: same answers, errors and anneals; non-trivial = at least 2 variables and 2 states"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(6_000, 60_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<PlainCase> {
		(
			1u8..10,
			proptest::collection::vec(-9i8..=9, 1..10),
			proptest::collection::vec((0u8..10, 0u8..10, -9i8..=9), 0..12),
			proptest::collection::vec((0u8..10, 0u8..10), 0..4),
			proptest::collection::vec(any::<u64>(), 1..6),
			1u8..5,
			1u8..6,
			proptest::option::weighted(0.2, 0u8..8),
			any::<bool>(),
		)
			.prop_map(|(nv, lin, quad, con, states, samples, generations, fail, int)| PlainCase {
				nv,
				lin,
				quad,
				con,
				states,
				samples,
				generations,
				fail,
				int,
			})
			.boxed()
	}
	fn check(&self, c: &PlainCase, ctx: &mut Ctx) -> Res {
		if c.int {
			plain_run::<i32>(c, ctx)
		} else {
			plain_run::<f64>(c, ctx)
		}
	}
}

pub fn c06() -> Property {
	Property {
		id: "C06",
		legs: vec![
			crate::props::large::leg(crate::props::large::Part::Choice, 200),
			Box::new(SelectLeg {
				name: "unconstrained",
				cons: false,
				fails: false,
				wide: false,
			}),
			Box::new(SelectLeg {
				name: "constrained",
				cons: true,
				fails: false,
				wide: false,
			}),
			Box::new(SelectLeg {
				name: "errors",
				cons: true,
				fails: true,
				wide: false,
			}),
			Box::new(SelectLeg {
				name: "many",
				cons: true,
				fails: true,
				wide: true,
			}),
			crate::props::exact::problems("C06"),
			Box::new(PlainLeg),
		],
		assumptions: &[
			"at least one sample per generation",
			"between samples of equal energy any may be returned",
		],
	}
}

struct ThreadsLeg;
impl Leg for ThreadsLeg {
	type Case = HistCase;
	fn name(&self) -> &'static str {
		"threads"
	}
	fn rule(&self) -> &'static str {
		"the same scripted run in pools of 1, 2, 3, 8 and 16 threads, with and without random delays in the annealers, and in a third of the cases 4 runs at once on one compiled problem and pool; non-trivial = at least 2 annealers per generation"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(5000, 20_000)
	}
	fn shrink_iters(&self) -> u32 {
		200
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<HistCase> {
		strat(0..=4, true, 5, false)
			.prop_map(|mut c| {
				c.samples = match c.seed % 10 {
					0 => 17 + (c.seed / 10 % 80) as u8,
					_ => c.samples % 6 * 3 + 1,
				};
				// Which product a helper variable stands for may differ between
				// two compilations, so scripted answers for it would too.
				c.cubic = None;
				c
			})
			.boxed()
	}
	fn check(&self, c: &HistCase, ctx: &mut Ctx) -> Res {
		if c.nvars() == 0 {
			return Ok(());
		}
		dispatch!(c.lb, c.ty, threads_check(c, c.ty, ctx))
	}
}

pub fn c23() -> Property {
	Property {
		id: "C23",
		legs: vec![Box::new(ThreadsLeg), crate::props::large::leg(crate::props::large::Part::Threads, 80)],
		assumptions: &[
			"the annealers answer deterministically",
			"thread schedules are sampled (pool sizes, delays), not enumerated",
		],
	}
}
