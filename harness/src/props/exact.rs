//! Integers too large for an f64: weights, energies, local fields, compiled
//! models, placeholders and the choice between samples have to be exact.
use crate::ast::*;
use crate::capture::*;
use crate::fw::*;
use annealers::model::{
	FixedSingleModelView, FixedSingleQuadricModel, SingleModel, SingleModelView,
};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::variable::Real;
use proptest::prelude::*;
use rustqubo::Expr;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub trait Int: Real {
	fn of(v: i128) -> Self;
	fn big(self) -> i128;
}
impl Int for i64 {
	fn of(v: i128) -> i64 {
		i64::try_from(v).expect("the case fits its type")
	}
	fn big(self) -> i128 {
		self as i128
	}
}
impl Int for i128 {
	fn of(v: i128) -> i128 {
		v
	}
	fn big(self) -> i128 {
		self
	}
}

/// hi * 2^shift + lo
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Num {
	hi: i8,
	shift: u8,
	lo: i8,
}

impl Num {
	fn value(&self, wide: bool, room: u8) -> i128 {
		let s = if wide {
			self.shift % (118 - room)
		} else {
			self.shift % (54 - room)
		};
		((self.hi as i128) << s) + self.lo as i128
	}
}

fn num() -> BoxedStrategy<Num> {
	let shift = prop_oneof![2 => 44u8..54, 1 => 0u8..118, 2 => 54u8..118];
	(-60i8..=60, shift, prop_oneof![1 => -3i8..=3, 1 => any::<i8>()])
		.prop_flat_map(|(hi, shift, lo)| {
			let full = Num { hi, shift, lo };
			let small = Num { hi: 0, shift, lo };
			prop_oneof![2 => Just(full), 1 => Just(small)]
		})
		.boxed()
}

fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e3779b97f4a7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

// ---------------------------------------------------------------------------
// Models

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigModelCase {
	wide: bool,
	/// 0: 0/1, 1: -1/+1, else two values
	node: u8,
	vals: (i8, i8),
	size: u8,
	terms: Vec<(Vec<u8>, Num)>,
	states: Vec<u64>,
}

impl BigModelCase {
	fn value(&self, b: bool) -> i128 {
		match self.node {
			0 => b as i128,
			1 => 2 * (b as i128) - 1,
			_ => (if b { self.vals.0 } else { self.vals.1 }) as i128,
		}
	}
	fn energy(&self, t: &BTreeMap<BTreeSet<usize>, i128>, s: &[bool]) -> i128 {
		t.iter()
			.map(|(k, w)| w * k.iter().map(|i| self.value(s[*i])).product::<i128>())
			.sum()
	}
}

#[derive(Clone, Copy, PartialEq)]
enum Part {
	Dense,
	Sparse,
	Energy,
}

fn solutions<M: SingleModelView>(
	what: &str,
	m: &M,
	c: &BigModelCase,
	t: &BTreeMap<BTreeSet<usize>, i128>,
	n: usize,
) -> Res
where
	<M::Node as SingleNode>::RealType: Int,
{
	let mut seen: Vec<(i128, SingleSolution<M::Node>)> = vec![];
	for seed in c.states.as_slice().iter() {
		let s: Vec<bool> = (0..n).map(|i| mix(*seed ^ i as u64) & 8 != 0).collect();
		let want = c.energy(t, &s);
		let sol = SingleSolution::<M::Node>::from_vec(&s);
		let e = sol.calculate_energy(m).big();
		let sol = sol.with_energy(m);
		let e2 = sol.energy.map(|e| e.big());
		if e != want || e2 != Some(want) {
			return Err(format!("{what}: the energy of {s:?} is {want}, got {e} and {e2:?}"));
		}
		let f = SingleSolution::<M::Node>::from_vec(&s).calculate_local_field(m);
		for i in 0..n {
			let mut s2 = s.clone();
			s2[i] = !s2[i];
			let d = c.energy(t, &s2) - want;
			if f[i].big() != d {
				return Err(format!(
					"{what}: flipping node {i} of {s:?} changes the energy by {d}, its local field is {}",
					f[i]
				));
			}
		}
		for (w, o) in seen.as_slice().iter() {
			if sol.compare_energy(o) != Some(want.cmp(w)) {
				return Err(format!(
					"{what}: energies {want} and {w} compare as {:?}",
					sol.compare_energy(o)
				));
			}
		}
		seen.push((want, sol));
	}
	Ok(())
}

fn sparse<N: SingleNode, O: Order>(
	what: &str,
	m: &SingleModel<N, O>,
	t: &BTreeMap<BTreeSet<usize>, i128>,
) -> Res
where
	N::RealType: Int,
{
	let mut got = BTreeMap::new();
	for p in m.prods() {
		got.insert(p.iter().collect::<BTreeSet<usize>>(), m.get_weight(&p).big());
	}
	if got != *t {
		return Err(format!("{what}: weights {got:?} instead of {t:?}"));
	}
	Ok(())
}

fn model_run<R: Int, N: SingleNode<RealType = R>>(
	c: &BigModelCase,
	part: Part,
	node: N,
	ctx: &mut Ctx,
) -> Res {
	let n = c.size.clamp(1, 8) as usize;
	let mut dense = FixedSingleQuadricModel::new(node.clone(), n);
	let mut two = SingleModel::new(node.clone(), Quadric);
	let mut high = SingleModel::new(node, HighOrder::new(4));
	let mut td = BTreeMap::new();
	let mut th = BTreeMap::new();
	for (k, w) in c.terms.as_slice().iter() {
		let set: BTreeSet<usize> = k.as_slice().iter().take(4).map(|i| *i as usize % n).collect();
		if set.is_empty() {
			continue;
		}
		// products of four values up to 3, and the sum of all terms
		let w = w.value(c.wide, 14);
		high.add_weight(set.clone(), R::of(w));
		*th.entry(set.clone()).or_insert(0i128) += w;
		if set.len() <= 2 {
			let v: Vec<usize> = set.iter().cloned().collect();
			let (i, j) = (v[0], v[v.len() - 1]);
			if w % 2 == 0 {
				dense.add_weight(i, j, R::of(w));
			} else {
				dense.add_weight(j, i, R::of(w));
			}
			two.add_weight([i, j], R::of(w));
			*td.entry(set).or_insert(0i128) += w;
		}
	}
	match part {
		Part::Dense => {
			for i in 0..n {
				for j in i..n {
					let k: BTreeSet<usize> = [i, j].into_iter().collect();
					let want = td.get(&k).copied().unwrap_or(0);
					let a = FixedSingleModelView::get_weight(&dense, &[i, j]).big();
					let b = SingleModelView::get_weight(&dense, &[i, j]).big();
					if a != want || b != want {
						return Err(format!(
							"weight of ({i}, {j}) is {a} and {b}, {want} was added up"
						));
					}
				}
			}
		}
		Part::Sparse => {
			sparse("sparse quadratic", &two, &td)?;
			sparse("sparse of any order", &high, &th)?;
		}
		Part::Energy => {
			solutions("dense", &dense, c, &td, n)?;
			solutions("sparse quadratic", &two, c, &td, n)?;
			solutions("sparse of any order", &high, c, &th, n)?;
		}
	}
	ctx.sub += 1;
	let huge = td.values().any(|w| w.abs() > 1 << 53);
	ctx.label(if c.wide { "i128" } else { "i64" });
	ctx.nontrivial_if(huge && n >= 2 && td.len() >= 2);
	Ok(())
}

pub struct BigModelLeg(&'static str);
impl BigModelLeg {
	fn part(&self) -> Part {
		match self.0 {
			"C09" => Part::Dense,
			"C10" => Part::Sparse,
			_ => Part::Energy,
		}
	}
}
impl Leg for BigModelLeg {
	type Case = BigModelCase;
	fn name(&self) -> &'static str {
		"large-integers"
	}
	fn rule(&self) -> &'static str {
		"models of up to 8 nodes and 20 terms of i64 or i128 weights, most of them far beyond 2^53, where a detour over f64 would show; everything is compared in exact integers; non-trivial = at least 2 products with a weight beyond 2^53"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(30_000, 1_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<BigModelCase> {
		(
			any::<bool>(),
			0u8..3,
			(-3i8..=3, -3i8..=3),
			1u8..=8,
			proptest::collection::vec(
				(proptest::collection::vec(0u8..8, 1..5), num()),
				1..20,
			),
			proptest::collection::vec(any::<u64>(), 1..5),
		)
			.prop_map(|(wide, node, vals, size, terms, states)| BigModelCase {
				wide,
				node,
				vals,
				size,
				terms,
				states,
			})
			.boxed()
	}
	fn check(&self, c: &BigModelCase, ctx: &mut Ctx) -> Res {
		fn go<R: Int>(c: &BigModelCase, p: Part, ctx: &mut Ctx) -> Res {
			match c.node {
				0 => model_run::<R, _>(c, p, Binary::<R>::new(), ctx),
				1 => model_run::<R, _>(c, p, Spin::<R>::new(), ctx),
				_ => {
					let n = TwoVal::<R>::new(R::of(c.vals.0 as i128), R::of(c.vals.1 as i128));
					model_run::<R, _>(c, p, n, ctx)
				}
			}
		}
		if c.wide {
			go::<i128>(c, self.part(), ctx)
		} else {
			go::<i64>(c, self.part(), ctx)
		}
	}
}

pub fn models(id: &'static str) -> Box<dyn DynLeg> {
	Box::new(BigModelLeg(id))
}

// ---------------------------------------------------------------------------
// Problems

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Term {
	vars: Vec<u8>,
	c: Num,
	/// 0: a number, 1: a placeholder, 2: two numbers added, 3: a number of which
	/// a part is multiplied with a placeholder
	form: u8,
	pen: bool,
	spin: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
	wide: bool,
	nv: u8,
	terms: Vec<Term>,
	cubic: bool,
	early: bool,
	lb: u8,
	states: Vec<u64>,
	base: u64,
	split: u8,
}

#[derive(Clone, Copy, PartialEq)]
enum Goal {
	Energy,
	Penalty,
	Placeholder,
	Report,
	Select,
}

struct Plain {
	vars: BTreeSet<u8>,
	c: i128,
	spin: Option<u8>,
}

impl BigCase {
	fn plain(&self, goal: Goal) -> Vec<(Plain, u8, bool)> {
		let mut out = vec![];
		let top = if self.cubic && self.wide && goal != Goal::Select { 4 } else { 2 };
		for t in self.terms.as_slice().iter() {
			let vars: BTreeSet<u8> = t
				.vars
				.as_slice()
				.iter()
				.take(top)
				.map(|v| v % self.nv)
				.collect();
			// sums of up to 12 terms, twice for a spin; the helper variables of
			// high degrees need room too
			let c = t.c.value(self.wide, if top > 2 { 30 } else { 14 });
			let spin = if t.spin { vars.iter().next().copied() } else { None };
			let form = if goal == Goal::Placeholder { t.form % 4 } else { t.form % 4 / 2 * 2 };
			out.push((Plain { vars, c, spin }, form, t.pen && goal == Goal::Penalty));
		}
		out
	}
	fn value(p: &[(Plain, u8, bool)], x: &[bool]) -> i128 {
		p.iter()
			.map(|(t, ..)| {
				t.vars.iter().fold(t.c, |m, v| {
					let b = x[*v as usize];
					m * match t.spin {
						Some(s) if s == *v => 2 * (b as i128) - 1,
						_ => b as i128,
					}
				})
			})
			.sum()
	}
}

fn problem<L: Label, R: Int>(c: &BigCase, goal: Goal) -> (LExpr<L, R>, HashMap<u8, R>) {
	let mut feed = HashMap::new();
	let mut e: LExpr<L, R> = Expr::Number(R::of(0));
	for (k, (t, form, pen)) in c.plain(goal).into_iter().enumerate() {
		let p = k as u8;
		let part = t.c / (2 + c.split as i128 % 5);
		let mut m: LExpr<L, R> = match form {
			1 if t.c > 0 => {
				feed.insert(p, R::of(t.c));
				Expr::Placeholder(p)
			}
			2 => Expr::Number(R::of(part)) + Expr::Number(R::of(t.c - part)),
			3 => {
				// q * p + rest
				let v = Ord::max(part.abs() >> 3, 1);
				feed.insert(p, R::of(v));
				let q = t.c / v;
				Expr::Number(R::of(q)) * Expr::Placeholder(p) + Expr::Number(R::of(t.c - q * v))
			}
			_ => Expr::Number(R::of(t.c)),
		};
		for v in t.vars.iter() {
			m = m * if t.spin == Some(*v) {
				Expr::Spin(L::of(*v))
			} else {
				Expr::Binary(L::of(*v))
			};
		}
		if pen {
			e = Expr::WithPenalty {
				expr: Box::new(e),
				penalty: Box::new(m),
			};
		} else {
			e = e + m;
		}
	}
	(e, feed)
}

struct BigModel {
	n: usize,
	w: BTreeMap<(usize, usize), i128>,
}
impl BigModel {
	fn energy(&self, s: &[bool]) -> i128 {
		self.w
			.iter()
			.filter(|((i, j), _)| s[*i] && s[*j])
			.map(|(_, w)| *w)
			.sum()
	}
}

fn big_run<L: Label, R: Int>(c: &BigCase, goal: Goal, ctx: &mut Ctx) -> Res {
	let plain = c.plain(goal);
	let (expr, feed) = problem::<L, R>(c, goal);
	let (expr, feed) = if c.early {
		(expr.feed_dict(&feed), HashMap::new())
	} else {
		(expr, feed)
	};
	let labels = label_map::<L>(c.nv);
	let vars: BTreeSet<u8> = plain.iter().flat_map(|(t, ..)| t.vars.iter().cloned()).collect();
	let degree = plain.iter().fold(0, |m, t| Ord::max(m, t.0.vars.len()));
	with_solver(expr, feed, ScriptGen::new(|_, _| unreachable!()), |s| -> Res {
		let p = probe(s, R::of(50), &labels)?;
		let got: BTreeSet<u8> = p.index.keys().cloned().collect();
		if got != vars {
			return Err(format!("variables of the problem {vars:?}, of its solutions {got:?}"));
		}
		let n = p.qubo.n;
		let place = |x: &[bool], rest: u64| -> Vec<bool> {
			let mut st: Vec<bool> = (0..n).map(|i| (rest >> (i % 64)) & 1 == 1).collect();
			for (l, i) in p.index.iter() {
				st[*i] = x[*l as usize];
			}
			st
		};
		// One sample of every state in turn, the model as the annealer sees it.
		let mut ask = |states: Vec<Vec<bool>>| -> Result<(i128, BTreeMap<u8, bool>, Option<i128>, BTreeMap<u8, i128>, BigModel), String> {
			let gen = ScriptGen::exact(move |_, _| Answer::States(states.clone()));
			s.solver_generator = gen.clone();
			s.samples = 1;
			s.iterations = 1;
			s.generations = 1;
			let (e, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let mut vals = BTreeMap::new();
			let mut field = BTreeMap::new();
			for (l, k) in labels.iter() {
				if let Some(v) = view.get(l) {
					vals.insert(*k, v);
					if let Some(f) = view.local_field(l) {
						field.insert(*k, f.big());
					}
				}
			}
			let w = gen.big();
			let m = BigModel { n, w };
			Ok((e.big(), vals, view.energy().map(|e| e.big()), field, m))
		};
		let mut huge = false;
		let xs: Vec<Vec<bool>> = (0..1u32 << c.nv)
			.map(|k| (0..c.nv).map(|i| (k >> i) & 1 == 1).collect())
			.collect();
		let (offset, _, _, _, m) = ask(vec![place(&vec![false; c.nv as usize], 0)])?;
		match goal {
			Goal::Energy | Goal::Penalty | Goal::Placeholder => {
				let open: Vec<usize> = (0..n).filter(|i| !p.index.values().any(|v| v == i)).collect();
				if open.len() > 12 || (degree <= 2 && !open.is_empty()) {
					if degree <= 2 {
						return Err(format!("{} helper variables for degree {degree}", open.len()));
					}
					ctx.label("too-wide-to-minimise");
					return Ok(());
				}
				for x in xs.as_slice().iter() {
					let want = BigCase::value(&plain, x);
					huge |= want.abs() > 1 << 53;
					let mut st = place(x, 0);
					let mut best = i128::MAX;
					for k in 0..1u32 << open.len() {
						for (b, i) in open.as_slice().iter().enumerate() {
							st[*i] = (k >> b) & 1 == 1;
						}
						let e = m.energy(&st);
						if e < best {
							best = e;
						}
					}
					ctx.sub += 1;
					if best + offset != want {
						return Err(format!(
							"the energy of {x:?} is {want}, the compiled model gives {}",
							best + offset
						));
					}
				}
			}
			Goal::Report => {
				for seed in c.states.as_slice().iter() {
					let x: Vec<bool> = (0..c.nv).map(|i| mix(*seed ^ i as u64) & 4 != 0).collect();
					let st = place(&x, mix(*seed));
					let (e, vals, ve, field, m) = ask(vec![st.clone()])?;
					let me = m.energy(&st);
					huge |= me.abs() > 1 << 53;
					if ve != Some(me) || e != me + offset {
						return Err(format!(
							"the model's energy is {me} with {offset} set aside, reported {ve:?} and {e}"
						));
					}
					if degree <= 2 && e != BigCase::value(&plain, &x) {
						return Err(format!(
							"the energy at {x:?} is {}, reported {e}",
							BigCase::value(&plain, &x)
						));
					}
					for (l, i) in p.index.iter() {
						let mut s2 = st.clone();
						s2[*i] = !s2[*i];
						let d = m.energy(&s2) - me;
						if field.get(l) != Some(&d) {
							return Err(format!(
								"flipping {l} changes the energy by {d}, its local field is {:?}",
								field.get(l)
							));
						}
						if vals.get(l) != Some(&x[*l as usize]) {
							return Err(format!("variable {l} read back as {:?}", vals.get(l)));
						}
					}
					ctx.sub += 1;
				}
			}
			Goal::Select => {
				// Samples that agree on everything heavy.
				let heavy: BTreeSet<u8> = plain
					.iter()
					.filter(|(t, ..)| t.c.abs() > 1000)
					.flat_map(|(t, ..)| t.vars.iter().cloned())
					.collect();
				let base: Vec<bool> =
					(0..c.nv).map(|i| mix(c.base ^ i as u64) % 4 != 0).collect();
				let states: Vec<Vec<bool>> = c
					.states
					.as_slice()
					.iter()
					.map(|seed| {
						let x: Vec<bool> = (0..c.nv)
							.map(|i| {
								if heavy.contains(&i) {
									base[i as usize]
								} else {
									mix(*seed ^ i as u64) & 4 != 0
								}
							})
							.collect();
						place(&x, mix(*seed))
					})
					.collect();
				let es: Vec<i128> = states.as_slice().iter().map(|s| m.energy(s)).collect();
				let mut best = es[0];
				for e in es.as_slice().iter() {
					if *e < best {
						best = *e;
					}
				}
				let (e, vals, ve, _, _) = ask(states.clone())?;
				ctx.sub += 1;
				huge = best.abs() > 1 << 53 && es.as_slice().iter().any(|e| *e != best);
				if ve != Some(best) || e != best + offset {
					return Err(format!(
						"the samples have energies {es:?} (and {offset} set aside), reported {ve:?} and {e}"
					));
				}
				let fits = states.as_slice().iter().zip(es).any(|(s, e)| {
					e == best && p.index.iter().all(|(l, i)| vals.get(l) == Some(&s[*i]))
				});
				if !fits {
					return Err("the assignment returned is not that of a best sample".into());
				}
			}
		}
		ctx.label(if c.wide { "i128" } else { "i64" });
		ctx.label(format!("deg{degree}"));
		ctx.nontrivial_if(huge);
		Ok(())
	})
}

pub struct BigLeg(&'static str);
impl BigLeg {
	fn goal(&self) -> Goal {
		match self.0 {
			"C01" => Goal::Energy,
			"C02" => Goal::Placeholder,
			"C05" => Goal::Report,
			"C06" => Goal::Select,
			_ => Goal::Penalty,
		}
	}
}
impl Leg for BigLeg {
	type Case = BigCase;
	fn name(&self) -> &'static str {
		"large-integers"
	}
	fn rule(&self) -> &'static str {
		"problems over up to 6 variables with up to 12 terms of i64 or i128 coefficients, most of them far beyond 2^53, where a detour over f64 would show; compared in exact integers; non-trivial = an energy beyond 2^53 (and, for the choice between samples, two different energies)"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(12_000, 300_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<BigCase> {
		let term = (
			proptest::collection::vec(0u8..6, 0..5),
			num(),
			0u8..4,
			any::<bool>(),
			proptest::bool::weighted(0.2),
		)
			.prop_map(|(vars, c, form, pen, spin)| Term {
				vars,
				c,
				form,
				pen,
				spin,
			});
		let n = if self.goal() == Goal::Select { 1..40 } else { 1..5 };
		(
			(any::<bool>(), 1u8..=6, proptest::collection::vec(term, 1..12)),
			(proptest::bool::weighted(0.3), any::<bool>(), 0u8..3),
			(
				proptest::collection::vec(any::<u64>(), n),
				any::<u64>(),
				any::<u8>(),
			),
		)
			.prop_map(|((wide, nv, terms), (cubic, early, lb), (states, base, split))| BigCase {
				wide,
				nv,
				terms,
				cubic,
				early,
				lb,
				states,
				base,
				split,
			})
			.prop_filter("a variable", |c| {
				c.terms.as_slice().iter().any(|t| !t.vars.is_empty())
			})
			.boxed()
	}
	fn check(&self, c: &BigCase, ctx: &mut Ctx) -> Res {
		if !c.terms.as_slice().iter().any(|t| !t.vars.is_empty()) {
			return Ok(());
		}
		let g = self.goal();
		match (c.lb % 3, c.wide) {
			(0, false) => big_run::<FL, i64>(c, g, ctx),
			(0, true) => big_run::<FL, i128>(c, g, ctx),
			(1, false) => big_run::<String, i64>(c, g, ctx),
			(1, true) => big_run::<String, i128>(c, g, ctx),
			(_, false) => big_run::<(i32, i32), i64>(c, g, ctx),
			(_, true) => big_run::<(i32, i32), i128>(c, g, ctx),
		}
	}
}

pub fn problems(id: &'static str) -> Box<dyn DynLeg> {
	Box::new(BigLeg(id))
}
