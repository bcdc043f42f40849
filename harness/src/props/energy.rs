//! C01 (compilation keeps the energy), C02 (placeholders), C03 (constraint
//! reports), C05 (solution reports), C19 (penalties).
use crate::ast::*;
use crate::capture::*;
use crate::fw::*;
use annealers::variable::Real;
use proptest::prelude::*;
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
	I8,
	I16,
	I32,
	I64,
	I128,
	F32,
	F64,
}

impl Ty {
	pub fn is_float(self) -> bool {
		matches!(self, Ty::F32 | Ty::F64)
	}
	/// The type itself, or f64 when values of size `mag` would not fit.
	pub fn fit(self, mag: f64, high: bool) -> Ty {
		let lim = match (self, high) {
			(Ty::I8, false) => 40.0,
			(Ty::I8, true) => 0.0,
			(Ty::I16, false) => 2.0e3,
			(Ty::I16, true) => 20.0,
			(Ty::I32, false) => 1.0e7,
			(Ty::I32, true) => 2.0e3,
			(Ty::I64, false) => 1.0e12,
			(Ty::I64, true) => 1.0e7,
			(Ty::I128, _) => 1.0e12,
			(Ty::F32, false) => 1.0e5,
			(Ty::F32, true) => 200.0,
			(Ty::F64, _) => f64::INFINITY,
		};
		if mag <= lim {
			self
		} else {
			Ty::F64
		}
	}
	/// The type itself, or the next one when sums of size `sum` would not fit eight bits.
	pub fn room(self, sum: i64) -> Ty {
		if self == Ty::I8 && sum > 100 {
			Ty::I16
		} else {
			self
		}
	}
	pub fn eps(self) -> f64 {
		match self {
			Ty::F32 => 2e-5,
			_ => 1e-11,
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Lb {
	Fuel,
	Str,
	Pair,
}

pub fn arb_ty() -> BoxedStrategy<Ty> {
	prop_oneof![
		6 => Just(Ty::F64),
		3 => Just(Ty::I32),
		2 => Just(Ty::I64),
		1 => Just(Ty::I128),
		1 => Just(Ty::I16),
		1 => Just(Ty::I8),
		2 => Just(Ty::F32),
	]
	.boxed()
}
pub fn arb_lb() -> BoxedStrategy<Lb> {
	prop_oneof![4 => Just(Lb::Fuel), 1 => Just(Lb::Str), 1 => Just(Lb::Pair)].boxed()
}

/// Call `$f::<Label, Real>($args)` for the run-time choice of types.
#[macro_export]
macro_rules! dispatch {
	($lb:expr, $ty:expr, $f:ident ( $($a:expr),* )) => {
		match $lb {
			Lb::Fuel => dispatch!(@t FL, $ty, $f ( $($a),* )),
			Lb::Str => dispatch!(@t String, $ty, $f ( $($a),* )),
			Lb::Pair => dispatch!(@t (i32, i32), $ty, $f ( $($a),* )),
		}
	};
	(@t $l:ty, $ty:expr, $f:ident ( $($a:expr),* )) => {
		match $ty {
			Ty::I8 => $f::<$l, i8>($($a),*),
			Ty::I16 => $f::<$l, i16>($($a),*),
			Ty::I32 => $f::<$l, i32>($($a),*),
			Ty::I64 => $f::<$l, i64>($($a),*),
			Ty::I128 => $f::<$l, i128>($($a),*),
			Ty::F32 => $f::<$l, f32>($($a),*),
			Ty::F64 => $f::<$l, f64>($($a),*),
		}
	};
}

pub const NV: u8 = 16;

pub fn all_assignments(vars: &[u8], limit: usize, salt: u64) -> Vec<Vec<bool>> {
	let k = vars.len();
	let mut out = Vec::new();
	if k > 40 {
		let mut z = salt;
		for n in 0..limit {
			let mut x = vec![false; 256];
			for v in vars.iter() {
				z = z
					.wrapping_mul(6364136223846793005)
					.wrapping_add(1442695040888963407);
				// none, all, then more and less dense ones
				x[*v as usize] = match n {
					0 => false,
					1 => true,
					_ => ((z >> 33) % 8) < [4, 1, 7, 4][n % 4],
				};
			}
			out.push(x);
		}
		return out;
	}
	let total = 1u64 << k;
	let mut put = |bits: u64| {
		let mut x = vec![false; 256];
		for (i, v) in vars.iter().enumerate() {
			x[*v as usize] = (bits >> i) & 1 == 1;
		}
		out.push(x);
	};
	if total as usize <= limit {
		for bits in 0..total {
			put(bits);
		}
	} else {
		let mut z = salt;
		put(0);
		put(total - 1);
		for _ in 2..limit {
			z = z
				.wrapping_mul(6364136223846793005)
				.wrapping_add(1442695040888963407);
			put((z >> 20) % total);
		}
	}
	out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnergyCase {
	pub e: E,
	pub ty: Ty,
	pub lb: Lb,
	/// Coefficients are multiples of unit/4 for floating point types.
	pub quarter: bool,
	/// Coefficients are multiples of 2^mag for f64.
	#[serde(default)]
	pub mag: i8,
}

impl EnergyCase {
	/// (type, unit) actually used: floats where the values would not fit.
	pub fn plan(&self, w: f64) -> (Ty, f64) {
		let high = self.e.degree() > 2;
		let unit = if self.quarter && self.ty.is_float() { 0.25 } else { 1.0 };
		let unit = match self.ty {
			Ty::F64 => unit * (self.mag as f64).exp2(),
			_ => unit,
		};
		let mag = self.e.magnitude(unit, 1.0, w);
		let ty = self.ty.fit(mag, high);
		(ty, unit)
	}
}

/// Weight that every constraint gets from an equal share of `strength`.
fn con_weights(e: &E, strength: f64) -> HashMap<u8, f64> {
	let labels: std::collections::BTreeSet<u8> =
		e.constraints().iter().map(|(l, _)| *l).collect();
	let k = labels.len().max(1) as f64;
	labels.into_iter().map(|l| (l, strength / k)).collect()
}

fn energy_check<L: Label, R: Real>(
	e: &E,
	unit: f64,
	eps: f64,
	limit: usize,
	ctx: &mut Ctx,
) -> Res {
	let labels = label_map::<L>(nvars(e, NV));
	let ncon = e
		.constraints()
		.iter()
		.map(|c| c.0)
		.collect::<std::collections::BTreeSet<_>>()
		.len();
	// Every constraint gets weight 2.
	let strength = 2 * ncon.max(1) as i32;
	let w = con_weights(e, strength as f64);
	let vars: Vec<u8> = e.vars().into_iter().collect();
	let expr = build::<L, R>(e, unit);
	with_solver(
		expr,
		HashMap::new(),
		ScriptGen::new(|_, _| unreachable!()),
		|s| -> Res {
			let p = probe(s, R::from_i32(strength), &labels)?;
			let got: Vec<u8> = p.index.keys().cloned().collect();
			if got != vars {
				return Err(format!("variables of the problem {vars:?}, of its solutions {got:?}"));
			}
			if e.degree() <= 2 && p.ancillas > 0 {
				return Err(format!(
					"a quadratic problem was given {} auxiliary variables",
					p.ancillas
				));
			}
			let qscale: f64 = p.qubo.lin.iter().map(|v| v.abs()).sum::<f64>()
				+ p.qubo.quad.values().map(|v| v.abs()).sum::<f64>();
			let mut distinct = std::collections::BTreeSet::new();
			for x in all_assignments(&vars, limit, 7) {
				let env = Env {
					x: x.clone(),
					ph: vec![],
					w: w.clone(),
					unit,
				};
				let want = e.energy(&env);
				distinct.insert(want.to_bits());
				let Some(got) = p.min_energy(&x) else {
					ctx.label("too-wide-to-minimise");
					return Ok(());
				};
				ctx.sub += 1;
				if !close(got, want, e.scale(&env) + qscale, eps) {
					let sel: Vec<(u8, bool)> = vars.iter().map(|v| (*v, x[*v as usize])).collect();
					return Err(format!(
						"energy of {sel:?} is {want}, the compiled model gives {got} ({} auxiliary variables)",
						p.ancillas
					));
				}
			}
			ctx.label(format!("deg{}", e.degree().min(10)));
			ctx.label(match p.ancillas {
				0 => "anc0",
				1..=2 => "anc1-2",
				3..=6 => "anc3-6",
				7..=12 => "anc7-12",
				13..=64 => "anc13-64",
				65..=256 => "anc65-256",
				_ => "anc257+",
			});
			if vars.len() <= 1 {
				ctx.label("vars<=1");
			}
			ctx.nontrivial_if(distinct.len() >= 3);
			Ok(())
		},
	)
}

pub struct EnergyLeg {
	pub name: &'static str,
	pub rule: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub gen: fn(Tier) -> BoxedStrategy<E>,
	/// assignments compared, at most
	pub limit: usize,
}

impl Leg for EnergyLeg {
	type Case = EnergyCase;
	fn name(&self) -> &'static str {
		self.name
	}
	fn rule(&self) -> &'static str {
		self.rule
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(self.quick, self.thorough)
	}
	fn strategy(&self, t: Tier) -> BoxedStrategy<EnergyCase> {
		let mag = prop_oneof![6 => Just(0i8), 1 => Just(-20), 2 => Just(-12), 1 => Just(20), 1 => Just(-45), 1 => Just(45)];
		((self.gen)(t), arb_ty(), arb_lb(), any::<bool>(), mag)
			.prop_map(|(e, ty, lb, quarter, mag)| EnergyCase { e, ty, lb, quarter, mag })
			.boxed()
	}
	fn check(&self, c: &EnergyCase, ctx: &mut Ctx) -> Res {
		let (ty, unit) = c.plan(2.0);
		ctx.label(format!("{ty:?}"));
		dispatch!(c.lb, ty, energy_check(&c.e, unit, ty.eps(), self.limit, ctx))
	}
}

fn cfg(vars: u8, deg: u32, coef: i32) -> GenCfg {
	GenCfg {
		vars,
		phs: 0,
		cons: 0,
		pens: false,
		deg,
		bulk: 300.0,
		coef,
	}
}

pub fn c01() -> Property {
	Property {
		id: "C01",
		legs: vec![
			crate::props::large::leg(crate::props::large::Part::Energy, 80),
			Box::new(EnergyLeg {
				name: "quadratic",
				rule: "random expression trees and monomial sums of degree <= 2 over up to 8 variables, several number and label types; non-trivial = the energy takes at least 3 values over the assignments compared",
				quick: 80000,
				thorough: 600_000,
				limit: 64,
				gen: |_| prop_oneof![tree(cfg(8, 2, 6)), poly(cfg(8, 2, 6), 12), tree(cfg(2, 2, 6))].boxed(),
			}),
			Box::new(EnergyLeg {
				name: "highdeg-tree",
				rule: "random expression trees of degree up to 7 over up to 6 variables (products, powers, spins); non-trivial = as above",
				quick: 50000,
				thorough: 400_000,
				limit: 64,
				gen: |_| prop_oneof![tree(cfg(6, 7, 4)), tree(cfg(4, 4, 4))].boxed(),
			}),
			Box::new(EnergyLeg {
				name: "highdeg-poly",
				rule: "sums of up to 6 overlapping monomials of degree up to 6 (both signs) over up to 7 variables; non-trivial = as above",
				quick: 60000,
				thorough: 400_000,
				limit: 64,
				gen: |_| prop_oneof![poly(cfg(7, 6, 4), 6), poly(cfg(4, 4, 4), 4), poly(cfg(5, 3, 4), 7)].boxed(),
			}),
			Box::new(EnergyLeg {
				name: "monomial",
				rule: "one or two monomials of degree 3 to 12, now and then 16 with either sign plus a quadratic part; non-trivial = as above",
				quick: 8000,
				thorough: 40_000,
				limit: 64,
				gen: |_| {
					let vars: Vec<u8> = (0..12).collect();
					(
						prop_oneof![
							60 => proptest::sample::subsequence(vars, 3..=12),
							1 => proptest::sample::subsequence((0u8..24).collect::<Vec<u8>>(), 13..=16)
						],
						prop_oneof![1..=5i32, -5..=-1i32],
						poly(cfg(8, 2, 4), 3),
						proptest::option::weighted(0.3, (0u8..12, -3..=3i32, 0u8..12, 0u8..12)),
					)
						.prop_map(|(vs, c, q, extra)| {
							let mut m = E::Num(c);
							for v in vs {
								m = E::Mul(b(m), b(E::Bin(v)));
							}
							let mut e = E::Add(b(m), b(q));
							if let Some((x, c, y, z)) = extra {
								e = E::Add(
									b(e),
									b(E::Mul(
										b(E::Mul(b(E::Num(c)), b(E::Bin(x)))),
										b(E::Mul(b(E::Bin(y)), b(E::Spin(z)))),
									)),
								);
							}
							e
						})
						.boxed()
				},
			}),
			Box::new(EnergyLeg {
				name: "wide",
				rule: "sums of 20 to 300 small terms (up to cubic) and constraints over up to 150 variables, 24 assignments each; non-trivial = as above",
				quick: 3_000,
				thorough: 30_000,
				limit: 24,
				gen: |_| {
					let c = |vars, deg, cons| GenCfg {
						vars,
						phs: 0,
						cons,
						pens: false,
						deg,
						bulk: 0.0,
						coef: 6,
					};
					prop_oneof![
						3 => wide(c(150, 2, 0), 20..=300),
						1 => wide(c(40, 2, 0), 20..=300),
						2 => wide(c(60, 3, 0), 20..=100),
						2 => wide(c(100, 2, 60), 20..=150)
					]
					.boxed()
				},
			}),
			Box::new(EnergyLeg {
				name: "many-helpers",
				rule: "sums of 40 to 320 products of three or four variables of up to 240, either sign, each of which needs auxiliary variables; 6 assignments each; non-trivial = as above",
				quick: 260,
				thorough: 4_000,
				limit: 6,
				gen: |_| {
					let v = prop_oneof![2 => 0u8..240, 1 => 0u8..40].boxed();
					let term = (
						prop_oneof![1..=5i32, -5..=-1i32],
						proptest::collection::btree_set(v, 3..=4),
						0u8..4,
					)
						.boxed();
					prop_oneof![
						3 => proptest::collection::vec(term.clone(), 40..=120),
						1 => proptest::collection::vec(term, 120..=320)
					]
						.prop_map(|ts| {
							ts.into_iter().fold(E::Num(0), |e, (c, vs, spin)| {
								let m = vs.into_iter().enumerate().fold(E::Num(c), |m, (k, q)| {
									let l = if spin == 3 && k == 0 { E::Spin(q) } else { E::Bin(q) };
									E::Mul(b(m), b(l))
								});
								E::Add(b(e), b(m))
							})
						})
						.boxed()
				},
			}),
			Box::new(EnergyLeg {
				name: "constrained",
				rule: "problems mixing arithmetic and labelled constraints (each at a known weight), degree up to 4; non-trivial = as above",
				quick: 40000,
				thorough: 300_000,
				limit: 64,
				gen: |_| {
					problem(GenCfg {
						vars: 6,
						phs: 0,
						cons: 3,
						pens: false,
						deg: 4,
						bulk: 200.0,
						coef: 4,
					})
				},
			}),
			crate::props::exact::problems("C01"),
		],
		assumptions: &[
			"placeholder values are positive, as documented",
			"constraint and penalty expressions are not nested inside a constraint (refused by the library)",
			"coefficients small enough for the number type, cases moved to f64 otherwise",
			"each case samples one iteration order of the library's hash maps per compilation",
		],
	}
}

pub fn c19() -> Property {
	Property {
		id: "C19",
		legs: vec![
			crate::props::large::leg(crate::props::large::Part::Energy, 60),
			Box::new(EnergyLeg {
				name: "many-penalties",
				rule: "sums of 10 to 120 small terms over up to 60 variables, many of which carry penalties, among constraints; non-trivial as 'penalties'",
				quick: 1_200,
				thorough: 30_000,
				limit: 24,
				gen: |_| {
					let c = |vars, cons| GenCfg {
						vars,
						phs: 0,
						cons,
						pens: true,
						deg: 2,
						bulk: 0.0,
						coef: 4,
					};
					// a product of two parts with long penalties
					let long = || {
						let p = |t| wide(GenCfg { pens: false, ..c(60, 0) }, t);
						(tree(GenCfg { pens: false, deg: 1, vars: 6, ..c(6, 0) }), p(10..=90))
							.prop_map(|(e, p)| E::Pen(b(e), b(p)))
					};
					prop_oneof![
						2 => wide(c(60, 0), 10..=120),
						2 => wide(c(30, 20), 10..=80),
						1 => (long(), long(), 0u8..3).prop_map(|(l, r, op)| match op {
							0 => E::Mul(b(l), b(r)),
							1 => E::Add(b(l), b(r)),
							_ => E::Sub(b(l), b(E::Mul(b(r), b(E::Num(-2))))),
						})
					]
					.boxed()
				},
			}),
			Box::new(EnergyLeg {
			name: "penalties",
			rule: "problems whose terms carry penalties (nested, inside products, powers and sums, together with constraints), degree up to 4; the energy must be the value plus every penalty exactly once, unscaled; non-trivial = at least 3 energy values",
			quick: 80000,
			thorough: 600_000,
			limit: 64,
			gen: |_| {
				let g = GenCfg {
					vars: 6,
					phs: 0,
					cons: 2,
					pens: true,
					deg: 4,
					bulk: 150.0,
					coef: 4,
				};
				let g0 = GenCfg { cons: 0, ..g };
				prop_oneof![
					2 => problem(g0),
					2 => problem(g),
					3 => (problem(g0), tree(g0), tree(g0), -3..=3i32).prop_map(|(e, p, o, k)| {
						E::Add(
							b(E::Mul(b(E::Pen(b(e), b(p))), b(E::Num(k)))),
							b(o),
						)
						.cap(4, 150.0)
					}),
				]
				.boxed()
			},
		}),
			crate::props::exact::problems("C19"),
		],
		assumptions: &["as C01"],
	}
}

// ---------------------------------------------------------------------------
// C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FeedCase {
	pub e: E,
	pub ty: Ty,
	pub lb: Lb,
	pub quarter: bool,
	/// value of each placeholder (positive, in units)
	pub vals: Vec<i8>,
	/// which of them the expression is fed before compiling
	pub early: u8,
	/// placeholder to leave out of the dictionary
	pub omit: Option<u8>,
	/// numbers and values are multiples of 2^-tiny
	#[serde(default)]
	pub tiny: u8,
}

impl FeedCase {
	fn nph(&self) -> u8 {
		self.vals.len() as u8
	}
	fn early(&self, p: u8) -> bool {
		(self.early >> (p % 8)) & 1 == 1
	}
}

pub const NPH: u8 = 4;

fn subst(e: &E, vals: &[i8]) -> E {
	match e {
		E::Ph(p) => E::Num(vals[*p as usize] as i32),
		E::Add(l, r) => E::Add(b(subst(l, vals)), b(subst(r, vals))),
		E::Sub(l, r) => E::Sub(b(subst(l, vals)), b(subst(r, vals))),
		E::Mul(l, r) => E::Mul(b(subst(l, vals)), b(subst(r, vals))),
		E::Pen(l, r) => E::Pen(b(subst(l, vals)), b(subst(r, vals))),
		E::Neg(e) => E::Neg(b(subst(e, vals))),
		E::Pow(e, k) => E::Pow(b(subst(e, vals)), *k),
		E::Con(l, e) => E::Con(*l, b(subst(e, vals))),
		o => o.clone(),
	}
}

fn feed_check<L: Label, R: Real>(
	c: &FeedCase,
	unit: f64,
	eps: f64,
	ctx: &mut Ctx,
) -> Res {
	let labels = label_map::<L>(nvars(&c.e, NV));
	let dict: HashMap<u8, R> = (0..c.nph())
		.map(|p| (p, from_units::<R>(c.vals[p as usize] as i32, unit)))
		.collect();
	let used = c.e.phs();
	let ncon = c
		.e
		.constraints()
		.iter()
		.map(|c| c.0)
		.collect::<std::collections::BTreeSet<_>>()
		.len();
	let strength = 2 * ncon.max(1) as i32;
	let w = con_weights(&c.e, strength as f64);
	let vars: Vec<u8> = c.e.vars().into_iter().collect();
	let xs = all_assignments(&vars, 16, 11);
	let early: HashMap<u8, R> = dict
		.iter()
		.filter(|(k, _)| c.early(**k))
		.map(|(k, v)| (*k, *v))
		.collect();
	let late: HashMap<u8, R> = dict
		.iter()
		.filter(|(k, _)| !c.early(**k))
		.map(|(k, v)| (*k, *v))
		.collect();
	let ex = || build::<L, R>(&c.e, unit);
	let routes: Vec<(&str, LExpr<L, R>, HashMap<u8, R>)> = vec![
		("feed after compiling", ex(), dict.clone()),
		("feed before compiling", ex().feed_dict(&dict), HashMap::new()),
		("feed some before, the rest after", ex().feed_dict(&early), late.clone()),
		("feed twice before compiling", ex().feed_dict(&late).feed_dict(&early), HashMap::new()),
		("numbers written in place", build::<L, R>(&subst(&c.e, &c.vals), unit), HashMap::new()),
	];
	for (name, expr, feed) in routes {
		let r: Res = catch(|| {
			with_solver(
				expr,
				feed,
				ScriptGen::new(|_, _| unreachable!()),
				|s| -> Res {
					let p = probe(s, R::from_i32(strength), &labels)?;
					let qscale: f64 = p.qubo.lin.iter().map(|v| v.abs()).sum::<f64>()
						+ p.qubo.quad.values().map(|v| v.abs()).sum::<f64>();
					for x in xs.iter() {
						let env = Env {
							x: x.clone(),
							ph: c.vals.iter().map(|v| *v as f64 * unit).collect(),
							w: w.clone(),
							unit,
						};
						let want = c.e.energy(&env);
						let Some(got) = p.min_energy(x) else {
							ctx.label("too-wide-to-minimise");
							return Ok(());
						};
						ctx.sub += 1;
						if !close(got, want, c.e.scale(&env) + qscale, eps) {
							return Err(format!("energy {want}, the model gives {got}"));
						}
						// constraint verdicts with the values fed
						let index = p.index.clone();
						let xx = x.clone();
						let (shot, _) = shoot(
							s,
							move |n| {
								let mut st = vec![false; n];
								for (l, i) in index.iter() {
									st[*i] = xx[*l as usize];
								}
								st
							},
							&labels,
						)?;
						check_unsat(&c.e, &env, &shot.unsat, ctx)?;
					}
					Ok(())
				},
			)
		})
		.map_err(|p| format!("panic: {p}"))
		.and_then(|r| r);
		r.map_err(|m| format!("{name}: {m}"))?;
	}
	// The problem knows what it needs.
	let cons: std::collections::BTreeSet<u8> = c.e.constraints().iter().map(|c| c.0).collect();
	let open = ex().compile().get_placeholders().len();
	if open != used.len() + cons.len() {
		return Err(format!(
			"{} placeholders and {} constraints are in use, the problem lists {open}",
			used.len(),
			cons.len()
		));
	}
	let open = ex().compile().feed_dict(dict.clone()).get_placeholders().len();
	if open != cons.len() {
		return Err(format!(
			"once fed, the problem with {} constraints lists {open} placeholders",
			cons.len()
		));
	}
	// A placeholder without a value is refused, not guessed.
	if let Some(o) = c.omit {
		if used.contains(&o) {
			let mut d = dict.clone();
			d.remove(&o);
			let ex1 = ex();
			if catch(move || ex1.compile().feed_dict(d)).is_ok() {
				return Err(format!(
					"feeding without a value for placeholder {o}, which the problem uses, was accepted"
				));
			}
			ctx.label("omitted-placeholder-refused");
			// and so it is when only the other values are given early
			let mut d = dict.clone();
			d.remove(&o);
			let ex1 = ex().feed_dict(&d);
			if catch(move || ex1.compile().feed_dict(HashMap::new())).is_ok() {
				return Err(format!(
					"placeholder {o} never got a value and the problem was accepted"
				));
			}
		}
	}
	let mut inside = false;
	c.e.visit(&mut |n| {
		if let E::Con(_, i) | E::Pen(_, i) = n {
			inside |= !i.phs().is_empty();
		}
	});
	if inside {
		ctx.label("placeholder-inside-constraint-or-penalty");
	}
	ctx.nontrivial_if(!used.is_empty() && !vars.is_empty());
	Ok(())
}

struct FeedLeg {
	wide: bool,
}
impl Leg for FeedLeg {
	type Case = FeedCase;
	fn name(&self) -> &'static str {
		if self.wide {
			"feed-many"
		} else {
			"feed"
		}
	}
	fn rule(&self) -> &'static str {
		if self.wide {
			return "As 'feed', with sums of 10 to 80 small terms over up to 40 variables, 60 placeholders and 20 constraint labels.";
		}
		"problems with up to 4 placeholders (in coefficients, constraints, penalties, high degree terms) and positive values; five ways of giving the values must all give the reference energy and constraint verdicts, and a missing value must be refused; non-trivial = at least one placeholder and one variable in use"
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.wide {
			t.pick(400, 10_000)
		} else {
			t.pick(24_000, 250_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<FeedCase> {
		let g = GenCfg {
			vars: 5,
			phs: NPH,
			cons: 3,
			pens: true,
			deg: 4,
			bulk: 60.0,
			coef: 4,
		};
		let e = prop_oneof![
			3 => problem(g),
			1 => poly(GenCfg { deg: 4, ..g }, 5),
			1 => tree(GenCfg { deg: 3, ..g }),
		]
		.boxed();
		let (e, nph) = if self.wide {
			let g = GenCfg { vars: 40, phs: 60, cons: 20, deg: 2, ..g };
			(wide(g, 10..=80), 60)
		} else {
			(e, NPH)
		};
		(
			e,
			arb_ty(),
			arb_lb(),
			any::<bool>(),
			proptest::collection::vec(1i8..6, nph as usize),
			any::<u8>(),
			proptest::option::of(0..nph),
			prop_oneof![5 => Just(0u8), 1 => 8u8..50],
		)
			.prop_map(|(e, ty, lb, quarter, vals, early, omit, tiny)| FeedCase {
				e,
				ty,
				lb,
				quarter,
				vals,
				early,
				omit,
				tiny,
			})
			.boxed()
	}
	fn check(&self, c: &FeedCase, ctx: &mut Ctx) -> Res {
		if c.tiny > 0 {
			// all numbers are small
			ctx.label("tiny values");
			let unit = 0.5f64.powi(c.tiny as i32);
			return dispatch!(c.lb, Ty::F64, feed_check(c, unit, Ty::F64.eps(), ctx));
		}
		let unit = if c.quarter && c.ty.is_float() { 0.25 } else { 1.0 };
		let mag = c.e.magnitude(unit, 5.0 * unit, 2.0);
		let ty = c.ty.fit(mag, c.e.degree() > 2);
		ctx.label(format!("{ty:?}"));
		dispatch!(c.lb, ty, feed_check(c, unit, ty.eps(), ctx))
	}
}

pub fn c02() -> Property {
	Property {
		id: "C02",
		legs: vec![Box::new(FeedLeg { wide: false }), Box::new(FeedLeg { wide: true }),
			crate::props::exact::problems("C02"),
			crate::props::large::leg(crate::props::large::Part::Energy, 60),
		],
		assumptions: &["placeholder values are positive, as documented", "as C01"],
	}
}

// ---------------------------------------------------------------------------
// C03

/// Compare reported labels with the constraints that are violated at `env`.
pub fn check_unsat(e: &E, env: &Env, got: &[u8], ctx: &mut Ctx) -> Res {
	let mut want: Vec<u8> = Vec::new();
	let mut unclear: Vec<u8> = Vec::new();
	for (l, c) in e.constraints() {
		let v = c.eval(env, &mut 0.0).abs();
		if v >= 1e-3 {
			want.push(l);
		} else if v > 1e-6 {
			unclear.push(l);
		}
	}
	if !unclear.is_empty() {
		ctx.label("value near the tolerance: not judged");
		return Ok(());
	}
	want.sort_unstable();
	let mut got = got.to_vec();
	got.sort_unstable();
	ctx.sub += 1;
	if want != got {
		return Err(format!(
			"constraints violated: {want:?}, reported as unsatisfied: {got:?}"
		));
	}
	Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConCase {
	pub e: E,
	pub ty: Ty,
	pub lb: Lb,
	pub unit: u8,
	pub anc: u64,
}

fn con_check<L: Label, R: Real>(c: &ConCase, unit: f64, ctx: &mut Ctx) -> Res {
	let labels = label_map::<L>(nvars(&c.e, NV));
	let vars: Vec<u8> = c.e.vars().into_iter().collect();
	let expr = build::<L, R>(&c.e, unit);
	let mut both = (false, false);
	let r = with_solver(
		expr,
		HashMap::new(),
		ScriptGen::new(|_, _| unreachable!()),
		|s| -> Res {
			let p = probe(s, R::from_i32(8), &labels)?;
			for x in all_assignments(&vars, 24, c.anc) {
				let env = Env {
					x: x.clone(),
					ph: vec![],
					w: HashMap::new(),
					unit,
				};
				let index = p.index.clone();
				let anc = c.anc;
				let xx = x.clone();
				let (shot, _) = shoot(
					s,
					move |n| {
						let mut st: Vec<bool> = (0..n).map(|i| (anc >> (i % 64)) & 1 == 1).collect();
						for (l, i) in index.iter() {
							st[*i] = xx[*l as usize];
						}
						st
					},
					&labels,
				)?;
				for (l, v) in shot.values.iter() {
					if *v != x[*l as usize] {
						return Err(format!("variable {l} was {} and is reported {v}", !v));
					}
				}
				check_unsat(&c.e, &env, &shot.unsat, ctx)?;
				if shot.unsat.is_empty() {
					both.0 = true;
				} else {
					both.1 = true;
				}
			}
			if p.ancillas > 0 {
				ctx.label("with-auxiliaries");
			}
			Ok(())
		},
	);
	r?;
	let n = c.e.constraints().len();
	ctx.label(format!("constraints{}", n.min(6)));
	ctx.nontrivial_if(both.0 && both.1);
	Ok(())
}

struct ConLeg {
	wide: bool,
}
impl Leg for ConLeg {
	type Case = ConCase;
	fn name(&self) -> &'static str {
		if self.wide {
			"many-constraints"
		} else {
			"reports"
		}
	}
	fn rule(&self) -> &'static str {
		if self.wide {
			return "As 'reports', with sums of 10 to 150 small terms and constraints with up to 100 labels over up to 100 variables, or 60 to 250 short constraints most of which are violated.";
		}
		"problems with up to 4 constraint labels (repeated labels, constraints inside sums, products, powers and penalties, integer, dyadic and decimal coefficients); for up to 24 assignments each the reported labels must be the multiset of violated constraints; non-trivial = some assignment violates a constraint and some satisfies them all"
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.wide {
			t.pick(800, 20_000)
		} else {
			t.pick(70_000, 500_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<ConCase> {
		let g = GenCfg {
			vars: 6,
			phs: 0,
			cons: 4,
			pens: true,
			deg: 3,
			bulk: 120.0,
			coef: 4,
		};
		let base = tree(GenCfg { deg: 2, ..g });
		// one-hot and equality constraints, the forms people write
		let onehot = (proptest::sample::subsequence((0u8..6).collect::<Vec<_>>(), 1..=5), 0..3i32)
			.prop_map(|(vs, k)| {
				let mut s = E::Num(-k);
				for v in vs {
					s = E::Add(b(s), b(E::Bin(v)));
				}
				E::Pow(b(s), 2)
			});
		let nested = (0u8..4, onehot, 0u8..4, base.clone(), base, -3..=3i32).prop_map(
			|(l1, c1, l2, c2, o, k)| {
				E::Add(
					b(E::Mul(
						b(E::Num(k)),
						b(E::Add(b(E::Con(l1, b(c1))), b(E::Con(l2, b(c2))))),
					)),
					b(o),
				)
			},
		);
		let e = if self.wide {
			let w = GenCfg { deg: 2, ..g };
			prop_oneof![
				2 => wide(GenCfg { vars: 100, cons: 100, ..w }, 10..=150),
				2 => wide(GenCfg { vars: 12, cons: 100, deg: 3, ..w }, 10..=60),
				1 => (
					proptest::collection::vec((0u8..250, 0u8..60, 0i32..4), 60..=250),
					any::<bool>()
				)
					.prop_map(|(v, all)| {
						// one short constraint each, most of them violated by most states
						let l = v
							.into_iter()
							.map(|(l, x, k)| {
								let k = if all && k < 2 { 2 } else { k };
								E::Con(l, b(E::Sub(b(E::Bin(x)), b(E::Num(k)))))
							})
							.collect::<Vec<_>>();
						sum_of(l)
					})
			]
			.boxed()
		} else {
			prop_oneof![problem(g), nested].boxed()
		};
		(
			e,
			arb_ty(),
			arb_lb(),
			0u8..4,
			any::<u64>(),
		)
			.prop_map(|(e, ty, lb, unit, anc)| ConCase {
				e,
				ty,
				lb,
				unit,
				anc,
			})
			.boxed()
	}
	fn check(&self, c: &ConCase, ctx: &mut Ctx) -> Res {
		let unit = if c.ty.is_float() {
			[1.0, 0.25, 0.1, 0.5f64.powi(9)][c.unit as usize % 4]
		} else {
			1.0
		};
		let mag = c.e.magnitude(unit, 1.0, 8.0);
		let mut ty = c.ty.fit(mag, c.e.degree() > 2);
		if unit == 0.1 || unit < 0.01 {
			// f32 rounding would blur the verdict
			ty = Ty::F64;
		}
		dispatch!(c.lb, ty, con_check(c, unit, ctx))
	}
}

pub fn c03() -> Property {
	Property {
		id: "C03",
		legs: vec![Box::new(ConLeg { wide: false }), Box::new(ConLeg { wide: true }), crate::props::large::leg(crate::props::large::Part::Labels, 80)],
		assumptions: &[
			"a constraint counts as satisfied when its expression is zero; values between 1e-6 and 1e-3 are not judged",
		],
	}
}

// ---------------------------------------------------------------------------
// C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReportCase {
	pub e: E,
	pub ty: Ty,
	pub lb: Lb,
	pub quarter: bool,
	pub bits: Vec<u64>,
	/// coefficients are multiples of 2^mag for f64
	#[serde(default)]
	pub mag: i8,
}

fn report_check<L: Label, R: Real>(
	c: &ReportCase,
	unit: f64,
	eps: f64,
	ctx: &mut Ctx,
) -> Res {
	let labels = label_map::<L>(nvars(&c.e, NV));
	let vars: Vec<u8> = c.e.vars().into_iter().collect();
	let ncon = c
		.e
		.constraints()
		.iter()
		.map(|c| c.0)
		.collect::<std::collections::BTreeSet<_>>()
		.len();
	let strength = 2 * ncon.max(1) as i32;
	let w = con_weights(&c.e, strength as f64);
	let expr = build::<L, R>(&c.e, unit);
	with_solver(
		expr,
		HashMap::new(),
		ScriptGen::new(|_, _| unreachable!()),
		|s| -> Res {
			// the solver's own list of variables
			let mut q: Vec<u8> = Vec::new();
			for l in s.get_qubits() {
				q.push(
					*labels
						.get(l)
						.ok_or_else(|| format!("unknown variable {l:?}"))?,
				);
			}
			q.sort_unstable();
			if q != vars {
				return Err(format!(
					"the problem uses {vars:?}, the solver lists {q:?}"
				));
			}
			let p = probe(s, R::from_i32(strength), &labels)?;
			let got: Vec<u8> = p.index.keys().cloned().collect();
			if got != vars {
				return Err(format!("the problem uses {vars:?}, solutions cover {got:?}"));
			}
			let qscale: f64 = p.qubo.lin.iter().map(|v| v.abs()).sum::<f64>()
				+ p.qubo.quad.values().map(|v| v.abs()).sum::<f64>()
				+ p.offset.abs();
			for bits in c.bits.iter() {
				let bits = *bits;
				let st: Vec<bool> = (0..p.qubo.n)
					.map(|i| {
						let far = (i as u64 / 61).wrapping_mul(0x9e3779b97f4a7c15);
						((bits ^ far) >> (i % 61)) & 1 == 1
					})
					.collect();
				let st2 = st.clone();
				let (shot, model) = shoot(s, move |_| st2.clone(), &labels)?;
				let mut x = vec![false; 256];
				for (l, i) in p.index.iter() {
					x[*l as usize] = st[*i];
					if shot.values.get(l) != Some(&st[*i]) {
						return Err(format!(
							"variable {l} was {} in the sample, the solution says {:?}",
							st[*i],
							shot.values.get(l)
						));
					}
				}
				let e = model.energy(&st);
				let off = p.offset;
				if !close(shot.energy, e + off, qscale, eps) {
					return Err(format!(
						"reported energy {}, energy of the sample {}",
						shot.energy,
						e + off
					));
				}
				ctx.sub += 1;
				let env = Env {
					x,
					ph: vec![],
					w: w.clone(),
					unit,
				};
				let h = c.e.energy(&env);
				let scale = qscale + c.e.scale(&env);
				if p.ancillas == 0 {
					if !close(shot.energy, h, scale, eps) {
						return Err(format!(
							"reported energy {}, energy of the expression {h}",
							shot.energy
						));
					}
				} else if shot.energy < h - eps * scale {
					return Err(format!(
						"reported energy {} is below the energy {h} of the expression",
						shot.energy
					));
				}
				match shot.view_energy {
					Some(v) if close(v, e, qscale, eps) => {}
					v => {
						return Err(format!(
							"the solution carries energy {v:?}, its sample has {e} without the constant"
						))
					}
				}
				for (l, i) in p.index.iter() {
					let mut f = st.clone();
					f[*i] = !f[*i];
					let d = model.energy(&f) - e;
					match shot.field.get(l) {
						Some(v) if close(*v, d, qscale, eps) => {}
						v => {
							return Err(format!(
								"local field of {l} is {v:?}, flipping it changes the energy by {d}"
							))
						}
					}
				}
				check_unsat(&c.e, &env, &shot.unsat, ctx)?;
			}
			ctx.label(if p.ancillas > 0 { "with-auxiliaries" } else { "no-auxiliaries" });
			ctx.label(format!("size{}", (p.qubo.n / 4) * 4));
			ctx.nontrivial_if(p.qubo.n >= 2 && c.bits.len() > 1);
			// a label the problem has not
			s.samples = 1;
			s.solver_generator =
				ScriptGen::new(|_, q| Answer::States(vec![vec![true; q.n]]));
			let (_, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			if view.get(&L::of(200)).is_some() {
				return Err("get() has a value for a variable the problem has not".into());
			}
			if view.occurrences() == 0 {
				return Err("a returned solution occurred 0 times".into());
			}
			Ok(())
		},
	)
}

struct ReportLeg {
	wide: bool,
}
impl Leg for ReportLeg {
	type Case = ReportCase;
	fn name(&self) -> &'static str {
		if self.wide {
			"wide"
		} else {
			"reports"
		}
	}
	fn rule(&self) -> &'static str {
		if self.wide {
			return "As 'reports', with sums of 20 to 200 small terms, constraints and penalties over up to 140 variables.";
		}
		"problems of degree up to 4 with constraints and penalties, and random raw samples from the annealer; variables, values, energy, offset, per-variable flip cost and violated labels of the returned solution against the reference; non-trivial = model of at least 2 bits and at least 2 samples"
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.wide {
			t.pick(800, 20_000)
		} else {
			t.pick(90_000, 400_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<ReportCase> {
		let g = GenCfg {
			vars: 14,
			phs: 0,
			cons: 3,
			pens: true,
			deg: 4,
			bulk: 150.0,
			coef: 5,
		};
		let e = if self.wide {
			let w = GenCfg { vars: 140, cons: 30, ..g };
			prop_oneof![
				2 => wide(GenCfg { deg: 2, ..w }, 20..=200),
				1 => wide(GenCfg { deg: 3, vars: 70, ..w }, 20..=100)
			]
			.boxed()
		} else {
			prop_oneof![
				2 => problem(g),
				2 => poly(GenCfg { deg: 2, ..g }, 20),
				1 => problem(GenCfg { vars: 2, ..g })
			]
			.boxed()
		};
		(
			e,
			arb_ty(),
			arb_lb(),
			any::<bool>(),
			proptest::collection::vec(any::<u64>(), 1..6),
			prop_oneof![6 => Just(0i8), 1 => -50i8..50],
		)
			.prop_map(|(e, ty, lb, quarter, bits, mag)| ReportCase {
				e,
				ty,
				lb,
				quarter,
				bits,
				mag,
			})
			.boxed()
	}
	fn check(&self, c: &ReportCase, ctx: &mut Ctx) -> Res {
		let mut unit = if c.quarter && c.ty.is_float() { 0.25 } else { 1.0 };
		if c.ty == Ty::F64 {
			unit *= (c.mag as f64).exp2();
		}
		let mag = c.e.magnitude(unit, 1.0, 2.0);
		let ty = c.ty.fit(mag, c.e.degree() > 2);
		ctx.label(format!("{ty:?}"));
		dispatch!(c.lb, ty, report_check(c, unit, ty.eps(), ctx))
	}
}

/// Expressions with `()` for placeholders and constraints, so that the plain
/// `solve()` applies.
pub fn build0<L: Label, R: Real>(e: &E, unit: f64) -> Expr<(), L, (), R> {
	match e {
		E::Num(n) => Expr::Number(from_units::<R>(*n, unit)),
		E::Bin(q) => Expr::Binary(L::of(*q)),
		E::Spin(q) => Expr::Spin(L::of(*q)),
		E::Ph(_) => Expr::Placeholder(()),
		E::Add(l, r) => build0::<L, R>(l, unit) + build0::<L, R>(r, unit),
		E::Sub(l, r) => build0::<L, R>(l, unit) - build0::<L, R>(r, unit),
		E::Mul(l, r) => build0::<L, R>(l, unit) * build0::<L, R>(r, unit),
		E::Neg(e) => -build0::<L, R>(e, unit),
		E::Pow(e, k) => build0::<L, R>(e, unit) ^ (*k as usize),
		E::Con(_, e) => Expr::Constraint {
			label: (),
			expr: Box::new(build0::<L, R>(e, unit)),
		},
		E::Pen(e, p) => Expr::WithPenalty {
			expr: Box::new(build0::<L, R>(e, unit)),
			penalty: Box::new(build0::<L, R>(p, unit)),
		},
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OptCase {
	pub e: E,
	pub ty: Ty,
	pub lb: Lb,
}

/// With an annealer that returns a true ground state, the library's answer is
/// the true optimum of the expression.
fn opt_check<L: Label, R: Real>(c: &OptCase, eps: f64, ctx: &mut Ctx) -> Res {
	let vars: Vec<u8> = c.e.vars().into_iter().collect();
	let model = build0::<L, R>(&c.e, 1.0).compile();
	let gen = ScriptGen::new(|_, q| {
		if q.n > 20 {
			Answer::GenErr("too big".into())
		} else {
			Answer::States(vec![q.ground().1])
		}
	});
	let mut s = SimpleSolver::with_solver(&model, gen);
	s.samples = 2;
	let (energy, view) = match s.solve() {
		Ok(v) => v,
		Err(_) => {
			ctx.label("too-big");
			return Ok(());
		}
	};
	let mut best = f64::INFINITY;
	let mut worst = f64::NEG_INFINITY;
	let mut scale = 0.0f64;
	let mut env = Env {
		x: vec![false; 256],
		ph: vec![],
		w: HashMap::new(),
		unit: 1.0,
	};
	for x in all_assignments(&vars, 1 << 12, 3) {
		env.x = x;
		let v = c.e.energy(&env);
		best = best.min(v);
		worst = worst.max(v);
		scale = scale.max(c.e.scale(&env));
	}
	env.x = vec![false; 256];
	for v in vars.iter() {
		env.x[*v as usize] = view
			.get(&L::of(*v))
			.ok_or_else(|| format!("no value for variable {v}"))?;
	}
	let at = c.e.energy(&env);
	ctx.sub += 1;
	if !close(at, best, scale, eps * 100.0) {
		return Err(format!(
			"the solution has energy {at}, the optimum of the expression is {best}"
		));
	}
	if !close(energy.as_f64(), best, scale, eps * 100.0) {
		return Err(format!(
			"reported optimum {energy}, the optimum of the expression is {best}"
		));
	}
	ctx.label(format!("deg{}", c.e.degree().min(8)));
	ctx.nontrivial_if(worst > best && vars.len() >= 2);
	Ok(())
}

struct OptLeg;
impl Leg for OptLeg {
	type Case = OptCase;
	fn name(&self) -> &'static str {
		"optimum"
	}
	fn rule(&self) -> &'static str {
		"unconstrained expressions with penalties, degree up to 5, solved through solve() by an annealer that returns a true ground state of the model it is given: the answer must be the optimum of the expression; non-trivial = at least 2 variables and a non-constant energy"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(30_000, 150_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<OptCase> {
		let g = GenCfg {
			vars: 8,
			phs: 0,
			cons: 0,
			pens: true,
			deg: 2,
			bulk: 150.0,
			coef: 5,
		};
		(
			prop_oneof![
				problem(g),
				problem(GenCfg { deg: 4, vars: 4, bulk: 40.0, ..g }),
				poly(GenCfg { deg: 5, vars: 6, ..g }, 4),
				poly(g, 20)
			],
			arb_ty(),
			arb_lb(),
		)
			.prop_map(|(e, ty, lb)| OptCase { e, ty, lb })
			.boxed()
	}
	fn check(&self, c: &OptCase, ctx: &mut Ctx) -> Res {
		let mag = c.e.magnitude(1.0, 1.0, 1.0);
		let ty = c.ty.fit(mag, c.e.degree() > 2);
		dispatch!(c.lb, ty, opt_check(c, ty.eps(), ctx))
	}
}

pub fn c05() -> Property {
	Property {
		id: "C05",
		legs: vec![Box::new(ReportLeg { wide: false }), Box::new(ReportLeg { wide: true }), Box::new(OptLeg),
			crate::props::exact::problems("C05"),
			crate::props::large::leg(crate::props::large::Part::Report, 80),
		],
		assumptions: &["as C01", "the annealer returns at least one sample of the right size"],
	}
}
