//! Expressions: generation, the reference semantics, and translation into the
//! library's expressions.
use annealers::variable::Real;
use proptest::prelude::*;
use rustqubo::Expr;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------------------
// Labels

thread_local! {
	static FUEL: Cell<u64> = const { Cell::new(0) };
}
/// Comparisons and hashes of labels one case may make on one thread. The
/// largest count seen on the unchanged tree is below 1/50 of this; a loop
/// that never ends runs into it (a deterministic bound, not a clock).
pub const FUEL_LIMIT: u64 = 400_000_000;

pub fn fuel_reset() {
	FUEL.with(|f| f.set(0));
}
pub fn fuel_used() -> u64 {
	FUEL.with(|f| f.get())
}
#[inline]
fn burn() {
	FUEL.with(|f| {
		let v = f.get() + 1;
		f.set(v);
		if v > FUEL_LIMIT && !std::thread::panicking() {
			panic!("work bound exceeded: more than {FUEL_LIMIT} label operations for one case");
		}
	})
}

/// Label whose comparisons and hashes are counted.
#[derive(Clone)]
pub struct FL(pub u8);
impl Debug for FL {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "q{}", self.0)
	}
}
impl PartialEq for FL {
	fn eq(&self, o: &Self) -> bool {
		burn();
		self.0 == o.0
	}
}
impl Eq for FL {}
impl PartialOrd for FL {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for FL {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		burn();
		self.0.cmp(&o.0)
	}
}
impl Hash for FL {
	fn hash<H: Hasher>(&self, h: &mut H) {
		burn();
		self.0.hash(h)
	}
}

pub trait Label: Clone + Debug + Eq + Ord + Hash + Send + Sync + 'static {
	fn of(i: u8) -> Self;
}
impl Label for FL {
	fn of(i: u8) -> Self {
		FL(i)
	}
}
impl Label for String {
	fn of(i: u8) -> Self {
		// "q10" sorts before "q2".
		format!("q{i}")
	}
}
impl Label for (i32, i32) {
	fn of(i: u8) -> Self {
		((i as i32) % 3 - 1, -(i as i32))
	}
}
impl Label for u8 {
	fn of(i: u8) -> Self {
		i
	}
}

// ---------------------------------------------------------------------------
// Expressions

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum E {
	/// Coefficient in multiples of the case's unit.
	Num(i32),
	Bin(u8),
	Spin(u8),
	Ph(u8),
	Add(Box<E>, Box<E>),
	Sub(Box<E>, Box<E>),
	Mul(Box<E>, Box<E>),
	Neg(Box<E>),
	Pow(Box<E>, u8),
	Con(u8, Box<E>),
	Pen(Box<E>, Box<E>),
}

pub fn b(e: E) -> Box<E> {
	Box::new(e)
}

/// Reference values for everything an expression mentions.
#[derive(Clone, Debug, Default)]
pub struct Env {
	pub x: Vec<bool>,
	pub ph: Vec<f64>,
	/// Weight of each constraint label.
	pub w: HashMap<u8, f64>,
	pub unit: f64,
}

impl E {
	/// Value of the expression, the penalties it carries being added to `pen`.
	pub fn eval(&self, env: &Env, pen: &mut f64) -> f64 {
		match self {
			E::Num(n) => *n as f64 * env.unit,
			E::Bin(q) => {
				if env.x[*q as usize] {
					1.0
				} else {
					0.0
				}
			}
			E::Spin(q) => {
				if env.x[*q as usize] {
					1.0
				} else {
					-1.0
				}
			}
			E::Ph(p) => env.ph[*p as usize],
			E::Add(l, r) => l.eval(env, pen) + r.eval(env, pen),
			E::Sub(l, r) => l.eval(env, pen) - r.eval(env, pen),
			E::Mul(l, r) => l.eval(env, pen) * r.eval(env, pen),
			E::Neg(e) => -e.eval(env, pen),
			E::Pow(e, k) => {
				let mut v = 1.0;
				for _ in 0..*k {
					v *= e.eval(env, pen);
				}
				v
			}
			E::Con(l, e) => env.w.get(l).copied().unwrap_or(1.0) * e.eval(env, pen),
			E::Pen(e, p) => {
				let v = e.eval(env, pen);
				let q = p.eval(env, pen);
				*pen += q;
				v
			}
		}
	}
	/// Total energy at `env`: the value plus every penalty once.
	pub fn energy(&self, env: &Env) -> f64 {
		let mut pen = 0.0;
		let v = self.eval(env, &mut pen);
		v + pen
	}
	/// Sum of the absolute values of everything added up: the scale for tolerances.
	pub fn scale(&self, env: &Env) -> f64 {
		fn go(e: &E, env: &Env, pen: &mut f64) -> f64 {
			match e {
				E::Num(n) => (*n as f64 * env.unit).abs(),
				E::Bin(_) => 1.0,
				E::Spin(_) => 3.0,
				E::Ph(p) => env.ph[*p as usize].abs(),
				E::Add(l, r) | E::Sub(l, r) => go(l, env, pen) + go(r, env, pen),
				E::Mul(l, r) => go(l, env, pen) * go(r, env, pen),
				E::Neg(e) => go(e, env, pen),
				E::Pow(e, k) => (0..*k).map(|_| go(e, env, pen)).product(),
				E::Con(l, e) => env.w.get(l).copied().unwrap_or(1.0).abs() * go(e, env, pen),
				E::Pen(e, p) => {
					let v = go(e, env, pen);
					let q = go(p, env, pen);
					*pen += q;
					v
				}
			}
		}
		let mut pen = 0.0;
		go(self, env, &mut pen) + pen
	}
	pub fn visit(&self, f: &mut dyn FnMut(&E)) {
		f(self);
		match self {
			E::Add(l, r) | E::Sub(l, r) | E::Mul(l, r) | E::Pen(l, r) => {
				l.visit(f);
				r.visit(f);
			}
			E::Neg(e) | E::Pow(e, _) | E::Con(_, e) => e.visit(f),
			_ => {}
		}
	}
	/// Labels of the variables present in what is compiled.
	pub fn vars(&self) -> std::collections::BTreeSet<u8> {
		let mut s = std::collections::BTreeSet::new();
		fn go(e: &E, s: &mut std::collections::BTreeSet<u8>) {
			match e {
				E::Bin(q) | E::Spin(q) => {
					s.insert(*q);
				}
				E::Add(l, r) | E::Sub(l, r) | E::Mul(l, r) | E::Pen(l, r) => {
					go(l, s);
					go(r, s);
				}
				E::Neg(e) | E::Con(_, e) => go(e, s),
				E::Pow(e, k) => {
					if *k > 0 {
						go(e, s)
					}
				}
				_ => {}
			}
		}
		go(self, &mut s);
		s
	}
	pub fn phs(&self) -> std::collections::BTreeSet<u8> {
		let mut s = std::collections::BTreeSet::new();
		fn go(e: &E, s: &mut std::collections::BTreeSet<u8>) {
			match e {
				E::Ph(q) => {
					s.insert(*q);
				}
				E::Add(l, r) | E::Sub(l, r) | E::Mul(l, r) | E::Pen(l, r) => {
					go(l, s);
					go(r, s);
				}
				E::Neg(e) | E::Con(_, e) => go(e, s),
				E::Pow(e, k) => {
					if *k > 0 {
						go(e, s)
					}
				}
				_ => {}
			}
		}
		go(self, &mut s);
		s
	}
	/// Every constraint that the compiled model must carry, with multiplicity.
	pub fn constraints(&self) -> Vec<(u8, &E)> {
		fn go<'a>(e: &'a E, out: &mut Vec<(u8, &'a E)>) {
			match e {
				E::Con(l, inner) => out.push((*l, inner)),
				E::Add(l, r) | E::Sub(l, r) | E::Mul(l, r) | E::Pen(l, r) => {
					go(l, out);
					go(r, out);
				}
				E::Neg(e) => go(e, out),
				E::Pow(e, k) => {
					for _ in 0..*k {
						go(e, out)
					}
				}
				_ => {}
			}
		}
		let mut v = Vec::new();
		go(self, &mut v);
		v
	}
	pub fn degree(&self) -> u32 {
		match self {
			E::Num(_) | E::Ph(_) => 0,
			E::Bin(_) | E::Spin(_) => 1,
			E::Add(l, r) | E::Sub(l, r) | E::Pen(l, r) => l.degree().max(r.degree()),
			E::Mul(l, r) => l.degree() + r.degree(),
			E::Neg(e) | E::Con(_, e) => e.degree(),
			E::Pow(e, k) => e.degree() * *k as u32,
		}
	}
	/// How many numbers are multiplied with each other at most: with a unit
	/// of 1/4, every one of them takes two binary places.
	pub fn places(&self) -> f64 {
		match self {
			E::Num(_) | E::Ph(_) => 2.0,
			E::Bin(_) | E::Spin(_) => 0.0,
			E::Add(l, r) | E::Sub(l, r) | E::Pen(l, r) => l.places().max(r.places()),
			E::Mul(l, r) => l.places() + r.places(),
			E::Neg(e) | E::Con(_, e) => e.places(),
			E::Pow(e, k) => e.places() * *k as f64,
		}
	}
	/// Rough size of the expanded form (monomials times coefficient terms).
	pub fn bulk(&self) -> f64 {
		match self {
			E::Num(_) | E::Ph(_) | E::Bin(_) => 1.0,
			E::Spin(_) => 2.0,
			E::Add(l, r) | E::Sub(l, r) | E::Pen(l, r) => l.bulk() + r.bulk(),
			E::Mul(l, r) => l.bulk() * r.bulk(),
			E::Neg(e) | E::Con(_, e) => e.bulk(),
			E::Pow(e, k) => e.bulk().powi(*k as i32),
		}
	}
	/// Bound on the absolute value of every partial result (no factor counts
	/// as less than 1, so that a product with 0 hides nothing).
	pub fn magnitude(&self, unit: f64, ph: f64, w: f64) -> f64 {
		fn go(e: &E, k: (f64, f64, f64), pen: &mut f64) -> f64 {
			match e {
				E::Num(n) => (*n as f64 * k.0).abs().max(1.0),
				E::Bin(_) => 1.0,
				E::Spin(_) => 3.0,
				E::Ph(_) => k.1.max(1.0),
				E::Add(l, r) | E::Sub(l, r) => go(l, k, pen) + go(r, k, pen),
				E::Mul(l, r) => go(l, k, pen) * go(r, k, pen),
				E::Neg(e) => go(e, k, pen),
				E::Pow(e, n) => (0..*n).map(|_| go(e, k, pen)).product(),
				E::Con(_, e) => k.2.max(1.0) * go(e, k, pen),
				E::Pen(e, p) => {
					let v = go(e, k, pen);
					let q = go(p, k, pen);
					*pen += q;
					v
				}
			}
		}
		let mut pen = 0.0;
		go(self, (unit, ph, w), &mut pen) + pen
	}

	/// Rewrites (never rejects) so that the degree and the expanded size stay
	/// within bounds.
	pub fn cap(self, deg: u32, bulk: f64) -> E {
		match self {
			E::Add(l, r) => E::Add(b(l.cap(deg, bulk / 2.0)), b(r.cap(deg, bulk / 2.0))),
			E::Sub(l, r) => E::Sub(b(l.cap(deg, bulk / 2.0)), b(r.cap(deg, bulk / 2.0))),
			E::Pen(l, r) => E::Pen(b(l.cap(deg, bulk / 2.0)), b(r.cap(deg, bulk / 2.0))),
			E::Neg(e) => E::Neg(b(e.cap(deg, bulk))),
			E::Con(l, e) => E::Con(l, b(e.cap(deg, bulk))),
			E::Mul(l, r) => {
				let l = l.cap(deg, bulk);
				let r = r.cap(deg, bulk);
				if l.degree() + r.degree() > deg || l.bulk() * r.bulk() > bulk {
					E::Add(b(l), b(r)).cap(deg, bulk)
				} else {
					E::Mul(b(l), b(r))
				}
			}
			E::Pow(e, mut k) => {
				let e = e.cap(deg, bulk);
				while k > 1 && (e.degree() * k as u32 > deg || e.bulk().powi(k as i32) > bulk) {
					k -= 1;
				}
				E::Pow(b(e), k)
			}
			o => o,
		}
	}
}

pub fn from_units<R: Real>(n: i32, unit: f64) -> R {
	if unit == 1.0 {
		R::from_i32(n)
	} else {
		R::from_f64(n as f64 * unit)
	}
}

pub type LExpr<L, R> = Expr<u8, L, u8, R>;

/// Translate with the library's operators.
pub fn build<L: Label, R: Real>(e: &E, unit: f64) -> LExpr<L, R> {
	match e {
		E::Num(n) => Expr::Number(from_units::<R>(*n, unit)),
		E::Bin(q) => Expr::Binary(L::of(*q)),
		E::Spin(q) => Expr::Spin(L::of(*q)),
		E::Ph(p) => Expr::Placeholder(*p),
		E::Add(l, r) => build::<L, R>(l, unit) + build::<L, R>(r, unit),
		E::Sub(l, r) => build::<L, R>(l, unit) - build::<L, R>(r, unit),
		E::Mul(l, r) => build::<L, R>(l, unit) * build::<L, R>(r, unit),
		E::Neg(e) => -build::<L, R>(e, unit),
		E::Pow(e, k) => build::<L, R>(e, unit) ^ (*k as usize),
		E::Con(l, e) => Expr::Constraint {
			label: *l,
			expr: Box::new(build::<L, R>(e, unit)),
		},
		E::Pen(e, p) => Expr::WithPenalty {
			expr: Box::new(build::<L, R>(e, unit)),
			penalty: Box::new(build::<L, R>(p, unit)),
		},
	}
}

/// Reference evaluation of the library's own expression tree (its variants
/// are public), in f64.
pub fn eval_expr<L: Label, R: Real>(
	e: &LExpr<L, R>,
	x: &HashMap<L, bool>,
	ph: &dyn Fn(u8) -> f64,
	w: &dyn Fn(u8) -> f64,
	pen: &mut f64,
) -> f64 {
	match e {
		Expr::Placeholder(p) => ph(*p),
		Expr::Number(n) => n.as_f64(),
		Expr::Binary(q) => {
			if x[q] {
				1.0
			} else {
				0.0
			}
		}
		Expr::Spin(q) => {
			if x[q] {
				1.0
			} else {
				-1.0
			}
		}
		Expr::Add(l, r) => eval_expr(l, x, ph, w, pen) + eval_expr(r, x, ph, w, pen),
		Expr::Mul(l, r) => eval_expr(l, x, ph, w, pen) * eval_expr(r, x, ph, w, pen),
		Expr::Constraint { label, expr } => w(*label) * eval_expr(expr, x, ph, w, pen),
		Expr::WithPenalty { expr, penalty } => {
			let v = eval_expr(expr, x, ph, w, pen);
			let p = eval_expr(penalty, x, ph, w, pen);
			*pen += p;
			v
		}
	}
}

// ---------------------------------------------------------------------------
// Generators

#[derive(Clone, Copy, Debug)]
pub struct GenCfg {
	pub vars: u8,
	pub phs: u8,
	pub cons: u8,
	pub pens: bool,
	pub deg: u32,
	pub bulk: f64,
	pub coef: i32,
}

fn leaf(cfg: GenCfg) -> BoxedStrategy<E> {
	let mut v: Vec<(u32, BoxedStrategy<E>)> = vec![
		(2, (-cfg.coef..=cfg.coef).prop_map(E::Num).boxed()),
		(5, (0..cfg.vars).prop_map(E::Bin).boxed()),
		(3, (0..cfg.vars).prop_map(E::Spin).boxed()),
	];
	if cfg.phs > 0 {
		v.push((2, (0..cfg.phs).prop_map(E::Ph).boxed()));
	}
	proptest::strategy::Union::new_weighted(v).boxed()
}

/// Free-form trees of arithmetic without constraints or penalties.
pub fn tree(cfg: GenCfg) -> BoxedStrategy<E> {
	leaf(cfg)
		.prop_recursive(5, 24, 2, |inner| {
			prop_oneof![
				4 => (inner.clone(), inner.clone()).prop_map(|(l, r)| E::Add(b(l), b(r))),
				2 => (inner.clone(), inner.clone()).prop_map(|(l, r)| E::Sub(b(l), b(r))),
				5 => (inner.clone(), inner.clone()).prop_map(|(l, r)| E::Mul(b(l), b(r))),
				1 => inner.clone().prop_map(|e| E::Neg(b(e))),
				2 => (inner, 0u8..5).prop_map(|(e, k)| E::Pow(b(e), k)),
			]
		})
		.prop_map(move |e| e.cap(cfg.deg, cfg.bulk))
		.boxed()
}

#[derive(Clone, Debug)]
struct Mono {
	coef: i32,
	vars: Vec<u8>,
	phs: Vec<u8>,
	spin: bool,
}

fn mono_to_e(m: &Mono) -> E {
	let mut e = E::Num(m.coef);
	for p in m.phs.iter() {
		e = E::Mul(b(e), b(E::Ph(*p)));
	}
	for (k, q) in m.vars.iter().enumerate() {
		let leaf = if m.spin && k == 0 { E::Spin(*q) } else { E::Bin(*q) };
		e = E::Mul(b(e), b(leaf));
	}
	e
}

/// Sums of monomials: overlapping variable sets, both signs, degrees up to
/// `cfg.deg`.
pub fn poly(cfg: GenCfg, max_terms: usize) -> BoxedStrategy<E> {
	let vars: Vec<u8> = (0..cfg.vars).collect();
	let deg = (cfg.deg as usize).min(vars.len());
	let mono = (
		prop_oneof![8 => 1..=cfg.coef, 8 => -cfg.coef..=-1, 1 => Just(0)],
		proptest::sample::subsequence(vars, 0..=deg),
		proptest::collection::vec(0..cfg.phs.max(1), 0..=2),
		proptest::bool::weighted(0.15),
	)
		.prop_map(move |(coef, vars, phs, spin)| Mono {
			coef,
			vars,
			phs: if cfg.phs == 0 { vec![] } else { phs },
			spin,
		});
	proptest::collection::vec(mono, 1..=max_terms)
		.prop_map(|ms| {
			let mut it = ms.iter().map(mono_to_e);
			let first = it.next().unwrap();
			it.fold(first, |a, m| E::Add(b(a), b(m)))
		})
		.boxed()
}

/// A whole problem: arithmetic, constraints and penalties mixed.
pub fn problem(cfg: GenCfg) -> BoxedStrategy<E> {
	let base = prop_oneof![1 => tree(cfg), 1 => poly(cfg, 6)].boxed();
	let mut top: Vec<(u32, BoxedStrategy<E>)> = vec![(3, base.clone())];
	if cfg.cons > 0 {
		top.push((
			4,
			(0..cfg.cons, base.clone())
				.prop_map(|(l, e)| E::Con(l, b(e)))
				.boxed(),
		));
	}
	let leaf = proptest::strategy::Union::new_weighted(top).boxed();
	let pens = cfg.pens;
	leaf.prop_recursive(4, 12, 2, move |inner| {
		let mut v: Vec<(u32, BoxedStrategy<E>)> = vec![
			(
				6,
				(inner.clone(), inner.clone())
					.prop_map(|(l, r)| E::Add(b(l), b(r)))
					.boxed(),
			),
			(
				1,
				(inner.clone(), inner.clone())
					.prop_map(|(l, r)| E::Sub(b(l), b(r)))
					.boxed(),
			),
			(
				2,
				(inner.clone(), inner.clone())
					.prop_map(|(l, r)| E::Mul(b(l), b(r)))
					.boxed(),
			),
			(1, inner.clone().prop_map(|e| E::Neg(b(e))).boxed()),
			(
				1,
				(inner.clone(), 0u8..3)
					.prop_map(|(e, k)| E::Pow(b(e), k))
					.boxed(),
			),
		];
		if pens {
			v.push((
				4,
				(inner.clone(), inner)
					.prop_map(|(e, p)| E::Pen(b(e), b(p)))
					.boxed(),
			));
		}
		proptest::strategy::Union::new_weighted(v)
	})
	.prop_map(move |e| e.cap(cfg.deg, cfg.bulk))
	.boxed()
}

/// Long sums over many variables, constraints and penalties: every item is
/// small, so that the expanded form stays about as long as the expression.
pub fn wide(cfg: GenCfg, terms: std::ops::RangeInclusive<usize>) -> BoxedStrategy<E> {
	let leaf = move || {
		prop_oneof![
			5 => (0..cfg.vars).prop_map(E::Bin),
			1 => (0..cfg.vars).prop_map(E::Spin)
		]
	};
	let coef = move || prop_oneof![1..=cfg.coef, -cfg.coef..=-1];
	let sum = || {
		(proptest::collection::vec(leaf(), 1..6), -3..=3i32).prop_map(|(l, k)| {
			let s = l
				.into_iter()
				.fold(E::Num(k), |a, l| E::Add(b(a), b(l)));
			E::Pow(b(s), 2)
		})
	};
	let mut plain: Vec<(u32, BoxedStrategy<E>)> = vec![
		(
			4,
			(coef(), leaf())
				.prop_map(|(c, l)| E::Mul(b(E::Num(c)), b(l)))
				.boxed(),
		),
		(
			8,
			(coef(), leaf(), leaf())
				.prop_map(|(c, l, r)| E::Mul(b(E::Mul(b(E::Num(c)), b(l))), b(r)))
				.boxed(),
		),
		(1, sum().boxed()),
	];
	if cfg.deg > 2 {
		plain.push((
			1,
			(coef(), leaf(), leaf(), leaf())
				.prop_map(|(c, x, y, z)| {
					E::Mul(b(E::Mul(b(E::Mul(b(E::Num(c)), b(x))), b(y))), b(z))
				})
				.boxed(),
		));
	}
	if cfg.phs > 0 {
		plain.push((
			4,
			(0..cfg.phs, coef(), leaf())
				.prop_map(|(p, c, l)| E::Mul(b(E::Mul(b(E::Ph(p)), b(E::Num(c)))), b(l)))
				.boxed(),
		));
	}
	let plain = proptest::strategy::Union::new_weighted(plain).boxed();
	let mut item: Vec<(u32, BoxedStrategy<E>)> = vec![(6, plain.clone())];
	if cfg.cons > 0 {
		item.push((
			6,
			(0..cfg.cons, prop_oneof![sum().boxed(), plain.clone()])
				.prop_map(|(l, e)| E::Con(l, b(e)))
				.boxed(),
		));
	}
	if cfg.pens {
		item.push((
			4,
			(plain.clone(), plain)
				.prop_map(|(e, p)| E::Pen(b(e), b(p)))
				.boxed(),
		));
	}
	let item = proptest::strategy::Union::new_weighted(item);
	(proptest::collection::vec((item, 0u8..8), terms), any::<bool>())
		.prop_map(|(items, balanced)| {
			let parts: Vec<E> = items
				.into_iter()
				.map(|(e, k)| match k {
					0 => E::Neg(b(e)),
					_ => e,
				})
				.collect();
			if balanced {
				sum_of(parts)
			} else {
				let mut it = parts.into_iter();
				let first = it.next().unwrap();
				it.enumerate().fold(first, |a, (k, e)| {
					if k % 5 == 4 {
						E::Sub(b(a), b(e))
					} else {
						E::Add(b(a), b(e))
					}
				})
			}
		})
		.boxed()
}

/// The sum of some terms as a tree of little depth.
pub fn sum_of(mut parts: Vec<E>) -> E {
	while parts.len() > 1 {
		let mut next = vec![];
		let mut it = parts.into_iter();
		while let Some(l) = it.next() {
			next.push(match it.next() {
				Some(r) => E::Add(b(l), b(r)),
				None => l,
			});
		}
		parts = next;
	}
	parts.pop().unwrap_or(E::Num(0))
}

/// One more than the largest variable mentioned, at least `min`.
pub fn nvars(e: &E, min: u8) -> u8 {
	let mut n = min;
	e.visit(&mut |e| {
		if let E::Bin(q) | E::Spin(q) = e {
			n = n.max(q.saturating_add(1));
		}
	});
	n
}
