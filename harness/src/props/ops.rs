//! C07 (operators are arithmetic) and C08 (`map` visits and rebuilds the
//! whole expression).
use crate::ast::*;
use crate::fw::*;
use annealers::variable::Real;
use proptest::prelude::*;
use rustqubo::Expr;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Num {
	I8,
	I16,
	I32,
	I64,
	I128,
	F32,
	F64,
}

impl Num {
	/// Largest magnitude of values kept within the type.
	fn room(self) -> f64 {
		match self {
			Num::I8 => 100.0,
			Num::I16 => 3.0e4,
			Num::I32 => 2.0e9,
			Num::I64 | Num::I128 => 1.0e15,
			Num::F32 => 1.0e6,
			Num::F64 => 1.0e15,
		}
	}
	fn float(self) -> bool {
		matches!(self, Num::F32 | Num::F64)
	}
}

/// One step of a program that works on an accumulator.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
	Add(E),
	Sub(E),
	Mul(E),
	RAdd(E),
	RSub(E),
	RMul(E),
	AddN(i32),
	SubN(i32),
	MulN(i32),
	NAdd(i32),
	NSub(i32),
	NMul(i32),
	Pow(u8),
	Neg,
	AddAs(E),
	SubAs(E),
	MulAs(E),
	AddAsN(i32),
	SubAsN(i32),
	MulAsN(i32),
	PowAs(u8),
	From(i32),
	AddZero,
	MulOne,
	/// keep a copy that later steps must not affect
	Fork,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpsCase {
	pub ty: Num,
	pub quarter: bool,
	pub start: E,
	pub steps: Vec<Step>,
	pub boxed: bool,
}

/// Values at every assignment (and placeholder/constraint setting) of an
/// expression, penalties aside.
type Vals = Vec<f64>;

struct Points {
	envs: Vec<Env>,
}

fn points(unit: f64) -> Points {
	let mut envs = Vec::new();
	for k in 0..16u32 {
		envs.push(Env {
			x: (0..4).map(|i| (k >> i) & 1 == 1).collect(),
			ph: vec![2.0 + (k % 3) as f64, 3.0],
			w: [(0u8, 2.0), (1u8, 1.0 + (k % 2) as f64)].into_iter().collect(),
			unit,
		});
	}
	Points { envs }
}

fn ref_vals(e: &E, p: &Points) -> (Vals, Vals) {
	p.envs
		.iter()
		.map(|env| {
			let mut pen = 0.0;
			let v = e.eval(env, &mut pen);
			(v, pen)
		})
		.unzip()
}

fn lib_vals<R: Real>(e: &LExpr<FL, R>, p: &Points) -> (Vals, Vals) {
	p.envs
		.iter()
		.map(|env| {
			let x: HashMap<FL, bool> = env
				.x
				.iter()
				.enumerate()
				.map(|(i, b)| (FL(i as u8), *b))
				.collect();
			let mut pen = 0.0;
			let v = eval_expr(
				e,
				&x,
				&|p| env.ph[p as usize],
				&|c| env.w[&c],
				&mut pen,
			);
			(v, pen)
		})
		.unzip()
}

#[derive(Clone)]
struct Acc<R: Real> {
	e: LExpr<FL, R>,
	v: Vals,
	pen: Vals,
	/// bound on the magnitude of anything in the expression
	mag: f64,
	size: f64,
	/// binary places after the point
	places: f64,
}

macro_rules! ops_for {
	($name:ident, $t:ty) => {
		fn $name(c: &OpsCase, ctx: &mut Ctx) -> Res {
			type X = LExpr<FL, $t>;
			let unit = if c.quarter && c.ty.float() { 0.25 } else { 1.0 };
			let num = |n: i32| -> $t { from_units::<$t>(n, unit) };
			let p = points(unit);
			let room = c.ty.room();
			let magn = |e: &E| e.magnitude(unit, 4.0, 2.0);
			let (v, pen) = ref_vals(&c.start, &p);
			let quarter = unit != 1.0;
			let fine = |e: &E| if quarter { e.places() } else { 0.0 };
			if magn(&c.start) * fine(&c.start).exp2() > room {
				return Ok(());
			}
			let mut acc = Acc::<$t> {
				e: build::<FL, $t>(&c.start, unit),
				v,
				pen,
				mag: magn(&c.start),
				size: c.start.bulk(),
				places: fine(&c.start),
			};
			let mut forks: Vec<Acc<$t>> = Vec::new();
			let mut applied = std::collections::HashSet::new();
			for s in c.steps.iter() {
				let other = match s {
					Step::Add(e)
					| Step::Sub(e)
					| Step::Mul(e)
					| Step::RAdd(e)
					| Step::RSub(e)
					| Step::RMul(e)
					| Step::AddAs(e)
					| Step::SubAs(e)
					| Step::MulAs(e) => Some(e.clone()),
					Step::AddN(n)
					| Step::SubN(n)
					| Step::MulN(n)
					| Step::NAdd(n)
					| Step::NSub(n)
					| Step::NMul(n)
					| Step::AddAsN(n)
					| Step::SubAsN(n)
					| Step::MulAsN(n)
					| Step::From(n) => Some(E::Num(*n)),
					_ => None,
				};
				// Skip steps that would leave the range of the type.
				let om = other.as_ref().map(&magn).unwrap_or(1.0);
				let (nm, ns) = match s {
					Step::Mul(_)
					| Step::RMul(_)
					| Step::MulAs(_)
					| Step::MulN(_)
					| Step::NMul(_)
					| Step::MulAsN(_) => (acc.mag * om, acc.size + 8.0),
					Step::Pow(k) | Step::PowAs(k) => {
						(acc.mag.powi(*k as i32), acc.size * (*k).max(1) as f64)
					}
					Step::Fork | Step::Neg => (acc.mag, acc.size),
					Step::From(_) => (om, 1.0),
					_ => (acc.mag + om, acc.size + 8.0),
				};
				let of = other.as_ref().map(&fine).unwrap_or(0.0);
				let np = match s {
					Step::Mul(_)
					| Step::RMul(_)
					| Step::MulAs(_)
					| Step::MulN(_)
					| Step::NMul(_)
					| Step::MulAsN(_) => acc.places + of,
					Step::Pow(k) | Step::PowAs(k) => acc.places * (*k).max(1) as f64,
					_ => acc.places.max(of),
				};
				if nm * np.exp2() > room || ns > 4000.0 {
					continue;
				}
				let (ov, op) = match &other {
					Some(e) => ref_vals(e, &p),
					None => (vec![0.0; p.envs.len()], vec![0.0; p.envs.len()]),
				};
				let oe: Option<X> = other.as_ref().map(|e| build::<FL, $t>(e, unit));
				applied.insert(std::mem::discriminant(s));
				let zip = |a: &Vals, b: &Vals, f: &dyn Fn(f64, f64) -> f64| -> Vals {
					a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect()
				};
				let cur = acc.e.clone();
				let before = acc.e.clone();
				let mut pen = zip(&acc.pen, &op, &|a, b| a + b);
				let (e, v): (X, Vals) = match s {
					Step::Add(_) => (cur + oe.unwrap(), zip(&acc.v, &ov, &|a, b| a + b)),
					Step::Sub(_) => (cur - oe.unwrap(), zip(&acc.v, &ov, &|a, b| a - b)),
					Step::Mul(_) => (cur * oe.unwrap(), zip(&acc.v, &ov, &|a, b| a * b)),
					Step::RAdd(_) => (oe.unwrap() + cur, zip(&acc.v, &ov, &|a, b| b + a)),
					Step::RSub(_) => (oe.unwrap() - cur, zip(&acc.v, &ov, &|a, b| b - a)),
					Step::RMul(_) => (oe.unwrap() * cur, zip(&acc.v, &ov, &|a, b| b * a)),
					Step::AddN(n) => (cur + num(*n), zip(&acc.v, &ov, &|a, b| a + b)),
					Step::SubN(n) => (cur - num(*n), zip(&acc.v, &ov, &|a, b| a - b)),
					Step::MulN(n) => (cur * num(*n), zip(&acc.v, &ov, &|a, b| a * b)),
					Step::NAdd(n) => (num(*n) + cur, zip(&acc.v, &ov, &|a, b| b + a)),
					Step::NSub(n) => (num(*n) - cur, zip(&acc.v, &ov, &|a, b| b - a)),
					Step::NMul(n) => (num(*n) * cur, zip(&acc.v, &ov, &|a, b| b * a)),
					Step::AddAs(_) | Step::AddAsN(_) => {
						let mut m = cur;
						match s {
							Step::AddAsN(n) => m += num(*n),
							_ => m += oe.unwrap(),
						}
						(m, zip(&acc.v, &ov, &|a, b| a + b))
					}
					Step::SubAs(_) | Step::SubAsN(_) => {
						let mut m = cur;
						match s {
							Step::SubAsN(n) => m -= num(*n),
							_ => m -= oe.unwrap(),
						}
						(m, zip(&acc.v, &ov, &|a, b| a - b))
					}
					Step::MulAs(_) | Step::MulAsN(_) => {
						let mut m = cur;
						match s {
							Step::MulAsN(n) => m *= num(*n),
							_ => m *= oe.unwrap(),
						}
						(m, zip(&acc.v, &ov, &|a, b| a * b))
					}
					Step::Pow(k) | Step::PowAs(k) => {
						// A power carries the penalties once per factor.
						pen = acc.pen.iter().map(|x| x * *k as f64).collect();
						let v = acc.v.iter().map(|x| x.powi(*k as i32)).collect();
						let e = if let Step::Pow(_) = s {
							cur ^ (*k as usize)
						} else {
							let mut m = cur;
							m ^= *k as usize;
							m
						};
						(e, v)
					}
					Step::Neg => (-cur, acc.v.iter().map(|x| -x).collect()),
					Step::From(n) => {
						pen = op;
						(X::from(num(*n)), ov)
					}
					Step::AddZero => (cur + X::zero(), acc.v.clone()),
					Step::MulOne => (X::one() * cur, acc.v.clone()),
					Step::Fork => {
						if forks.len() < 4 {
							forks.push(acc.clone());
						}
						(cur, acc.v.clone())
					}
				};
				if before != acc.e {
					return Err("an operation changed a copy of its operand".into());
				}
				acc = Acc {
					e,
					v,
					pen,
					mag: nm.max(1.0),
					size: ns,
					places: np,
				};
				if acc.pen.iter().any(|p| p.abs() > 1.0e15) {
					break;
				}
				same(&acc, &p, &format!("{s:?}"), ctx)?;
			}
			for f in forks.iter() {
				same(f, &p, "copy", ctx)?;
			}
			ctx.nontrivial_if(applied.len() >= 2);
			ctx.label(stringify!($t));
			for s in c.steps.iter() {
				ctx.label(format!("{s:?}").split(&['(', ' '][..]).next().unwrap().to_string());
			}
			Ok(())
		}
	};
}

fn same<R: Real>(a: &Acc<R>, p: &Points, what: &str, ctx: &mut Ctx) -> Res {
	let (v, pen) = lib_vals(&a.e, p);
	ctx.sub += v.len() as u64;
	if v != a.v {
		let k = (0..v.len()).find(|k| v[*k] != a.v[*k]).unwrap();
		return Err(format!(
			"after {what}: the expression is worth {} where arithmetic gives {} ({:?})",
			v[k], a.v[k], a.e
		));
	}
	if pen != a.pen {
		return Err(format!(
			"after {what}: penalties {:?} where {:?} were written ({:?})",
			pen, a.pen, a.e
		));
	}
	Ok(())
}

ops_for!(ops_i8, i8);
ops_for!(ops_i16, i16);
ops_for!(ops_i32, i32);
ops_for!(ops_i64, i64);
ops_for!(ops_i128, i128);
ops_for!(ops_f32, f32);
ops_for!(ops_f64, f64);

struct OpsLeg {
	long: bool,
}
impl Leg for OpsLeg {
	type Case = OpsCase;
	fn name(&self) -> &'static str {
		if self.long {
			"long-programs"
		} else {
			"programs"
		}
	}
	fn rule(&self) -> &'static str {
		if self.long {
			return "As 'programs', with 15 to 150 steps, most of them sums, and powers up to 40.";
		}
		"A program of up to 14 operator applications (expression/expression, number on either side, assigning forms, powers, negation, From, zero/one, copies) over one of the seven number types; after each step the tree is evaluated at 16 assignments and compared with arithmetic. Non-trivial: at least two different operators were applied."
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.long {
			t.pick(4_000, 80_000)
		} else {
			t.pick(300_000, 4_000_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<OpsCase> {
		let e = small_expr();
		let n = -5i32..=5;
		let k = prop_oneof![3 => 0u8..5, 1 => 5u8..14];
		let step = prop_oneof![
			e.clone().prop_map(Step::Add),
			e.clone().prop_map(Step::Sub),
			e.clone().prop_map(Step::Mul),
			e.clone().prop_map(Step::RAdd),
			e.clone().prop_map(Step::RSub),
			e.clone().prop_map(Step::RMul),
			n.clone().prop_map(Step::AddN),
			n.clone().prop_map(Step::SubN),
			n.clone().prop_map(Step::MulN),
			n.clone().prop_map(Step::NAdd),
			n.clone().prop_map(Step::NSub),
			n.clone().prop_map(Step::NMul),
			k.clone().prop_map(Step::Pow),
			Just(Step::Neg),
			e.clone().prop_map(Step::AddAs),
			e.clone().prop_map(Step::SubAs),
			e.clone().prop_map(Step::MulAs),
			n.clone().prop_map(Step::AddAsN),
			n.clone().prop_map(Step::SubAsN),
			n.clone().prop_map(Step::MulAsN),
			k.prop_map(Step::PowAs),
			n.prop_map(Step::From),
			Just(Step::AddZero),
			Just(Step::MulOne),
			Just(Step::Fork),
		]
		.boxed();
		let (step, len) = if self.long {
			let sums = prop_oneof![
				e.clone().prop_map(Step::Add),
				e.clone().prop_map(Step::Sub),
				e.clone().prop_map(Step::RAdd),
				e.clone().prop_map(Step::RSub),
				e.clone().prop_map(Step::AddAs),
				e.clone().prop_map(Step::SubAs),
				(-5i32..=5).prop_map(Step::NSub),
				(-5i32..=5).prop_map(Step::AddAsN),
				Just(Step::Neg),
				(0u8..40).prop_map(Step::Pow),
			];
			(prop_oneof![4 => sums.boxed(), 1 => step].boxed(), 15..150)
		} else {
			(step, 1..14)
		};
		(
			prop_oneof![
				Just(Num::I8),
				Just(Num::I16),
				Just(Num::I32),
				Just(Num::I64),
				Just(Num::I128),
				Just(Num::F32),
				Just(Num::F64)
			],
			any::<bool>(),
			e,
			proptest::collection::vec(step, len),
			any::<bool>(),
		)
			.prop_map(|(ty, quarter, start, steps, boxed)| OpsCase {
				ty,
				quarter,
				start,
				steps,
				boxed,
			})
			.boxed()
	}
	fn check(&self, c: &OpsCase, ctx: &mut Ctx) -> Res {
		match c.ty {
			Num::I8 => ops_i8(c, ctx),
			Num::I16 => ops_i16(c, ctx),
			Num::I32 => ops_i32(c, ctx),
			Num::I64 => ops_i64(c, ctx),
			Num::I128 => ops_i128(c, ctx),
			Num::F32 => ops_f32(c, ctx),
			Num::F64 => ops_f64(c, ctx),
		}
	}
}

/// Few nodes, few variables, every kind of leaf.
fn small_expr() -> BoxedStrategy<E> {
	let leaf = prop_oneof![
		2 => (-4i32..=4).prop_map(E::Num),
		3 => (0u8..4).prop_map(E::Bin),
		3 => (0u8..4).prop_map(E::Spin),
		1 => (0u8..2).prop_map(E::Ph),
	];
	leaf.prop_recursive(2, 4, 2, |inner| {
		prop_oneof![
			3 => (inner.clone(), inner.clone()).prop_map(|(l, r)| E::Add(b(l), b(r))),
			3 => (inner.clone(), inner.clone()).prop_map(|(l, r)| E::Mul(b(l), b(r))),
			1 => (0u8..2, inner.clone()).prop_map(|(c, e)| E::Con(c, b(e))),
			1 => (inner.clone(), inner.clone()).prop_map(|(l, r)| E::Pen(b(l), b(r))),
			1 => inner.prop_map(|e| E::Neg(b(e))),
		]
	})
	.boxed()
}



pub fn c07() -> Property {
	Property {
		id: "C07",
		legs: vec![Box::new(OpsLeg { long: false }), Box::new(OpsLeg { long: true })],
		assumptions: &["values stay within the exactly representable range of the number type"],
	}
}

// ---------------------------------------------------------------------------
// C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MapCase {
	pub e: E,
	/// what each variable is replaced with (variables 8.. are fresh)
	pub to: Vec<E>,
	/// replace placeholders with these numbers
	pub ph: Vec<Option<i32>>,
	/// add this to every number
	pub shift: i32,
	pub swap: bool,
}

type X = Expr<u8, u8, u8, i64>;

fn size_of(e: &X) -> usize {
	1 + match e {
		Expr::Add(l, r) | Expr::Mul(l, r) => size_of(l) + size_of(r),
		Expr::Constraint { expr, .. } => size_of(expr),
		Expr::WithPenalty { expr, penalty } => size_of(expr) + size_of(penalty),
		_ => 0,
	}
}

/// Structural substitution of the leaves.
fn subst(e: &X, f: &dyn Fn(&X) -> Option<X>) -> X {
	match e {
		Expr::Add(l, r) => Expr::Add(Box::new(subst(l, f)), Box::new(subst(r, f))),
		Expr::Mul(l, r) => Expr::Mul(Box::new(subst(l, f)), Box::new(subst(r, f))),
		Expr::Constraint { label, expr } => Expr::Constraint {
			label: *label,
			expr: Box::new(subst(expr, f)),
		},
		Expr::WithPenalty { expr, penalty } => Expr::WithPenalty {
			expr: Box::new(subst(expr, f)),
			penalty: Box::new(subst(penalty, f)),
		},
		leaf => f(leaf).unwrap_or_else(|| leaf.clone()),
	}
}

fn leaves(e: &X, out: &mut Vec<X>) {
	match e {
		Expr::Add(l, r) | Expr::Mul(l, r) => {
			leaves(l, out);
			leaves(r, out);
		}
		Expr::Constraint { expr, .. } => leaves(expr, out),
		Expr::WithPenalty { expr, penalty } => {
			leaves(expr, out);
			leaves(penalty, out);
		}
		leaf => out.push(leaf.clone()),
	}
}

fn map_check(c: &MapCase, ctx: &mut Ctx) -> Res {
	let e: X = build::<u8, i64>(&c.e, 1.0);
	// 1. Doing nothing changes nothing, and every node is shown exactly once.
	let mut seen = 0usize;
	let mut seen_leaves = Vec::new();
	let same = e.clone().map(&mut |n| {
		seen += 1;
		if size_of(&n) == 1 {
			seen_leaves.push(n.clone());
		}
		n
	});
	ctx.sub += 1;
	if same != e {
		return Err(format!("mapping with the identity turned {e:?} into {same:?}"));
	}
	if seen != size_of(&e) {
		return Err(format!(
			"{seen} calls of the function for the {} nodes of {e:?}",
			size_of(&e)
		));
	}
	let mut want = Vec::new();
	leaves(&e, &mut want);
	// every leaf once, in whatever order
	let mut sorted: Vec<String> = want.iter().map(|l| format!("{l:?}")).collect();
	let mut shown: Vec<String> = seen_leaves.iter().map(|l| format!("{l:?}")).collect();
	sorted.sort();
	shown.sort();
	if sorted != shown {
		return Err(format!("the leaves of {e:?} were shown as {seen_leaves:?}"));
	}
	// 2. Substituting the leaves: every occurrence, nothing else.
	let rule = |l: &X| -> Option<X> {
		match l {
			Expr::Binary(q) | Expr::Spin(q) if (*q as usize) < c.to.len() => {
				let t = build::<u8, i64>(&c.to[*q as usize], 1.0);
				match (l, c.swap) {
					(Expr::Spin(_), true) => None,
					_ => Some(t),
				}
			}
			Expr::Placeholder(p) => c.ph.get(*p as usize).copied().flatten().map(|n| {
				// shown again to the function below, as any number
				Expr::Number(n as i64)
			}),
			_ => None,
		}
	};
	let got = e.clone().map(&mut |n| match rule(&n) {
		Some(t) => t,
		None => n,
	});
	let want = subst(&e, &rule);
	ctx.sub += 1;
	if got != want {
		return Err(format!("substituting in {e:?} gave {got:?}, not {want:?}"));
	}
	// 3. Numbers in place.
	let got = e.clone().map(&mut |n| match n {
		Expr::Number(k) => Expr::Number(k + c.shift as i64),
		o => o,
	});
	let want = subst(&e, &|l| match l {
		Expr::Number(k) => Some(Expr::Number(k + c.shift as i64)),
		_ => None,
	});
	ctx.sub += 1;
	if got != want {
		return Err(format!("shifting the numbers of {e:?} gave {got:?}"));
	}
	// 4. Mapping twice is mapping with the composition (renaming).
	let ren = |k: u8| {
		move |n: X| match n {
			Expr::Binary(q) => Expr::Binary(q.wrapping_add(k)),
			Expr::Spin(q) => Expr::Spin(q.wrapping_add(k)),
			o => o,
		}
	};
	let twice = e.clone().map(&mut ren(3)).map(&mut ren(7));
	let once = e.clone().map(&mut ren(10));
	ctx.sub += 1;
	if twice != once {
		return Err(format!("renaming {e:?} by 3 then 7 differs from renaming by 10"));
	}
	let mut inside = false;
	c.e.visit(&mut |n| {
		if matches!(n, E::Con(..) | E::Pen(..)) {
			inside = true
		}
	});
	ctx.nontrivial_if(got != e || twice != e);
	if inside {
		ctx.label("constraint or penalty");
	}
	Ok(())
}

struct MapLeg {
	long: bool,
}
impl Leg for MapLeg {
	type Case = MapCase;
	fn name(&self) -> &'static str {
		if self.long {
			"map-long"
		} else {
			"map"
		}
	}
	fn rule(&self) -> &'static str {
		if self.long {
			return "As 'map', with expressions of up to 250 terms over up to 250 variables.";
		}
		"An expression with any of the eight kinds of node, and a substitution. Non-trivial: some leaf is replaced or renamed."
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.long {
			t.pick(1_500, 40_000)
		} else {
			t.pick(200_000, 3_000_000)
		}
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<MapCase> {
		let cfg = GenCfg {
			vars: 5,
			phs: 3,
			cons: 3,
			pens: true,
			deg: 12,
			bulk: 1e6,
			coef: 6,
		};
		// Fresh variables only, so that the order of visits cannot matter.
		let f = if self.long { 250u8 } else { 8 };
		let fresh = prop_oneof![
			(f..f + 4).prop_map(E::Bin),
			(f..f + 4).prop_map(E::Spin),
			(-3i32..=3).prop_map(E::Num),
			((f..f + 4), (-3i32..=3)).prop_map(|(q, k)| E::Add(b(E::Bin(q)), b(E::Num(k)))),
			((f..f + 4), (f..f + 4)).prop_map(|(q, k)| E::Mul(b(E::Bin(q)), b(E::Spin(k)))),
		];
		let e = if self.long {
			wide(GenCfg { vars: 250, deg: 3, ..cfg }, 10..=250)
		} else {
			problem(cfg)
		};
		(
			e,
			proptest::collection::vec(fresh, if self.long { 0..200 } else { 0..6 }),
			proptest::collection::vec(proptest::option::of(-4i32..=4), 0..4),
			-3i32..=3,
			any::<bool>(),
		)
			.prop_map(|(e, to, ph, shift, swap)| MapCase {
				e,
				to,
				ph,
				shift,
				swap,
			})
			.boxed()
	}
	fn check(&self, c: &MapCase, ctx: &mut Ctx) -> Res {
		map_check(c, ctx)
	}
}

pub fn c08() -> Property {
	Property {
		id: "C08",
		legs: vec![Box::new(MapLeg { long: false }), Box::new(MapLeg { long: true })],
		assumptions: &[],
	}
}
