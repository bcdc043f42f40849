//! The model and solution types of `annealers`: C09 to C14 and C21.
use crate::ast::from_units;
use crate::capture::close;
use crate::fw::*;
use crate::props::energy::Ty;
use annealers::model::{
	FixedSingleModelView, FixedSingleQuadricModel, ModelView, Neighbors, Prods, SingleModel,
	SingleModelView,
};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::solver::{
	Solver, SolverGenerator, StructuredSolverGenerator, UnstructuredSolverGenerator,
};
use annealers::variable::{ConvertForce, ConvertFrom, ConvertTo, ConvertWith, Real};
use proptest::prelude::*;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

macro_rules! by_ty {
	($ty:expr, $f:ident ( $($a:expr),* )) => {
		match $ty {
			Ty::I8 => $f::<i8>($($a),*),
			Ty::I16 => $f::<i16>($($a),*),
			Ty::I32 => $f::<i32>($($a),*),
			Ty::I64 => $f::<i64>($($a),*),
			Ty::I128 => $f::<i128>($($a),*),
			Ty::F32 => $f::<f32>($($a),*),
			Ty::F64 => $f::<f64>($($a),*),
		}
	};
}

fn arb_ty() -> BoxedStrategy<Ty> {
	prop_oneof![
		3 => Just(Ty::F64), 1 => Just(Ty::F32), 2 => Just(Ty::I32),
		1 => Just(Ty::I64), 1 => Just(Ty::I128), 1 => Just(Ty::I16),
		1 => Just(Ty::I8)
	]
	.boxed()
}

// ---------------------------------------------------------------------------
// C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Add(u16, u16, i8),
	/// indices possibly out of range
	AddAny(u16, u16, i8),
	GetAny(u16, u16),
	Fork,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DenseCase {
	pub size: u16,
	pub ty: Ty,
	pub quarter: bool,
	pub ops: Vec<Op>,
	/// weights are multiples of 2^mag for f64
	#[serde(default)]
	pub mag: i8,
}

impl DenseCase {
	fn unit(&self) -> f64 {
		let u = if self.quarter && matches!(self.ty, Ty::F32 | Ty::F64) { 0.25 } else { 1.0 };
		if self.ty == Ty::F64 {
			u * (self.mag as f64).exp2()
		} else {
			u
		}
	}
	fn total(&self) -> i64 {
		let mut t = 0;
		for o in self.ops.as_slice().iter() {
			if let Op::Add(_, _, w) | Op::AddAny(_, _, w) = o {
				t += (*w as i64).abs();
			}
		}
		t
	}
}

fn dense_equals<N: SingleNode>(
	m: &FixedSingleQuadricModel<N>,
	n: usize,
	want: &BTreeMap<(usize, usize), f64>,
	ctx: &mut Ctx,
) -> Res {
	if FixedSingleModelView::size(m) != n {
		return Err(format!("size {} of a model of {n}", FixedSingleModelView::size(m)));
	}
	for i in 0..n {
		for j in i..n {
			let w = want.get(&(i, j)).copied().unwrap_or(0.0);
			let a = FixedSingleModelView::get_weight(m, &[i, j]).as_f64();
			let b = SingleModelView::get_weight(m, &[i, j]).as_f64();
			let c = unsafe { FixedSingleModelView::get_weight_unchecked(m, &[i, j]).as_f64() };
			ctx.sub += 1;
			if a != w || b != w || c != w {
				return Err(format!(
					"weight of ({i}, {j}) is {a}/{b}/{c}, {w} were added up"
				));
			}
		}
	}
	Ok(())
}

/// As `dense_equals`, only where something was added and around it.
fn dense_cells<N: SingleNode>(
	m: &FixedSingleQuadricModel<N>,
	want: &BTreeMap<(usize, usize), f64>,
) -> Res {
	for ((i, j), w) in want.iter() {
		let a = FixedSingleModelView::get_weight(m, &[*i, *j]).as_f64();
		if a != *w {
			return Err(format!("weight of ({i}, {j}) is {a}, {w} were added up"));
		}
	}
	Ok(())
}

fn dense_run<R: Real>(c: &DenseCase, ctx: &mut Ctx) -> Res {
	let n = c.size as usize;
	let unit = c.unit();
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	let mut want: BTreeMap<(usize, usize), f64> = BTreeMap::new();
	let mut forks = Vec::new();
	let mut repeated = false;
	for op in c.ops.iter() {
		match op {
			Op::Add(i, j, w) if n > 0 => {
				let (i, j) = (*i as usize % n, *j as usize % n);
				m.add_weight(i, j, from_units::<R>(*w as i32, unit));
				let e = want.entry((i.min(j), i.max(j))).or_insert(f64::NAN);
				if e.is_nan() {
					*e = 0.0;
				} else {
					repeated = true;
				}
				*e += *w as f64 * unit;
			}
			Op::AddAny(i, j, w) => {
				let (i, j) = (*i as usize, *j as usize);
				if i >= n || j >= n {
					let r = catch(|| m.add_weight(i, j, from_units::<R>(*w as i32, unit)));
					if r.is_ok() {
						return Err(format!("weight added for ({i}, {j}) in a model of {n} nodes"));
					}
					ctx.label("out-of-range-add");
				}
			}
			Op::GetAny(i, j) => {
				let (i, j) = (*i.min(j) as usize, *i.max(j) as usize);
				if j >= n {
					let r = catch(|| FixedSingleModelView::get_weight(&m, &[i, j]));
					if r.is_ok() {
						return Err(format!("weight of ({i}, {j}) read from a model of {n} nodes"));
					}
					let r = catch(|| SingleModelView::get_weight(&m, &[i, j]));
					if r.is_ok() {
						return Err(format!("weight of ({i}, {j}) read from a model of {n} nodes"));
					}
					ctx.label("out-of-range-get");
				}
			}
			Op::Fork => {
				if forks.len() < 3 {
					forks.push((m.clone(), want.clone()));
				}
			}
			_ => {}
		}
		if n <= 20 {
			dense_equals(&m, n, &want, ctx)?;
		} else {
			dense_cells(&m, &want)?;
		}
	}
	if n > 20 {
		dense_equals(&m, n, &want, ctx)?;
	}
	for (m, w) in forks {
		dense_equals(&m, n, &w, ctx)?;
	}
	ctx.label(if n > 20 { "size>20".to_string() } else { format!("size{}", n.min(12) / 4 * 4) });
	ctx.nontrivial_if(repeated && n >= 2);
	Ok(())
}

struct DenseLeg;
impl Leg for DenseLeg {
	type Case = DenseCase;
	fn name(&self) -> &'static str {
		"accumulate"
	}
	fn rule(&self) -> &'static str {
		"sequences of weight additions (both index orders, repeated pairs), out-of-range accesses and clones on dense models of 0 to 14 nodes; the whole matrix is compared after each step; non-trivial = at least 2 nodes and a pair added to twice"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(300_000, 5_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<DenseCase> {
		let op = prop_oneof![
			10 => (0u16..256, 0u16..256, -9i8..=9).prop_map(|(i, j, w)| Op::Add(i, j, w)),
			2 => (0u16..18, 0u16..18, -9i8..=9).prop_map(|(i, j, w)| Op::AddAny(i, j, w)),
			2 => (0u16..18, 0u16..18).prop_map(|(i, j)| Op::GetAny(i, j)),
			1 => Just(Op::Fork),
		];
		(
			0u16..=14,
			arb_ty(),
			any::<bool>(),
			proptest::collection::vec(op, 0..40),
			prop_oneof![4 => Just(0i8), 1 => -60i8..60],
		)
			.prop_map(|(size, ty, quarter, ops, mag)| DenseCase {
				size,
				ty,
				quarter,
				ops,
				mag,
			})
			.boxed()
	}
	fn check(&self, c: &DenseCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(c.total()), dense_run(c, ctx))
	}
}

struct WideDenseLeg;
impl Leg for WideDenseLeg {
	type Case = DenseCase;
	fn name(&self) -> &'static str {
		"wide"
	}
	fn rule(&self) -> &'static str {
		"as accumulate, on 15 to 400 nodes, with indices near both ends and anywhere; the whole matrix is compared at the end; non-trivial = a pair added to twice"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(400, 8_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<DenseCase> {
		(15u16..=400, arb_ty(), any::<bool>())
			.prop_flat_map(|(n, ty, quarter)| {
				let i = move || {
					prop_oneof![
						2 => 0..n,
						1 => 0u16..6,
						1 => n - 6..n,
					]
				};
				let o = move || prop_oneof![2 => 0..n, 2 => n..n + 20, 1 => any::<u16>()];
				let op = prop_oneof![
					10 => (i(), i(), -9i8..=9).prop_map(|(i, j, w)| Op::Add(i, j, w)),
					1 => (o(), o(), -9i8..=9).prop_map(|(i, j, w)| Op::AddAny(i, j, w)),
					1 => (o(), o()).prop_map(|(i, j)| Op::GetAny(i, j)),
				];
				(Just(n), Just(ty), Just(quarter), proptest::collection::vec(op, 0..80))
			})
			.prop_map(|(size, ty, quarter, ops)| DenseCase {
				size,
				ty,
				quarter,
				ops,
				mag: 0,
			})
			.boxed()
	}
	fn check(&self, c: &DenseCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(c.total()), dense_run(c, ctx))
	}
}

pub fn c09() -> Property {
	Property {
		id: "C09",
		legs: vec![Box::new(DenseLeg), Box::new(WideDenseLeg),
			crate::props::exact::models("C09"),
		],
		assumptions: &["index pairs are read in ascending order, as the type requires"],
	}
}

// ---------------------------------------------------------------------------
// C10, C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Nd {
	Bin,
	Spin,
	Two(i8, i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ModelCase {
	pub size: u16,
	pub node: Nd,
	pub ty: Ty,
	pub quarter: bool,
	/// node sets with their weights
	pub terms: Vec<(Vec<u16>, i8)>,
	pub states: Vec<u64>,
	/// weights are multiples of 2^mag for f64
	#[serde(default)]
	pub mag: i8,
}

impl ModelCase {
	fn unit(&self) -> f64 {
		let u = if self.quarter && matches!(self.ty, Ty::F32 | Ty::F64) { 0.25 } else { 1.0 };
		if self.ty == Ty::F64 {
			u * (self.mag as f64).exp2()
		} else {
			u
		}
	}
	/// bounds every energy and local field of 0/1 and ±1 variables
	fn total(&self) -> i64 {
		let mut t = 0;
		for (_, w) in self.terms.as_slice().iter() {
			t += 2 * (*w as i64).abs();
		}
		t
	}
}

pub fn node_value(nd: &Nd, b: bool) -> f64 {
	match nd {
		Nd::Bin => b as i32 as f64,
		Nd::Spin => {
			if b {
				1.0
			} else {
				-1.0
			}
		}
		Nd::Two(t, f) => (if b { *t } else { *f }) as f64,
	}
}

fn ref_energy(c: &ModelCase, unit: f64, terms: &BTreeMap<BTreeSet<usize>, f64>, s: &[bool]) -> f64 {
	let _ = unit;
	terms
		.iter()
		.map(|(set, w)| w * set.iter().map(|i| node_value(&c.node, s[*i])).product::<f64>())
		.sum()
}

pub fn bits(n: usize, seed: u64) -> Vec<bool> {
	let mut z = seed;
	(0..n)
		.map(|_| {
			z = z
				.wrapping_mul(6364136223846793005)
				.wrapping_add(1442695040888963407);
			(z >> 40) & 1 == 1
		})
		.collect()
}

/// Energy and local field of one model at one state against the reference.
pub fn solution_check<M: SingleModelView>(
	what: &str,
	m: &M,
	c: &ModelCase,
	terms: &BTreeMap<BTreeSet<usize>, f64>,
	s: &[bool],
	eps: f64,
	ctx: &mut Ctx,
) -> Res {
	let nv = node_value(&c.node, true)
		.abs()
		.max(node_value(&c.node, false).abs())
		.max(1.0);
	let scale: f64 = terms
		.iter()
		.map(|(k, w)| w.abs() * nv.powi(k.len() as i32))
		.sum();
	let want = ref_energy(c, 1.0, terms, s);
	let sol = SingleSolution::<M::Node>::from_vec(s);
	if sol.len() != s.len() {
		return Err(format!("a solution of {} has length {}", s.len(), sol.len()));
	}
	if sol.energy.is_some() || sol.local_field.is_some() {
		return Err("a fresh solution claims to know its energy".into());
	}
	let e = sol.calculate_energy(m).as_f64();
	ctx.sub += 1;
	if !close(e, want, scale, eps) {
		return Err(format!("{what}: energy {e}, the terms add up to {want} at {s:?}"));
	}
	let with = sol.clone().with_energy(m);
	match with.energy {
		Some(v) if v.as_f64() == e || close(v.as_f64(), e, scale, eps) => {}
		v => return Err(format!("{what}: with_energy gives {v:?}, calculate_energy {e}")),
	}
	// What a solution says it knows must be right in whatever order it is asked.
	let one = sol.clone().with_local_field(m);
	let two = one.clone().with_energy(m);
	let three = with.clone().with_local_field(m);
	for (how, s, must) in [
		("with_local_field", &one, false),
		("with_local_field, with_energy", &two, true),
		("with_energy, with_local_field", &three, true),
	] {
		match s.energy {
			Some(v) if close(v.as_f64(), want, scale, eps) => {}
			None if !must => {}
			v => {
				return Err(format!(
					"{what}: after {how} the energy is {v:?}, the terms add up to {want}"
				))
			}
		}
		if s.local_field.is_none() {
			return Err(format!("{what}: after {how} the local field is missing"));
		}
	}
	let f = sol.clone().calculate_local_field(m);
	if f.len() != s.len() {
		return Err(format!("{what}: local field of length {}", f.len()));
	}
	for i in 0..s.len() {
		let mut t = s.to_vec();
		t[i] = !t[i];
		let d = ref_energy(c, 1.0, terms, &t) - want;
		ctx.sub += 1;
		if !close(f[i].as_f64(), d, scale, eps) {
			return Err(format!(
				"{what}: local field {} of node {i}, flipping it changes the energy by {d} at {s:?}",
				f[i]
			));
		}
	}
	let full = sol.clone().with_local_field(m).with_energy(m);
	let got: Vec<bool> = (0..s.len()).map(|i| full.get(i)).collect();
	let got2: Vec<bool> = (0..s.len()).map(|i| full[i]).collect();
	if got != s || got2 != s {
		return Err(format!("{what}: the state changed while computing: {got:?} from {s:?}"));
	}
	if full
		.local_field
		.as_ref()
		.map(|v| v.iter().map(|r| r.as_f64()).collect::<Vec<_>>())
		!= Some(f.iter().map(|r| r.as_f64()).collect::<Vec<_>>())
	{
		// sparse models enumerate in varying order: compare with tolerance
		let lf = full.local_field.as_ref().unwrap();
		for (a, b) in lf.iter().zip(f.iter()) {
			if !close(a.as_f64(), b.as_f64(), scale, eps) {
				return Err(format!("{what}: with_local_field differs from calculate_local_field"));
			}
		}
	}
	Ok(())
}

fn accumulate(c: &ModelCase, unit: f64, max_len: usize) -> BTreeMap<BTreeSet<usize>, f64> {
	let mut out = BTreeMap::new();
	let n = c.size.max(1) as usize;
	for (set, w) in c.terms.iter() {
		let k: BTreeSet<usize> = set.iter().take(max_len).map(|i| *i as usize % n).collect();
		if k.is_empty() {
			continue;
		}
		*out.entry(k).or_insert(0.0) += *w as f64 * unit;
	}
	out
}

fn model_run<R: Real>(c: &ModelCase, eps: f64, ctx: &mut Ctx) -> Res {
	match &c.node {
		Nd::Bin => model_node::<R, _>(c, Binary::<R>::new(), eps, ctx),
		Nd::Spin => model_node::<R, _>(c, Spin::<R>::new(), eps, ctx),
		Nd::Two(t, f) => model_node::<R, _>(
			c,
			TwoVal::new(R::from_i32(*t as i32), R::from_i32(*f as i32)),
			eps,
			ctx,
		),
	}
}

fn model_node<R: Real, N: SingleNode<RealType = R>>(
	c: &ModelCase,
	node: N,
	eps: f64,
	ctx: &mut Ctx,
) -> Res {
	let n = c.size as usize;
	let unit = c.unit();
	for v in [false, true] {
		let got = node.get_value(v).as_f64();
		if got != node_value(&c.node, v) {
			return Err(format!("{:?} has value {got} for {v}", c.node));
		}
	}
	if n == 0 {
		let m = FixedSingleQuadricModel::new(node, 0);
		return solution_check("empty", &m, c, &BTreeMap::new(), &[], eps, ctx);
	}
	// dense and sparse quadratic, sparse of any order
	let two = accumulate(c, unit, 2);
	let many = accumulate(c, unit, 5);
	let mut dense = FixedSingleQuadricModel::new(node.clone(), n);
	let mut sparse = SingleModel::new(node.clone(), Quadric);
	let mut high = SingleModel::new(node.clone(), HighOrder::new(5));
	for (set, w) in c.terms.iter() {
		let w = from_units::<R>(*w as i32, unit);
		let k: Vec<usize> = set.iter().take(2).map(|i| *i as usize % n).collect();
		match k.as_slice() {
			[i] => {
				dense.add_weight(*i, *i, w);
				sparse.add_weight([*i, *i], w);
			}
			[i, j] => {
				dense.add_weight(*i, *j, w);
				sparse.add_weight([*i.min(j), *i.max(j)], w);
			}
			_ => {}
		}
		let h: BTreeSet<usize> = set.iter().take(5).map(|i| *i as usize % n).collect();
		if !h.is_empty() {
			high.add_weight(h, w);
		}
	}
	let nodes: BTreeSet<usize> = two.keys().flatten().cloned().collect();
	if SingleModelView::nodes(&sparse).into_iter().collect::<Vec<_>>()
		!= nodes.iter().cloned().collect::<Vec<_>>()
	{
		return Err(format!("the sparse model lists other nodes than {nodes:?}"));
	}
	if SingleModelView::size(&sparse) != nodes.len() || ModelView::size(&sparse) != nodes.len() {
		return Err("size of the sparse model is not its number of nodes".into());
	}
	let mut seen = BTreeSet::new();
	for p in sparse.prods() {
		let k: BTreeSet<usize> = p.iter().collect();
		let w = sparse.get_weight(&p).as_f64();
		if two.get(&k).copied() != Some(w) {
			return Err(format!("sparse weight {w} of {k:?}, {:?} were added", two.get(&k)));
		}
		if !seen.insert(k.clone()) {
			return Err(format!("the sparse model lists {k:?} twice"));
		}
	}
	if seen.len() != two.len() {
		return Err(format!("the sparse model lists {} of {} terms", seen.len(), two.len()));
	}
	let mut seen = BTreeSet::new();
	for p in high.prods() {
		let w = high.get_weight(&p).as_f64();
		if many.get(&p).copied() != Some(w) {
			return Err(format!("weight {w} of {p:?}, {:?} were added", many.get(&p)));
		}
		seen.insert(p);
	}
	if seen.len() != many.len() {
		return Err(format!("the model lists {} of {} terms", seen.len(), many.len()));
	}
	for u in 0..n {
		let mut got: Vec<BTreeSet<usize>> = sparse
			.neighbors(u)
			.into_iter()
			.map(|p| p.iter().collect())
			.collect();
		got.sort();
		let want: Vec<BTreeSet<usize>> = two.keys().filter(|k| k.contains(&u)).cloned().collect();
		if got != want {
			return Err(format!("neighbours of {u}: {got:?}, terms with it: {want:?}"));
		}
		let mut got: Vec<BTreeSet<usize>> = high.neighbors(u).into_iter().collect();
		got.sort();
		let want: Vec<BTreeSet<usize>> = many.keys().filter(|k| k.contains(&u)).cloned().collect();
		if got != want {
			return Err(format!("neighbours of {u}: {got:?}, terms with it: {want:?}"));
		}
	}
	let mut values = BTreeSet::new();
	for seed in c.states.iter() {
		let s = bits(n, *seed);
		solution_check("dense", &dense, c, &two, &s, eps, ctx)?;
		solution_check("sparse", &sparse, c, &two, &s, eps, ctx)?;
		solution_check("high-order", &high, c, &many, &s, eps, ctx)?;
		values.insert(ref_energy(c, unit, &many, &s).to_bits());
	}
	// products
	let s = bits(n, c.states.first().copied().unwrap_or(1));
	let vals: Vec<bool> = s.iter().take(4).cloned().collect();
	let want: f64 = vals.iter().map(|b| node_value(&c.node, *b)).product();
	if node.calculate_prod(&vals).as_f64() != want {
		return Err(format!(
			"product of {vals:?} is {}, should be {want}",
			node.calculate_prod(&vals)
		));
	}
	// comparison
	if c.states.len() >= 2 {
		let a = SingleSolution::<N>::from_vec(&bits(n, c.states[0]));
		let b = SingleSolution::<N>::from_vec(&bits(n, c.states[1]));
		if a.compare_energy(&b).is_some() {
			return Err("solutions without energies compare".into());
		}
		let (a, b) = (a.with_energy(&dense), b.with_energy(&dense));
		let want = a
			.energy
			.unwrap()
			.as_f64()
			.partial_cmp(&b.energy.unwrap().as_f64());
		if a.compare_energy(&b) != want || b.compare_energy(&a) != want.map(|o| o.reverse()) {
			return Err(format!("energies compare as {:?}, should be {want:?}", a.compare_energy(&b)));
		}
	}
	ctx.label(match c.node {
		Nd::Bin => "binary",
		Nd::Spin => "spin",
		Nd::Two(..) => "two-valued",
	});
	if many.keys().any(|k| k.len() > 2) {
		ctx.label("order>2");
	}
	ctx.nontrivial_if(values.len() >= 2 && many.len() >= 2);
	Ok(())
}

struct ModelLeg {
	name: &'static str,
	two: bool,
	wide: bool,
}
impl Leg for ModelLeg {
	type Case = ModelCase;
	fn name(&self) -> &'static str {
		self.name
	}
	fn rule(&self) -> &'static str {
		if self.wide {
			return "the same over 11 to 120, sometimes up to 330 nodes with up to 150 terms";
		}
		"the same random terms added to a dense quadratic, a sparse quadratic and a sparse model of order up to 5 over 0 to 10 nodes; weights, listed terms, neighbours, energies and flip costs at several states against direct sums; non-trivial = at least 2 terms and 2 different energies"
	}
	fn cases(&self, t: Tier) -> u64 {
		if self.wide {
			return t.pick(600, 12_000);
		}
		t.pick(150_000, 2_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<ModelCase> {
		let wide = self.wide;
		let nd = if self.two {
			prop_oneof![
				Just(Nd::Spin),
				Just(Nd::Bin),
				(-4i8..=4, -4i8..=4).prop_map(|(t, f)| Nd::Two(t, f))
			]
			.boxed()
		} else {
			Just(Nd::Bin).boxed()
		};
		(
			if wide {
				prop_oneof![9 => 11u16..=120, 1 => 121u16..=330].boxed()
			} else {
				(0u16..=10).boxed()
			},
			nd,
			arb_ty(),
			any::<bool>(),
			proptest::collection::vec(
				(proptest::collection::vec(any::<u16>(), 1..6), -9i8..=9),
				if wide { 0..150 } else { 0..24 },
			),
			proptest::collection::vec(any::<u64>(), 1..5),
			prop_oneof![4 => Just(0i8), 1 => -60i8..60],
		)
			.prop_map(move |(size, node, ty, quarter, terms, states, mag)| {
				// keep i16 sums small
				let ty = if matches!(ty, Ty::I8 | Ty::I16) && (wide || matches!(node, Nd::Two(..))) {
					Ty::I32
				} else {
					ty
				};
				ModelCase {
					size,
					node,
					ty,
					quarter,
					terms,
					states,
					mag,
				}
			})
			.boxed()
	}
	fn check(&self, c: &ModelCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(c.total()), model_run(c, c.ty.eps(), ctx))
	}
}

/// Any node numbers, with copies taken on the way.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyNodesCase {
	pub nodes: Vec<usize>,
	pub order: u8,
	/// (positions in `nodes`, weight), or take a copy
	pub ops: Vec<Option<(Vec<u8>, i8)>>,
	pub ty: Ty,
}

impl AnyNodesCase {
	fn total(&self) -> i64 {
		let mut t = 0;
		for o in self.ops.as_slice().iter() {
			if let Some((_, w)) = o {
				t += 2 * (*w as i64).abs();
			}
		}
		t
	}
}

fn sparse_equals<N: SingleNode, O: Order>(
	what: &str,
	m: &SingleModel<N, O>,
	want: &BTreeMap<BTreeSet<usize>, f64>,
	all: &[usize],
	unknown: &[BTreeSet<usize>],
	ctx: &mut Ctx,
) -> Res {
	let nodes: BTreeSet<usize> = want.keys().flatten().cloned().collect();
	let got: Vec<usize> = SingleModelView::nodes(m).into_iter().collect();
	let set: BTreeSet<usize> = got.as_slice().iter().cloned().collect();
	if set != nodes || got.len() != nodes.len() {
		return Err(format!("{what}: nodes {got:?} instead of {nodes:?}"));
	}
	if SingleModelView::size(m) != nodes.len() {
		return Err(format!(
			"{what}: size {} with nodes {nodes:?}",
			SingleModelView::size(m)
		));
	}
	let mut seen = BTreeMap::new();
	for p in m.prods() {
		let k: BTreeSet<usize> = p.iter().collect();
		if seen.insert(k.clone(), m.get_weight(&p).as_f64()).is_some() {
			return Err(format!("{what}: {k:?} is listed twice"));
		}
	}
	ctx.sub += 1;
	if seen != *want {
		return Err(format!("{what}: weights {seen:?} instead of {want:?}"));
	}
	for u in all {
		let mut got: Vec<BTreeSet<usize>> =
			m.neighbors(*u).into_iter().map(|p| p.iter().collect()).collect();
		got.sort();
		let w: Vec<BTreeSet<usize>> = want.keys().filter(|k| k.contains(u)).cloned().collect();
		if got != w {
			return Err(format!("{what}: neighbours of {u}: {got:?} instead of {w:?}"));
		}
	}
	for k in unknown.iter().filter(|k| !want.contains_key(*k)) {
		if let Some(p) = <O::NodeSetType as NodeSet>::from_set(k.clone()) {
			// a product never added has no weight, or is refused
			if let Ok(w) = catch(|| m.get_weight(&p).as_f64()) {
				if w != 0.0 {
					return Err(format!("{what}: {k:?} was never added and has weight {w}"));
				}
			}
		}
	}
	Ok(())
}

fn any_nodes_run<R: Real>(c: &AnyNodesCase, ctx: &mut Ctx) -> Res {
	let order = c.order as usize;
	let all: Vec<usize> = c.nodes.as_slice().iter().cloned().chain([0, 1, 63, 64, 65]).collect();
	let mut high = SingleModel::new(Binary::<R>::new(), HighOrder::new(order));
	let mut two = SingleModel::new(Binary::<R>::new(), Quadric);
	let mut want = BTreeMap::new();
	let mut want2 = BTreeMap::new();
	let mut kept = Vec::new();
	let mut tried = Vec::new();
	for op in c.ops.iter() {
		match op {
			None if kept.len() < 3 => kept.push((high.clone(), two.clone(), want.clone(), want2.clone())),
			None => {}
			Some((ps, w)) => {
				let k: BTreeSet<usize> = ps
					.iter()
					.map(|p| c.nodes[*p as usize % c.nodes.len()])
					.collect();
				if k.is_empty() {
					continue;
				}
				let r = R::from_i32(*w as i32);
				if k.len() > order {
					// More nodes than the order: taken in full or refused.
					let mut h = high.clone();
					if catch(|| h.add_weight(k.clone(), r)).is_ok() {
						high = h;
						*want.entry(k).or_insert(0.0) += *w as f64;
					} else {
						ctx.label("refused");
					}
					continue;
				}
				if k.len() <= 2 {
					let v: Vec<usize> = k.iter().cloned().collect();
					two.add_weight([v[0], v[v.len() - 1]], r);
					*want2.entry(k.clone()).or_insert(0.0) += *w as f64;
				}
				tried.push(k.iter().cloned().take(1).collect());
				tried.push(k.iter().cloned().take(2).collect());
				*want.entry(k.clone()).or_insert(0.0) += *w as f64;
				high.add_weight(k, r);
			}
		}
	}
	sparse_equals("sparse of any order", &high, &want, &all, &tried, ctx)?;
	sparse_equals("sparse quadratic", &two, &want2, &all, &tried, ctx)?;
	for (h, t, w, w2) in kept.iter() {
		sparse_equals("an earlier copy", h, w, &all, &tried, ctx)?;
		sparse_equals("an earlier quadratic copy", t, w2, &all, &tried, ctx)?;
	}
	ctx.label(format!("order{order}"));
	ctx.nontrivial_if(want.len() >= 2 && want.keys().any(|k| k.len() > 1));
	Ok(())
}

struct AnyNodesLeg;
impl Leg for AnyNodesLeg {
	type Case = AnyNodesCase;
	fn name(&self) -> &'static str {
		"any-nodes"
	}
	fn rule(&self) -> &'static str {
		"additions to sparse models (pairs, and any order from 2 to 8) over up to 10 nodes with arbitrary numbers up to the largest, and copies taken on the way; weights, nodes and neighbours against a map; non-trivial = at least 2 products, one of them of several nodes"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(60_000, 1_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<AnyNodesCase> {
		let node = prop_oneof![
			4 => 0usize..12, 2 => 50usize..300, 1 => 65_530usize..65_600,
			1 => (1usize << 32) - 3..(1usize << 32) + 3, 1 => any::<usize>()
		];
		let op = proptest::option::weighted(
			0.95,
			(proptest::collection::vec(any::<u8>(), 1..9), -9i8..=9),
		);
		(
			proptest::collection::vec(node, 1..10),
			2u8..9,
			proptest::collection::vec(op, 0..25),
			arb_ty(),
		)
			.prop_map(|(nodes, order, ops, ty)| AnyNodesCase {
				nodes,
				order,
				ops,
				ty,
			})
			.boxed()
	}
	fn check(&self, c: &AnyNodesCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty.room(c.total()), any_nodes_run(c, ctx))
	}
}

pub fn c10() -> Property {
	Property {
		id: "C10",
		legs: vec![
			Box::new(ModelLeg {
				name: "sparse-dense",
				two: false,
				wide: false,
			}),
			Box::new(ModelLeg {
				name: "sparse-dense-wide",
				two: false,
				wide: true,
			}),
			Box::new(AnyNodesLeg),
			crate::props::exact::models("C10"),
		],
		assumptions: &["node sets are given in ascending order"],
	}
}

pub fn c12() -> Property {
	Property {
		id: "C12",
		legs: vec![
			Box::new(ModelLeg {
				name: "energy",
				two: true,
				wide: false,
			}),
			Box::new(ModelLeg {
				name: "energy-wide",
				two: true,
				wide: true,
			}),
			crate::props::exact::models("C12"),
		],
		assumptions: &["as C10"],
	}
}

// ---------------------------------------------------------------------------
// C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnumCase {
	pub size: u16,
	pub u: u8,
	pub extra: u8,
	pub spin: bool,
}

struct Sized(Option<usize>);
struct NoSolver;
#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "never")
	}
}
impl std::error::Error for Never {}
impl Solver for NoSolver {
	type ErrorType = Never;
	type SolutionType = SingleSolution<Binary<f64>>;
}
type FM = FixedSingleQuadricModel<Binary<f64>>;
impl<'a> SolverGenerator<'a, FM> for Sized {
	type SolverType = NoSolver;
	type ErrorType = Never;
	fn generate(&self, model: &'a FM) -> Result<NoSolver, Never> {
		if FixedSingleModelView::size(model) > self.0.unwrap_or(usize::MAX) {
			Err(Never)
		} else {
			Ok(NoSolver)
		}
	}
}
impl<'a> UnstructuredSolverGenerator<'a, FM> for Sized {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
	fn size(&self) -> Option<usize> {
		self.0
	}
}

/// Drain `it`, at most `limit` items; then it must stay exhausted.
fn drain<T>(what: &str, mut it: impl Iterator<Item = T>, limit: usize) -> Result<Vec<T>, String> {
	let mut v = Vec::new();
	while let Some(x) = it.next() {
		v.push(x);
		if v.len() > limit {
			return Err(format!("{what} yields more than {limit} items"));
		}
	}
	for _ in 0..5 {
		if it.next().is_some() {
			return Err(format!("{what} yields items again after its end"));
		}
	}
	Ok(v)
}

/// The other ways to go through an iterator agree with taking one item after
/// the other: `it` gives a fresh iterator whose items are `want`.
fn iter_ways<T: PartialEq + Debug, I: Iterator<Item = T>>(
	what: &str,
	it: impl Fn() -> I,
	want: &[T],
	k: usize,
) -> Res {
	let n = want.len();
	let bad = |how: &str| -> Res { Err(format!("{what}: {how} does not agree with next()")) };
	if it().count() != n {
		return bad("count()");
	}
	if it().last().as_ref() != want.last() {
		return bad("last()");
	}
	for k in [k % (n + 2), 0, n / 2, n.saturating_sub(1), n] {
		let mut i = it();
		if i.nth(k).as_ref() != want.get(k) {
			return bad(&format!("nth({k})"));
		}
		if k < n {
			let (lo, hi) = i.size_hint();
			let rest = n - k - 1;
			if lo > rest || hi.map_or(false, |h| h < rest) {
				return bad("size_hint()");
			}
			if !i.eq_items(&want[k + 1..]) {
				return bad(&format!("what follows nth({k})"));
			}
		} else if i.next().is_some() {
			return bad(&format!("the end after nth({k})"));
		}
		if !it().skip(k).eq_items(&want[k.min(n)..]) {
			return bad(&format!("skip({k})"));
		}
		if !it().take(k).eq_items(&want[..k.min(n)]) {
			return bad(&format!("take({k})"));
		}
	}
	let step = 1 + k % 9;
	let by: Vec<T> = it().step_by(step).collect();
	if by.len() != (n + step - 1) / step || by.as_slice().iter().zip((0..n).step_by(step)).any(|(a, i)| *a != want[i]) {
		return bad(&format!("step_by({step})"));
	}
	// two at once do not disturb each other
	let (mut a, mut b) = (it(), it());
	let _ = b.next();
	for (i, w) in want.into_iter().enumerate() {
		if a.next().as_ref() != Some(w) || b.next().as_ref() != want.get(i + 1) {
			return bad("a second iterator");
		}
	}
	if it().fold(0, |x, _| x + 1) != n {
		return bad("fold()");
	}
	Ok(())
}

trait EqItems<T> {
	fn eq_items(self, want: &[T]) -> bool;
}
impl<T: PartialEq, I: Iterator<Item = T>> EqItems<T> for I {
	fn eq_items(mut self, want: &[T]) -> bool {
		for w in want.into_iter() {
			if self.next().as_ref() != Some(w) {
				return false;
			}
		}
		self.next().is_none()
	}
}

fn as_sorted<S: NodeSet>(v: Vec<S>) -> Vec<Vec<usize>> {
	let mut o: Vec<Vec<usize>> = v
		.into_iter()
		.map(|s| {
			let mut k: Vec<usize> = s.iter().collect();
			k.sort_unstable();
			k
		})
		.collect();
	o.sort();
	o
}

fn enum_run(c: &EnumCase, ctx: &mut Ctx) -> Res {
	let n = c.size as usize;
	let mut all: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
	for i in 0..n {
		for j in i + 1..n {
			all.push(vec![i, j]);
		}
	}
	all.sort();
	let cmp = |what: &str, got: Vec<Vec<usize>>, want: &Vec<Vec<usize>>| -> Res {
		if got != *want {
			let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(3).collect();
			let extra: Vec<_> = got.iter().filter(|w| !want.contains(w)).take(3).collect();
			Err(format!(
				"{what} of {n} nodes: {} items instead of {}, missing {missing:?}, not expected {extra:?}",
				got.len(),
				want.len()
			))
		} else {
			Ok(())
		}
	};
	let limit = n * n + 10;
	cmp(
		"pairs",
		as_sorted(drain("Prods", Prods::<[usize; 2]>::new(2, n), limit)?),
		&all,
	)?;
	cmp(
		"sets",
		as_sorted(drain("Prods", Prods::<BTreeSet<usize>>::new(2, n), limit)?),
		&all,
	)?;
	ctx.sub += 2;
	if n <= 60 {
		let k = c.u as usize * 7 + c.extra as usize;
		let list: Vec<[usize; 2]> = Prods::new(2, n).collect();
		iter_ways("pairs", || Prods::<[usize; 2]>::new(2, n), &list, k)?;
		if n > 0 {
			let u = c.u as usize % n;
			let list: Vec<[usize; 2]> = Neighbors::new(u, 2, n).collect();
			iter_ways("neighbours", || Neighbors::<[usize; 2]>::new(u, 2, n), &list, k)?;
		}
		let st = Sized(Some(n)).into_structured();
		let list: Vec<usize> = st.nodes().collect();
		iter_ways("structured nodes", || st.nodes(), &list, k)?;
		let list: Vec<_> = st.prods().collect();
		iter_ways("structured pairs", || st.prods(), &list, k)?;
	}
	// stored representatives must be usable keys: ascending
	for p in Prods::<[usize; 2]>::new(2, n) {
		if p[0] > p[1] {
			return Err(format!("{p:?} is not in ascending order"));
		}
	}
	if n > 0 {
		for u in [c.u as usize % n, 0, n - 1] {
			let want: Vec<Vec<usize>> = all.iter().filter(|p| p[..].contains(&u)).cloned().collect();
			let got = drain("Neighbors", Neighbors::<[usize; 2]>::new(u, 2, n), limit)?;
			for p in got.iter() {
				if p[0] > p[1] {
					return Err(format!("{p:?} is not in ascending order"));
				}
			}
			cmp(&format!("neighbours of {u}"), as_sorted(got), &want)?;
			ctx.sub += 1;
		}
	}
	macro_rules! model {
		($node:expr) => {{
			let m = FixedSingleQuadricModel::new($node, n);
			cmp("model terms", as_sorted(m.prods().collect()), &all)?;
			let nodes: Vec<usize> = SingleModelView::nodes(&m).collect();
			if nodes != (0..n).collect::<Vec<_>>() || SingleModelView::size(&m) != n {
				return Err(format!("a model of {n} nodes lists {nodes:?}"));
			}
			if ModelView::size(&m) != n || ModelView::nodes(&m).into_iter().count() != n {
				return Err(format!("a model of {n} nodes has size {}", ModelView::size(&m)));
			}
			// every listed term can be read
			for p in m.prods() {
				if SingleModelView::get_weight(&m, &p) != 0.0 {
					return Err(format!("fresh model has a weight for {p:?}"));
				}
			}
			for u in 0..n {
				for p in m.neighbors(u) {
					let _ = SingleModelView::get_weight(&m, &p);
				}
			}
		}};
	}
	if c.spin {
		model!(Spin::<f64>::new());
	} else {
		model!(Binary::<f64>::new());
	}
	// A generator of limited size seen as a structured one.
	let st = Sized(Some(n)).into_structured();
	let nodes = drain("structured nodes", st.nodes(), n + 5)?;
	if nodes != (0..n).collect::<Vec<_>>() {
		return Err(format!("a generator of size {n} offers nodes {nodes:?}"));
	}
	let pairs: Vec<Vec<usize>> = all.iter().filter(|p| p.len() == 2).cloned().collect();
	cmp(
		"structured pairs",
		as_sorted(drain("structured prods", st.prods(), limit)?),
		&pairs,
	)?;
	for k in [n, n + 1] {
		let m = FM::new(Binary::new(), k);
		let want = k <= n;
		if st.generate(&m).is_ok() != want {
			return Err("into_structured() generates differently".into());
		}
	}
	// One without a limit: every pair of the first nodes comes up, none twice.
	let st = Sized(None).into_structured();
	let first: Vec<usize> = st.nodes().take(n).collect();
	if first != (0..n).collect::<Vec<_>>() {
		return Err(format!("an unlimited generator offers nodes {first:?}"));
	}
	let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
	for p in st.prods().take(2 * n * n + c.extra as usize) {
		let k: Vec<usize> = p.into_iter().collect();
		if k.len() != 2 {
			return Err(format!("{k:?} is not a pair"));
		}
		if !seen.insert(k.clone()) {
			return Err(format!("{k:?} comes up twice"));
		}
	}
	if let Some(m) = pairs.iter().find(|p| !seen.contains(*p)) {
		return Err(format!("{m:?} does not come up among {} pairs", seen.len()));
	}
	if Quadric.order() != 2 || HighOrder::new(n).order() != n {
		return Err("order() is wrong".into());
	}
	ctx.label(format!("size{}", if n < 3 { n } else { 3 + n / 8 * 8 }));
	ctx.nontrivial_if(n >= 2);
	Ok(())
}

struct EnumLeg;
impl Leg for EnumLeg {
	type Case = EnumCase;
	fn name(&self) -> &'static str {
		"enumerate"
	}
	fn rule(&self) -> &'static str {
		"sizes 0 to 40 (small ones often), some to 160, a few to 700: terms, neighbours and nodes as sets against the definition, exhaustion, structured view of sized and unsized generators; non-trivial = at least 2 nodes"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(25_000, 200_000)
	}
	fn strategy(&self, t: Tier) -> BoxedStrategy<EnumCase> {
		let top = t.pick(40u16, 90);
		(
			prop_oneof![1600 => 0u16..5, 1600 => 0..=top, 40 => top..=160, 4 => 160u16..=320, 1 => 320u16..=700],
			any::<u8>(),
			any::<u8>(),
			any::<bool>(),
		)
			.prop_map(|(size, u, extra, spin)| EnumCase {
				size,
				u,
				extra,
				spin,
			})
			.boxed()
	}
	fn check(&self, c: &EnumCase, ctx: &mut Ctx) -> Res {
		enum_run(c, ctx)
	}
}

pub fn c11() -> Property {
	Property {
		id: "C11",
		legs: vec![Box::new(EnumLeg)],
		assumptions: &["order 2, the only one the enumerators implement"],
	}
}

// ---------------------------------------------------------------------------
// C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BitOp {
	Set(u32, bool),
	Flip(u32),
	SetU(u32, bool),
	FlipU(u32),
	Out(u16),
	Clone,
	Rebuild,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BitCase {
	pub init: Vec<bool>,
	/// start from random bits instead
	pub random: Option<u64>,
	pub ops: Vec<BitOp>,
}

fn same_bits(r: &BinaryRepr, v: &[bool], ctx: &mut Ctx) -> Res {
	ctx.sub += 1;
	if r.len() != v.len() || r.is_empty() != v.is_empty() {
		return Err(format!("length {} of {} bits", r.len(), v.len()));
	}
	let a = r.to_vec();
	let b: Vec<bool> = r.iter().collect();
	let c: Vec<bool> = (0..v.len()).map(|i| r.get(i)).collect();
	let d: Vec<bool> = (0..v.len()).map(|i| r[i]).collect();
	let e: Vec<bool> = (0..v.len()).map(|i| unsafe { r.get_unchecked(i) }).collect();
	for (what, got) in [
		("to_vec", &a),
		("iter", &b),
		("get", &c),
		("[]", &d),
		("get_unchecked", &e),
	] {
		if got.as_slice() != v {
			return Err(format!("{what} gives {got:?} instead of {v:?}"));
		}
	}
	if format!("{r:?}") != format!("{v:?}") {
		return Err(format!("Debug shows {r:?} for {v:?}"));
	}
	if v.len() <= 200 {
		iter_ways("iter", || r.iter(), v, v.len() * 7 / 11)?;
	}
	let mut it = r.iter();
	for _ in 0..v.len() {
		it.next();
	}
	if it.next().is_some() || it.next().is_some() {
		return Err("iter() goes past the end".into());
	}
	Ok(())
}

fn bit_run(c: &BitCase, ctx: &mut Ctx) -> Res {
	let mut v = c.init.clone();
	let n = v.len();
	let mut r = BinaryRepr::from_vec(&v);
	if let Some(seed) = c.random {
		let mut g = rand::rngs::StdRng::seed_from_u64(seed);
		r = BinaryRepr::new_random(n, &mut g);
		let mut g = rand::rngs::StdRng::seed_from_u64(seed);
		let r2 = BinaryRepr::new_random(n, &mut g);
		v = r.to_vec();
		if v.len() != n {
			return Err(format!("{} random bits instead of {n}", v.len()));
		}
		same_bits(&r2, &v, ctx)?;
		ctx.label("random-start");
	}
	same_bits(&r, &v, ctx)?;
	let mut kept: Vec<(BinaryRepr, Vec<bool>)> = Vec::new();
	let mut changes = 0;
	for op in c.ops.iter() {
		match op {
			BitOp::Set(i, b) if n > 0 => {
				let i = *i as usize % n;
				r.set(i, *b);
				changes += (v[i] != *b) as u32;
				v[i] = *b;
			}
			BitOp::SetU(i, b) if n > 0 => {
				let i = *i as usize % n;
				unsafe { r.set_unchecked(i, *b) };
				changes += (v[i] != *b) as u32;
				v[i] = *b;
			}
			BitOp::Flip(i) if n > 0 => {
				let i = *i as usize % n;
				r.flip(i);
				v[i] = !v[i];
				changes += 1;
			}
			BitOp::FlipU(i) if n > 0 => {
				let i = *i as usize % n;
				unsafe { r.flip_unchecked(i) };
				v[i] = !v[i];
				changes += 1;
			}
			BitOp::Out(k) => {
				let i = n + *k as usize % 70;
				ctx.label("out-of-range");
				if catch(|| r.get(i)).is_ok() {
					return Err(format!("bit {i} of {n} can be read"));
				}
				if catch(|| r.set(i, true)).is_ok() || catch(|| r.set(i, false)).is_ok() {
					return Err(format!("bit {i} of {n} can be set"));
				}
				if catch(|| r.flip(i)).is_ok() {
					return Err(format!("bit {i} of {n} can be flipped"));
				}
				if catch(|| r[i]).is_ok() {
					return Err(format!("bit {i} of {n} can be indexed"));
				}
			}
			BitOp::Clone => {
				if kept.len() < 3 {
					kept.push((r.clone(), v.clone()));
				}
			}
			BitOp::Rebuild => r = BinaryRepr::from_vec(&r.to_vec()),
			_ => {}
		}
		if n <= 200 {
			same_bits(&r, &v, ctx)?;
		}
	}
	same_bits(&r, &v, ctx)?;
	for (r, v) in kept.iter() {
		same_bits(r, v, ctx)?;
	}
	ctx.label(format!("len%8={}", n % 8));
	ctx.nontrivial_if(n > 8 && changes >= 2);
	Ok(())
}

struct BitLeg;
impl Leg for BitLeg {
	type Case = BitCase;
	fn name(&self) -> &'static str {
		"bits"
	}
	fn rule(&self) -> &'static str {
		"sequences of set, flip (checked and unchecked), out-of-range accesses, clones and rebuilds on 0 to 200, sometimes up to 70000 bits, against a vector of booleans, compared through every reader after each step; non-trivial = more than 8 bits and at least 2 changes"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(300_000, 5_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<BitCase> {
		let op = prop_oneof![
			4 => (any::<u32>(), any::<bool>()).prop_map(|(i, b)| BitOp::Set(i, b)),
			4 => any::<u32>().prop_map(BitOp::Flip),
			2 => (any::<u32>(), any::<bool>()).prop_map(|(i, b)| BitOp::SetU(i, b)),
			2 => any::<u32>().prop_map(BitOp::FlipU),
			1 => any::<u16>().prop_map(BitOp::Out),
			1 => Just(BitOp::Clone),
			1 => Just(BitOp::Rebuild),
		];
		(
			prop_oneof![
				60 => proptest::collection::vec(any::<bool>(), 0..20),
				30 => proptest::collection::vec(any::<bool>(), 0..200),
				1 => (prop_oneof![9 => 200usize..5000, 1 => 5000usize..70_000], any::<u64>()).prop_map(|(n, s)| bits(n, s)),
			],
			proptest::option::weighted(0.3, any::<u64>()),
			proptest::collection::vec(op, 0..30),
		)
			.prop_map(|(init, random, ops)| BitCase { init, random, ops })
			.boxed()
	}
	fn check(&self, c: &BitCase, ctx: &mut Ctx) -> Res {
		bit_run(c, ctx)
	}
}

/// `new_random` gives fair, independent bits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FairCase {
	pub len: u16,
	pub seed: u64,
}
struct FairLeg;
impl Leg for FairLeg {
	type Case = FairCase;
	fn name(&self) -> &'static str {
		"random-start"
	}
	fn rule(&self) -> &'static str {
		"4000 draws of new_random of 1 to 70, sometimes up to 3000 bits per case; each bit, each pair of neighbouring bits, pairs at distances that are powers of two and each bit with itself in the next draw must come up in fair shares (7 standard deviations); non-trivial = at least 2 bits"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(1500, 20_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<FairCase> {
		(prop_oneof![15 => 1u16..70, 1 => 70u16..3000], any::<u64>())
			.prop_map(|(len, seed)| FairCase { len, seed })
			.boxed()
	}
	fn check(&self, c: &FairCase, ctx: &mut Ctx) -> Res {
		let n = c.len as usize;
		let mut g = rand::rngs::StdRng::seed_from_u64(c.seed);
		let draws = 4000u32;
		let lags: Vec<usize> = (0..12).map(|k| 1usize << k).filter(|l| *l < n).collect();
		let mut ones = vec![0u32; n];
		// agreement with the bit `lag` before, and with the draw before
		let mut same = vec![vec![0u32; n]; lags.len()];
		let mut again = vec![0u32; n];
		let mut last: Option<Vec<bool>> = None;
		for _ in 0..draws {
			let v = BinaryRepr::new_random(n, &mut g).to_vec();
			for i in 0..n {
				ones[i] += v[i] as u32;
			}
			for (k, l) in lags.as_slice().iter().enumerate() {
				for i in *l..n {
					same[k][i] += (v[i] == v[i - l]) as u32;
				}
			}
			if let Some(w) = &last {
				for i in 0..n {
					again[i] += (v[i] == w[i]) as u32;
				}
			}
			last = Some(v);
		}
		let sd = (draws as f64 / 4.0).sqrt();
		let odd = |k: u32| (k as f64 - draws as f64 / 2.0).abs() > 7.0 * sd;
		for i in 0..n {
			ctx.sub += 1;
			if odd(ones[i]) {
				return Err(format!("bit {i} of {n} is set in {} of {draws} draws", ones[i]));
			}
			if odd(again[i]) {
				return Err(format!("bit {i} of {n} is as before in {} of {draws} draws", again[i]));
			}
			for (k, l) in lags.as_slice().iter().enumerate() {
				if i >= *l && odd(same[k][i]) {
					return Err(format!(
						"bits {} and {i} of {n} agree in {} of {draws} draws",
						i - l,
						same[k][i]
					));
				}
			}
		}
		ctx.nontrivial_if(n >= 2);
		Ok(())
	}
}

pub fn c13() -> Property {
	Property {
		id: "C13",
		legs: vec![Box::new(BitLeg), Box::new(FairLeg)],
		assumptions: &["unchecked accessors are called within their documented range"],
	}
}

// ---------------------------------------------------------------------------
// C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetCase {
	/// elements in arbitrary order
	pub v: Vec<usize>,
	pub probe: Vec<usize>,
	/// repeat one element
	pub dup: bool,
}

fn set_check<S: NodeSet>(what: &str, s: S, want: &BTreeSet<usize>, probe: &[usize]) -> Res {
	let sorted: Vec<usize> = want.iter().cloned().collect();
	let it: Vec<usize> = s.iter().collect();
	if it != sorted {
		return Err(format!("{what}: iterates {it:?} instead of {sorted:?}"));
	}
	if s.len() != want.len() {
		return Err(format!("{what}: len() is {} for {want:?}", s.len()));
	}
	for p in probe.iter().chain(want.iter()) {
		if s.contains(*p) != want.contains(p) {
			return Err(format!("{what}: contains({p}) is {} for {want:?}", s.contains(*p)));
		}
	}
	// nodes which differ from one of the set in a single bit
	for x in want.iter() {
		for bit in 0..usize::BITS {
			let p = *x ^ (1 << bit);
			if s.contains(p) != want.contains(&p) {
				return Err(format!("{what}: contains({p}) is {} for {want:?}", s.contains(p)));
			}
		}
	}
	if want.len() <= 12 {
		iter_ways(what, || s.iter(), &sorted, probe.len())?;
		let h = |s: &S| {
			use std::hash::{Hash, Hasher};
			let mut h = std::collections::hash_map::DefaultHasher::new();
			s.hash(&mut h);
			h.finish()
		};
		if S::from_vec(sorted.clone()).map_or(true, |t| t != s || h(&t) != h(&s)) {
			return Err(format!("{what}: {s:?} and the same set built again are told apart"));
		}
	}
	if s.clone().into_vec() != sorted {
		return Err(format!("{what}: into_vec() is {:?}", s.into_vec()));
	}
	if s.clone().into_set() != *want {
		return Err(format!("{what}: into_set() is {:?}", s.into_set()));
	}
	match S::from_set(s.clone().into_set()) {
		Some(t) if t == s => {}
		t => return Err(format!("{what}: {s:?} comes back from its set as {t:?}")),
	}
	match S::from_vec(s.clone().into_vec()) {
		Some(t) if t == s => {}
		t => return Err(format!("{what}: {s:?} comes back from its vector as {t:?}")),
	}
	match unsafe { S::from_vec_unchecked(sorted.clone()) } {
		Some(t) if t == s => {}
		t => return Err(format!("{what}: {s:?} comes back from its sorted vector as {t:?}")),
	}
	match S::from_it(sorted) {
		Some(t) if t == s => Ok(()),
		t => Err(format!("{what}: {s:?} comes back from an iterator as {t:?}")),
	}
}

struct SetLeg;
impl Leg for SetLeg {
	type Case = SetCase;
	fn name(&self) -> &'static str {
		"sets"
	}
	fn rule(&self) -> &'static str {
		"node lists in arbitrary order through the three representations, round trips and agreement with a set; non-trivial = at least 2 nodes given out of order"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(300_000, 5_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<SetCase> {
		let node = || prop_oneof![3 => 0usize..8, 1 => any::<usize>()];
		(
			prop_oneof![
				proptest::collection::hash_set(node(), 0..4),
				proptest::collection::hash_set(node(), 1..=2),
				proptest::collection::hash_set(node(), 0..12),
				proptest::collection::hash_set(prop_oneof![0usize..400, any::<usize>()], 0..100)
			],
			proptest::collection::vec(node(), 0..6),
			any::<bool>(),
			any::<bool>(),
			proptest::option::weighted(0.3, 0u32..64),
		)
			.prop_map(|(v, probe, dup, rev, twin)| {
				let mut v: Vec<usize> = v.into_iter().collect();
				if let (Some(bit), true) = (twin, v.len() > 0) {
					let t = v[0] ^ (1 << bit);
					if v.as_slice().iter().all(|x| *x != t) {
						v.push(t);
					}
				}
				v.sort_unstable_by_key(|x| x.wrapping_mul(0x9e3779b97f4a7c15));
				if rev {
					v.sort_unstable();
					v.reverse();
				}
				SetCase { v, probe, dup }
			})
			.boxed()
	}
	fn check(&self, c: &SetCase, ctx: &mut Ctx) -> Res {
		let want: BTreeSet<usize> = c.v.as_slice().iter().cloned().collect();
		ctx.sub += 3;
		let s = <BTreeSet<usize> as NodeSet>::from_vec(c.v.clone()).ok_or("set from vector")?;
		set_check("BTreeSet", s, &want, &c.probe)?;
		let s = <Vec<usize> as NodeSet>::from_vec(c.v.clone()).ok_or("vector from vector")?;
		set_check("Vec", s, &want, &c.probe)?;
		let s = <Vec<usize> as NodeSet>::from_set(want.clone()).ok_or("vector from set")?;
		set_check("Vec", s, &want, &c.probe)?;
		let s = <[usize; 2] as NodeSet>::from_vec(c.v.clone());
		match (s, want.len()) {
			(Some(s), 1 | 2) => {
				if s[0] > s[1] {
					return Err(format!("{s:?} is not in ascending order"));
				}
				set_check("pair", s, &want, &c.probe)?
			}
			(None, 0) => {}
			(None, n) if n > 2 => {}
			(s, n) => return Err(format!("a pair made of {n} nodes: {s:?}")),
		}
		if c.dup && want.len() == 1 {
			let x = c.v[0];
			match <[usize; 2] as NodeSet>::from_vec(vec![x, x]) {
				Some(s) => set_check("pair of equal nodes", s, &want, &c.probe)?,
				None => return Err(format!("no pair from [{x}, {x}]")),
			}
		}
		ctx.label(format!("nodes{}", want.len().min(4)));
		ctx.nontrivial_if(c.v.windows(2).any(|w| w[0] > w[1]));
		Ok(())
	}
}

pub fn c14() -> Property {
	Property {
		id: "C14",
		legs: vec![Box::new(SetLeg)],
		assumptions: &["distinct nodes (the pair type also accepts a repeated one)"],
	}
}

// ---------------------------------------------------------------------------
// C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NumCase {
	pub a: i64,
	pub b: i64,
	pub f: i32,
	pub frac: u8,
	/// Two floating point numbers, as their bits.
	#[serde(default)]
	pub bits: [u64; 2],
}

/// Floating point numbers of any size against the machine's own arithmetic.
fn floats(c: &NumCase, ctx: &mut Ctx) -> Res {
	let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
	let v = [f64::from_bits(c.bits[0]), f64::from_bits(c.bits[1])];
	for x in v {
		ctx.sub += 1;
		let y = x as f32;
		for (what, got, want) in [
			("as_f64", Real::as_f64(&x), x),
			("from_f64", <f64 as Real>::from_f64(x), x),
			("from_f64 to f32", <f32 as Real>::from_f64(x) as f64, y as f64),
			("as_f64 from f32", Real::as_f64(&y), y as f64),
			("convert_from f32", <f64 as ConvertFrom<f32>>::convert_from(y), y as f64),
			("convert_to f64", ConvertTo::<f64>::convert_to(y), y as f64),
			("convert_force to f32", ConvertForce::<f32>::convert_force(x) as f64, y as f64),
			("convert_force to f64", ConvertForce::<f64>::convert_force(y), y as f64),
			("abs", Real::abs(x), f64::from_bits(c_abs(x))),
			("abs of f32", Real::abs(y) as f64, f64::from_bits(c_abs(y as f64))),
		] {
			if !same(got, want) {
				return Err(format!("{what}({x:e}) is {got:e}, not {want:e}"));
			}
		}
		let finite = |x: f64| x - x == 0.0;
		if Real::is_finite(x) != finite(x) || Real::is_finite(y) != finite(y as f64) {
			return Err(format!("is_finite({x:e})"));
		}
		// cut towards zero by integers
		if x.abs() < 9.0e15 {
			let t = x.trunc();
			if <i64 as Real>::from_f64(x) as f64 != t || <i128 as Real>::from_f64(x) as f64 != t {
				return Err(format!("the integer part of {x:e}"));
			}
			if x.abs() < 2.0e9 && <i32 as Real>::from_f64(x) as f64 != t
				|| x.abs() < 3.2e4 && <i16 as Real>::from_f64(x) as f64 != t
				|| x.abs() < 127.0 && <i8 as Real>::from_f64(x) as f64 != t
			{
				return Err(format!("the integer part of {x:e}"));
			}
		}
	}
	let (x, y) = (v[0], v[1]);
	if !x.is_nan() && !y.is_nan() {
		let (lo, hi) = if x < y { (x, y) } else { (y, x) };
		let (a, b) = (x as f32, y as f32);
		let (la, ha) = if a < b { (a, b) } else { (b, a) };
		if Real::min(x, y) != lo || Real::max(x, y) != hi || Real::min(a, b) != la || Real::max(a, b) != ha {
			return Err(format!("min/max of {x:e} and {y:e}"));
		}
	}
	// What nan_or gives counts for nothing in a minimum or maximum.
	for x in v {
		if x.is_nan() {
			continue;
		}
		let (n, y, m) = (<f64 as Real>::nan_or(0.0), x as f32, <f32 as Real>::nan_or(0.0));
		if [Real::min(x, n), Real::min(n, x), Real::max(x, n), Real::max(n, x)] != [x; 4]
			|| [Real::min(y, m), Real::min(m, y), Real::max(y, m), Real::max(m, y)] != [y; 4]
		{
			return Err(format!("min/max of {x:e} and NaN"));
		}
	}
	Ok(())
}

/// The bits of a number without its sign.
fn c_abs(x: f64) -> u64 {
	x.to_bits() & !(1 << 63)
}

fn fits<R: Real>(v: i64) -> bool {
	(v as f64) >= R::MIN.as_f64() && (v as f64) <= R::MAX.as_f64()
}

struct NumLeg;
impl Leg for NumLeg {
	type Case = NumCase;
	fn name(&self) -> &'static str {
		"numbers"
	}
	fn rule(&self) -> &'static str {
		"integers and dyadic fractions around the limits of every type, and floating point numbers of any exponent; basic operations of Real for all 7 types and all conversions between them against integer arithmetic; non-trivial = a value outside the range of the smallest type"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(300_000, 5_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<NumCase> {
		let v = || {
			prop_oneof![
				-200i64..200,
				-40000i64..40000,
				any::<i32>().prop_map(|v| v as i64),
				-(1i64 << 53)..(1i64 << 53),
				proptest::sample::select(vec![
					-128i64,
					127,
					-129,
					128,
					32767,
					-32768,
					i32::MAX as i64,
					i32::MIN as i64,
					0,
					1,
					-1,
					1 << 24,
					(1 << 53) - 1
				])
			]
		};
		let bits = || {
			prop_oneof![
				3 => any::<u64>(),
				2 => (-1.0e4f64..1.0e4).prop_map(f64::to_bits),
				1 => (-330i32..309, -10.0f64..10.0).prop_map(|(e, m)| (m * 10f64.powi(e)).to_bits()),
				1 => (-1.0e16f64..1.0e16).prop_map(f64::to_bits)
			]
		};
		(v(), v(), -100_000i32..100_000, any::<u8>(), bits(), bits())
			.prop_map(|(a, b, f, frac, x, y)| NumCase { a, b, f, frac, bits: [x, y] })
			.boxed()
	}
	fn check(&self, c: &NumCase, ctx: &mut Ctx) -> Res {
		floats(c, ctx)?;
		macro_rules! basics {
			($($t:ty, $float:expr, $exact:expr);*) => {$({
				let name = stringify!($t);
				// exactly representable values only
				let exact: i64 = $exact;
				for v in [c.a, c.b] {
					if v.abs() > exact || !fits::<$t>(v) {
						continue;
					}
					ctx.sub += 1;
					let r = v as $t;
					if Real::as_f64(&r) != v as f64 {
						return Err(format!("{name}: as_f64({v}) is {}", Real::as_f64(&r)));
					}
					if <$t as Real>::from_f64(v as f64) != r {
						return Err(format!("{name}: from_f64({v}) is {}", <$t as Real>::from_f64(v as f64)));
					}
					if v >= i32::MIN as i64 && v <= i32::MAX as i64
						&& Real::as_f64(&<$t as Real>::from_i32(v as i32)) != v as f64
					{
						return Err(format!("{name}: from_i32({v}) is {}", <$t as Real>::from_i32(v as i32)));
					}
					if fits::<$t>(-v) && Real::as_f64(&Real::abs(r)) != v.abs() as f64 {
						return Err(format!("{name}: abs({v}) is {}", Real::abs(r)));
					}
					if !Real::is_finite(r) {
						return Err(format!("{name}: {v} counts as not finite"));
					}
				}
				let (a, b) = (c.a, c.b);
				if a.abs() <= exact && b.abs() <= exact && fits::<$t>(a) && fits::<$t>(b) {
					let (x, y) = (a as $t, b as $t);
					if Real::as_f64(&Real::min(x, y)) != Ord::min(a, b) as f64 || Real::as_f64(&Real::max(x, y)) != Ord::max(a, b) as f64 {
						return Err(format!("{name}: min/max of {a}, {b} are {}, {}", Real::min(x, y), Real::max(x, y)));
					}
				}
				if Real::as_f64(&<$t as Real>::zero()) != 0.0 || Real::as_f64(&<$t as Real>::one()) != 1.0 {
					return Err(format!("{name}: zero or one"));
				}
				if <$t as Real>::MAX != <$t>::MAX || <$t as Real>::MIN != <$t>::MIN {
					return Err(format!("{name}: MAX or MIN"));
				}
				let k = <$t as Real>::nan_or(5 as $t);
				let float: bool = $float;
				if float != (k != k) || (!float && k != 5 as $t) {
					return Err(format!("{name}: nan_or(5) is {k}"));
				}
				if float && Real::is_finite(k) {
					return Err(format!("{name}: NaN counts as finite"));
				}
				// fractions are cut towards zero by integers, kept by floats
				let fr = c.f as f64 + (c.frac % 4) as f64 / 4.0;
				if fits::<$t>(c.f as i64) && fits::<$t>(c.f as i64 + 1) {
					let got = Real::as_f64(&<$t as Real>::from_f64(fr));
					let want = if float { fr } else { fr.trunc() };
					if got != want {
						return Err(format!("{name}: from_f64({fr}) is {got}"));
					}
				}
			})*};
		}
		basics!(
			i8, false, i64::MAX; i16, false, i64::MAX; i32, false, i64::MAX;
			i64, false, 1 << 53; i128, false, 1 << 53; f32, true, 1 << 24; f64, true, 1 << 53
		);
		macro_rules! force {
			($from:ty => $($to:ty),*) => {$({
				let lim = |t: &str| -> i64 {
					if t == "f32" { 1 << 24 } else { 1 << 53 }
				};
				let v = c.a;
				if v.abs() <= lim(stringify!($from)) && v.abs() <= lim(stringify!($to))
					&& fits::<$from>(v) && fits::<$to>(v)
				{
					ctx.sub += 1;
					let x = v as $from;
					let y: $to = ConvertForce::<$to>::convert_force(x);
					if Real::as_f64(&y) != v as f64 {
						return Err(format!("{v} from {} to {} becomes {y}", stringify!($from), stringify!($to)));
					}
				}
			})*};
		}
		force!(i8 => i8, i16, i32, i64, i128, f32, f64);
		force!(i16 => i8, i16, i32, i64, i128, f32, f64);
		force!(i32 => i8, i16, i32, i64, i128, f32, f64);
		force!(i64 => i8, i16, i32, i64, i128, f32, f64);
		force!(i128 => i8, i16, i32, i64, i128, f32, f64);
		force!(f32 => i8, i16, i32, i64, i128, f32, f64);
		force!(f64 => i8, i16, i32, i64, i128, f32, f64);
		macro_rules! with {
			($($a:ty, $b:ty => $o:ty);*) => {$({
				let lim: i64 = if stringify!($o) == "f32" || stringify!($a) == "f32" { 1 << 24 } else { 1 << 53 };
				if c.a.abs() <= lim && c.b.abs() <= lim && fits::<$a>(c.a) && fits::<$b>(c.b) {
					ctx.sub += 1;
					let (x, y) = (c.a as $a, c.b as $b);
					let l: $o = <$a as ConvertWith<$b>>::convert_lhs(x);
					let r: $o = <$a as ConvertWith<$b>>::convert_rhs(y);
					let l2: $o = <$b as ConvertWith<$a>>::convert_rhs(x);
					let r2: $o = <$b as ConvertWith<$a>>::convert_lhs(y);
					let up: $o = <$o as ConvertFrom<$a>>::convert_from(x);
					let to: $o = ConvertTo::<$o>::convert_to(x);
					for (got, want) in [(l, c.a), (r, c.b), (l2, c.a), (r2, c.b), (up, c.a), (to, c.a)] {
						if Real::as_f64(&got) != want as f64 {
							return Err(format!("{want} combined from {} and {} becomes {got}", stringify!($a), stringify!($b)));
						}
					}
				}
			})*};
		}
		with!(
			i8, i16 => i16; i8, i32 => i32; i8, i64 => i64; i8, i128 => i128; i8, f32 => f32; i8, f64 => f64;
			i16, i32 => i32; i16, i64 => i64; i16, i128 => i128; i16, f32 => f32; i16, f64 => f64;
			i32, i64 => i64; i32, i128 => i128; i32, f32 => f32; i32, f64 => f64;
			i64, i128 => i128; i64, f32 => f32; i64, f64 => f64;
			i128, f32 => f32; i128, f64 => f64; f32, f64 => f64
		);
		for f in [f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
			if Real::is_finite(f) || Real::is_finite(f as f32) {
				return Err(format!("{f} counts as finite"));
			}
		}
		ctx.nontrivial_if(!fits::<i8>(c.a) || !fits::<i8>(c.b));
		Ok(())
	}
}

pub fn c21() -> Property {
	Property {
		id: "C21",
		legs: vec![Box::new(NumLeg)],
		assumptions: &["values representable in the types involved; what happens to others is not judged"],
	}
}
