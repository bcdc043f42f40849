//! Models, nodes, orders and node sets of the user's own: C24.
use crate::fw::*;
use crate::props::energy::{arb_ty, Ty};
use crate::props::models::{bits, node_value, solution_check, ModelCase, Nd};
use annealers::model::{
	FixedSingleModelView, FixedSingleQuadricModel, ModelView, SingleModel, SingleModelView,
};
use annealers::node::{Binary, SingleNode};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, SolverGenerator};
use annealers::variable::Real;
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use proptest::prelude::*;
use rand::{RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

macro_rules! by_ty {
	($ty:expr, $f:ident ( $($a:expr),* )) => {
		match $ty {
			Ty::I8 => $f::<i8>($($a),*),
			Ty::I16 => $f::<i16>($($a),*),
			Ty::I32 => $f::<i32>($($a),*),
			Ty::I64 => $f::<i64>($($a),*),
			Ty::I128 => $f::<i128>($($a),*),
			Ty::F32 => $f::<f32>($($a),*),
			Ty::F64 => $f::<f64>($($a),*),
		}
	};
}

// --- what a user writes: only what the traits require -----------------------

/// A node with two values.
#[derive(Clone)]
struct Table<R: Real>(R, R);
impl<R: Real> SingleNode for Table<R> {
	type RealType = R;
	fn get_value(&self, b: bool) -> R {
		if b {
			self.1
		} else {
			self.0
		}
	}
}

/// A set of up to five nodes.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Few(Vec<usize>);
impl NodeSet for Few {
	type Iter = std::vec::IntoIter<usize>;
	fn from_it<T: IntoIterator<Item = usize>>(iter: T) -> Option<Self> {
		let s: BTreeSet<usize> = iter.into_iter().collect();
		if s.len() > 5 {
			return None;
		}
		Some(Few(s.into_iter().collect()))
	}
	fn iter(&self) -> Self::Iter {
		self.0.clone().into_iter()
	}
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct UpToFive;
impl Order for UpToFive {
	type NodeSetType = Few;
	fn order(&self) -> usize {
		5
	}
}

/// A list of products, told in any order.
#[derive(Clone)]
struct View<N: SingleNode, O: Order> {
	node: N,
	order: O,
	ids: Vec<usize>,
	prods: Vec<(O::NodeSetType, N::RealType)>,
}
impl<N: SingleNode, O: Order> SingleModelView for View<N, O> {
	type Node = N;
	type NodesIter = Vec<usize>;
	type ProdsIter = Vec<O::NodeSetType>;
	type NeighborsIter = Vec<O::NodeSetType>;
	type Order = O;
	fn order(&self) -> &O {
		&self.order
	}
	fn node(&self) -> &N {
		&self.node
	}
	fn nodes(&self) -> Vec<usize> {
		self.ids.clone()
	}
	unsafe fn get_weight_unchecked(&self, p: &O::NodeSetType) -> N::RealType {
		match self.prods.as_slice().iter().find(|(k, _)| k == p) {
			Some((_, w)) => *w,
			// asking for it is the caller's mistake
			None => N::RealType::zero(),
		}
	}
	fn prods(&self) -> Vec<O::NodeSetType> {
		self.prods.as_slice().iter().map(|(k, _)| k.clone()).collect()
	}
	fn neighbors(&self, u: usize) -> Vec<O::NodeSetType> {
		let mut v = Vec::new();
		for (k, _) in self.prods.as_slice().iter() {
			if k.contains(u) {
				v.push(k.clone());
			}
		}
		v
	}
}

/// A dense model kept in a map.
#[derive(Clone)]
struct Grid<N: SingleNode> {
	node: N,
	n: usize,
	w: BTreeMap<(usize, usize), N::RealType>,
}
impl<N: SingleNode> FixedSingleModelView for Grid<N> {
	type Node = N;
	type Order = Quadric;
	fn order(&self) -> &Quadric {
		&Quadric
	}
	fn node(&self) -> &N {
		&self.node
	}
	fn size(&self) -> usize {
		self.n
	}
	unsafe fn get_weight_unchecked(&self, p: &[usize; 2]) -> N::RealType {
		self.w.get(&(p[0], p[1])).cloned().unwrap_or(N::RealType::zero())
	}
}

// --- cases ------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OwnCase {
	pub size: u8,
	/// node k has the number first + step * k
	pub first: u8,
	pub step: u8,
	pub node: Option<(i8, i8)>,
	pub ty: Ty,
	pub terms: Vec<(Vec<u8>, i8)>,
	pub states: Vec<u64>,
	/// in which order things are listed
	pub shuffle: u64,
	pub count: u8,
	pub sweeps: u8,
	pub beta: u8,
}

type Terms = BTreeMap<BTreeSet<usize>, f64>;

fn shuffled<T>(mut v: Vec<T>, seed: u64) -> Vec<T> {
	let mut r = rand::rngs::StdRng::seed_from_u64(seed);
	for i in (1..v.len()).rev() {
		v.swap(i, r.next_u64() as usize % (i + 1));
	}
	v
}

fn refused<T: Real>(what: &str, f: impl FnOnce() -> T) -> Res {
	match catch(f) {
		Ok(w) => Err(format!("{what} is not refused but has weight {w}")),
		Err(_) => Ok(()),
	}
}

fn real<R: Real>(w: f64) -> R {
	R::from_i32(w as i32)
}

impl OwnCase {
	fn id(&self, k: u8) -> usize {
		self.first as usize + (self.step as usize).max(1) * (k as usize % self.size.max(1) as usize)
	}
	fn terms(&self, order: usize) -> Terms {
		let mut out = Terms::new();
		if self.size == 0 {
			return out;
		}
		for (set, w) in self.terms.as_slice().iter() {
			let k: BTreeSet<usize> = set.as_slice().iter().take(order).map(|k| self.id(*k)).collect();
			if !k.is_empty() {
				*out.entry(k).or_insert(0.0) += *w as f64;
			}
		}
		out
	}
	fn total(&self) -> i64 {
		let mut t = 0;
		for (_, w) in self.terms.as_slice().iter() {
			t += 2 * (*w as i64).abs();
		}
		t
	}
	fn ids(&self) -> Vec<usize> {
		(0..self.size).map(|k| self.id(k)).collect()
	}
	fn len(&self) -> usize {
		let mut m = 0;
		for i in self.ids() {
			if i + 1 > m {
				m = i + 1;
			}
		}
		m
	}
	fn as_model(&self) -> ModelCase {
		ModelCase {
			size: self.len() as u16,
			node: match self.node {
				None => Nd::Bin,
				Some((f, t)) => Nd::Two(t, f),
			},
			ty: self.ty,
			quarter: false,
			terms: vec![],
			states: vec![],
			mag: 0,
		}
	}
	fn beta<R: Real>(&self, r: usize) -> BetaType<R> {
		let n = self.count as usize;
		match (self.beta as usize + r) % 3 {
			0 => BetaType::Count(n),
			1 => BetaType::CountRange(n, R::from_i32(1), R::from_i32(4)),
			_ => BetaType::Schedule((0..n).map(|i| R::from_i32(i as i32 / 2)).collect()),
		}
	}
}

fn view<N: SingleNode, O: Order>(c: &OwnCase, node: N, order: O, terms: &Terms) -> Result<View<N, O>, String> {
	let mut prods = Vec::new();
	for (k, w) in terms {
		let p = <O::NodeSetType as NodeSet>::from_set(k.clone()).ok_or(format!("{k:?} makes no set"))?;
		prods.push((p, real(*w)));
	}
	Ok(View {
		node,
		order,
		ids: shuffled(c.ids(), c.shuffle),
		prods: shuffled(prods, !c.shuffle),
	})
}

fn parts<M: SingleModelView>(what: &str, m: &M, ids: &[usize]) -> Res {
	let got: BTreeSet<usize> = SingleModelView::nodes(m).into_iter().collect();
	let viewed: Vec<usize> = ModelView::nodes(m).into_iter().collect();
	let want: BTreeSet<usize> = ids.into_iter().cloned().collect();
	if got != want || viewed.len() != ids.len() || viewed.into_iter().collect::<BTreeSet<_>>() != want {
		return Err(format!("{what}: nodes {got:?} instead of {want:?}"));
	}
	let (a, b) = (SingleModelView::size(m), ModelView::size(m));
	if a != ids.len() || b != ids.len() {
		return Err(format!("{what}: sizes {a} and {b} with {} nodes", ids.len()));
	}
	for v in [false, true] {
		let a = SingleModelView::node(m).get_value(v).as_f64();
		let b = ModelView::node(m).get_value(v).as_f64();
		if a != b {
			return Err(format!("{what}: node values {a} and {b}"));
		}
	}
	Ok(())
}

fn check_view<N: SingleNode, O: Order>(
	what: &str,
	c: &OwnCase,
	m: &View<N, O>,
	terms: &Terms,
	ctx: &mut Ctx,
) -> Res {
	parts(what, m, &c.ids())?;
	for p in m.prods() {
		let k: BTreeSet<usize> = p.iter().collect();
		let w = m.get_weight(&p).as_f64();
		ctx.sub += 1;
		if terms.get(&k).cloned() != Some(w) {
			return Err(format!("{what}: weight {w} of {k:?} instead of {:?}", terms.get(&k)));
		}
	}
	// products it does not list
	let mut asked = 0;
	for i in c.ids() {
		let mut with: Vec<BTreeSet<usize>> = vec![[i].into_iter().collect()];
		with.push([i, c.id(0)].into_iter().collect());
		with.push([i, i + 1].into_iter().collect());
		for k in with {
			if asked < 6 && !terms.contains_key(&k) {
				if let Some(p) = <O::NodeSetType as NodeSet>::from_set(k.clone()) {
					asked += 1;
					refused(&format!("{what}: {k:?}, which is not listed,"), || m.get_weight(&p))?;
				}
			}
		}
	}
	let mc = c.as_model();
	for s in c.states.as_slice().iter() {
		let s = bits(c.len(), *s);
		solution_check(what, m, &mc, terms, &s, c.ty.eps(), ctx)?;
		let sol = SingleSolution::<N>::from_vec(&s);
		for p in m.prods() {
			let want: f64 = p.iter().map(|i| node_value(&mc.node, s[i])).product();
			let got = m.calculate_prod(&p, &sol).as_f64();
			if got != want {
				return Err(format!("{what}: the product of {p:?} is {got}, not {want}"));
			}
		}
	}
	Ok(())
}

fn anneal<'a, M: SingleModelView<Node = Binary<R>> + Send + Sync, R: Real>(
	m: &'a M,
	c: &OwnCase,
	k: usize,
) -> Result<(Vec<bool>, Vec<bool>, u64), String> {
	let mut g = SimulatedAnnealerGenerator::<'a, M>::new();
	g.beta = c.beta(k);
	g.sweeps_per_round = c.sweeps as usize;
	let s = g.generate(m).map_err(|e| e.to_string())?;
	let mut r = rand::rngs::StdRng::seed_from_u64(c.shuffle.rotate_left(k as u32));
	let v = s.solve_with_rng(&mut r).map_err(|e| e.to_string())?;
	if v.len() != 1 || v[0].len() < c.len() {
		return Err(format!(
			"{} samples, the first of {} bits, for a model whose last node is {}",
			v.len(),
			v[0].len(),
			c.len() as i64 - 1
		));
	}
	let mut b = BinaryRepr::from_vec(&bits(c.len(), c.shuffle));
	simulated_annealing(&mut r, &mut b, &[0.5, 1.5], c.sweeps as usize, m);
	let mut state = v[0].state.to_vec();
	state.truncate(c.len());
	Ok((state, b.to_vec(), r.next_u64()))
}

fn own_run<R: Real>(c: &OwnCase, ctx: &mut Ctx) -> Res {
	let (two, many) = (c.terms(2), c.terms(5));
	match c.node {
		None => {
			let n = Binary::<R>::new();
			check_view("own list, any order", c, &view(c, n.clone(), UpToFive, &many)?, &many, ctx)?;
			check_view("own list, pairs", c, &view(c, n.clone(), Quadric, &two)?, &two, ctx)?;
			check_view("own list, sets", c, &view(c, n, HighOrder::new(5), &many)?, &many, ctx)?;
		}
		Some((f, t)) => {
			let n = Table(R::from_i32(f as i32), R::from_i32(t as i32));
			check_view("own list and node", c, &view(c, n.clone(), UpToFive, &many)?, &many, ctx)?;
			check_view("own list of pairs and node", c, &view(c, n.clone(), Quadric, &two)?, &two, ctx)?;
			// the library's own models with a node of the user's
			let mut m = SingleModel::new(n, HighOrder::new(5));
			for (k, w) in many.iter() {
				m.add_weight(k.clone(), real(*w));
			}
			let mc = c.as_model();
			for s in c.states.as_slice().iter() {
				let s = bits(c.len(), *s);
				solution_check("own node", &m, &mc, &many, &s, c.ty.eps(), ctx)?;
			}
		}
	}
	// A dense one: nodes 0 to size - 1.
	let n = c.size as usize;
	let flat = OwnCase {
		first: 0,
		step: 1,
		..c.clone()
	};
	let terms = flat.terms(2);
	let mut w = BTreeMap::new();
	for (k, v) in terms.iter() {
		let k: Vec<usize> = k.into_iter().cloned().collect();
		w.insert((k[0], k[k.len() - 1]), real::<R>(*v));
	}
	let mc = flat.as_model();
	let node = Table(real::<R>(node_value(&mc.node, false)), real::<R>(node_value(&mc.node, true)));
	let g = Grid {
		node,
		n,
		w: w.clone(),
	};
	parts("own dense model", &g, &flat.ids())?;
	for i in 0..n {
		for j in i..n {
			let a = FixedSingleModelView::get_weight(&g, &[i, j]).as_f64();
			let b = SingleModelView::get_weight(&g, &[i, j]).as_f64();
			let want = w.get(&(i, j)).map_or(0.0, |w| w.as_f64());
			if a != want || b != want {
				return Err(format!("own dense model: weights {a} and {b} of {i}, {j} instead of {want}"));
			}
		}
		for p in [[i, n], [i, n + c.first as usize]] {
			refused(&format!("own dense model of {n}: {p:?}"), || FixedSingleModelView::get_weight(&g, &p))?;
			refused(&format!("own dense model of {n}: {p:?}"), || SingleModelView::get_weight(&g, &p))?;
		}
	}
	refused(&format!("own dense model of {n}: its size"), || {
		FixedSingleModelView::get_weight(&g, &[n, n])
	})?;
	let got: Vec<[usize; 2]> = g.prods().collect();
	let set: BTreeSet<[usize; 2]> = got.as_slice().iter().cloned().collect();
	if got.len() != n * (n + 1) / 2 || set.len() != got.len() || got.as_slice().iter().any(|p| p[0] > p[1] || p[1] >= n) {
		return Err(format!("own dense model of {n}: products {got:?}"));
	}
	for u in 0..n {
		let near: BTreeSet<[usize; 2]> = g.neighbors(u).collect();
		let want: BTreeSet<[usize; 2]> = set.iter().filter(|p| p[0] == u || p[1] == u).cloned().collect();
		if near != want {
			return Err(format!("own dense model of {n}: neighbours of {u}: {near:?}"));
		}
	}
	for s in c.states.as_slice().iter() {
		solution_check("own dense model", &g, &mc, &terms, &bits(n, *s), c.ty.eps(), ctx)?;
	}
	// Annealing goes by what the model says, whoever wrote it.
	let b = Binary::<R>::new();
	let mut theirs = FixedSingleQuadricModel::new(b.clone(), n);
	for ((i, j), w) in w.iter() {
		theirs.add_weight(*i, *j, *w);
	}
	let mine = Grid {
		node: b.clone(),
		n,
		w,
	};
	let mut mine2 = view(c, b.clone(), UpToFive, &two)?;
	let mut mine3 = view(c, b.clone(), Quadric, &two)?;
	// long enough a state, in whatever order the nodes are listed
	anneal(&mine2, c, 0)?;
	anneal(&mine3, c, 1)?;
	mine2.ids = c.ids();
	mine3.ids = c.ids();
	let mut theirs2 = SingleModel::new(b, HighOrder::new(2));
	for i in c.ids() {
		// listed, though nothing may have been said about it
		theirs2.add_weight([i].into_iter().collect(), R::zero());
	}
	for (k, w) in two.iter() {
		theirs2.add_weight(k.clone(), real(*w));
	}
	for k in 0..3 {
		let (x, y) = (anneal(&mine, &flat, k)?, anneal(&theirs, &flat, k)?);
		if x != y {
			return Err(format!("an own dense model anneals to {x:?}, the same weights to {y:?}"));
		}
		let (x, y, z) = (anneal(&mine2, c, k)?, anneal(&theirs2, c, k)?, anneal(&mine3, c, k)?);
		if x != y || z != y {
			return Err(format!("an own model anneals to {x:?} or {z:?}, the same weights to {y:?}"));
		}
		ctx.sub += 2;
	}
	if c.node.is_some() {
		ctx.label("own-node");
	}
	ctx.label(if c.first > 0 || c.step > 1 { "gaps" } else { "no-gaps" });
	ctx.nontrivial_if(c.size >= 2 && many.len() >= 2);
	Ok(())
}

struct OwnLeg;
impl Leg for OwnLeg {
	type Case = OwnCase;
	fn name(&self) -> &'static str {
		"own-views"
	}
	fn rule(&self) -> &'static str {
		"up to 24 random terms over 0 to 9 numbered nodes in models, a node, an order and a node set that define only what the traits require and list their parts in any order; derived sizes, weights, refusals, energies and local fields against direct sums, and seeded anneals against the library's models with the same weights; non-trivial = at least 2 nodes and 2 terms"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(40_000, 1_000_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<OwnCase> {
		(
			(0u8..10, prop_oneof![2 => Just(0u8), 1 => 0u8..70], 1u8..9),
			proptest::option::of((-3i8..=3, -3i8..=3)),
			arb_ty(),
			proptest::collection::vec((proptest::collection::vec(any::<u8>(), 1..6), -9i8..=9), 0..24),
			proptest::collection::vec(any::<u64>(), 1..4),
			any::<u64>(),
			(0u8..7, 0u8..5, any::<u8>()),
		)
			.prop_map(|((size, first, step), node, ty, terms, states, shuffle, (count, sweeps, beta))| {
				let mut c = OwnCase {
					size,
					first,
					step,
					node,
					ty,
					terms,
					states,
					shuffle,
					count,
					sweeps,
					beta,
				};
				// keep sums of products of five values small
				if matches!(c.ty, Ty::I8 | Ty::I16) && c.node.is_some() {
					c.ty = Ty::I32;
				}
				c.ty = c.ty.room(2 * c.total());
				c
			})
			.boxed()
	}
	fn check(&self, c: &OwnCase, ctx: &mut Ctx) -> Res {
		by_ty!(c.ty, own_run(c, ctx))
	}
}

/// Conversions every node set gets from the trait.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetCase {
	pub nodes: Vec<usize>,
	pub other: usize,
}

struct SetLeg;
impl Leg for SetLeg {
	type Case = SetCase;
	fn name(&self) -> &'static str {
		"own-sets"
	}
	fn rule(&self) -> &'static str {
		"lists of up to 8 node numbers, with repetitions, made into a node set that defines only its making and its iteration: members, size, membership and conversions against a set; non-trivial = at least 2 different nodes, at most 5"
	}
	fn cases(&self, t: Tier) -> u64 {
		t.pick(40_000, 500_000)
	}
	fn strategy(&self, _t: Tier) -> BoxedStrategy<SetCase> {
		let node = prop_oneof![4 => 0usize..9, 1 => 60usize..70, 1 => any::<usize>()].boxed();
		(proptest::collection::vec(node.clone(), 0..9), node)
			.prop_map(|(nodes, other)| SetCase { nodes, other })
			.boxed()
	}
	fn check(&self, c: &SetCase, ctx: &mut Ctx) -> Res {
		let want: BTreeSet<usize> = c.nodes.as_slice().iter().cloned().collect();
		let ways = [
			("from_it", Few::from_it(c.nodes.clone())),
			("from_vec", Few::from_vec(c.nodes.clone())),
			("from_set", Few::from_set(want.clone())),
			("from_vec_unchecked", unsafe {
				Few::from_vec_unchecked(want.iter().cloned().collect())
			}),
		];
		for (how, s) in ways {
			ctx.sub += 1;
			let s = match s {
				Some(s) if want.len() <= 5 => s,
				None if want.len() > 5 => continue,
				s => return Err(format!("{how} of {:?} gives {s:?}", c.nodes)),
			};
			let list: Vec<usize> = want.iter().cloned().collect();
			if s.clone().into_vec() != list
				|| s.clone().into_set() != want
				|| s.iter().collect::<Vec<_>>() != list
				|| NodeSet::len(&s) != list.len()
			{
				return Err(format!(
					"{how} of {:?}: {:?}, {:?}, {} nodes",
					c.nodes,
					s.clone().into_vec(),
					s.clone().into_set(),
					NodeSet::len(&s)
				));
			}
			for u in c.nodes.as_slice().iter().cloned().chain([c.other, c.other ^ 1, 0]) {
				if NodeSet::contains(&s, u) != want.contains(&u) {
					return Err(format!("{how} of {:?}: contains({u}) is {}", c.nodes, NodeSet::contains(&s, u)));
				}
			}
		}
		ctx.nontrivial_if(want.len() >= 2 && want.len() <= 5);
		Ok(())
	}
}

pub fn c24() -> Property {
	Property {
		id: "C24",
		legs: vec![Box::new(OwnLeg), Box::new(SetLeg)],
		assumptions: &[
			"annealing is judged on models of degree two, and on weights whose sums are exact",
		],
	}
}
