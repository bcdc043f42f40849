From e45e31d532b670e4f33e94f4ac04cfd267383440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 01/17] fix: enumerate no pairs for models with fewer than two
 nodes

---
 annealers/src/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..d2c9566 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -312,6 +312,10 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			self.indices[finger] += 1;
 			Some(ret)
 		} else if self.indices.len() == 1 {
+			if self.size < 2 {
+				// There is no pair of nodes
+				return None;
+			}
 			self.indices = vec![0, 1];
 			let ret = S::from_vec(self.indices.clone()).unwrap();
 			self.indices[1] += 1;
-- 
2.43.0


From eb54fcaac63d286ccd35118e6d21298b0af2ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 02/17] fix: feed placeholders inside constraints and penalties

---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index e025248..f67f5d7 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -78,6 +78,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From c79bcdbbdc45ee9985a6b7cf189d7784fcfffb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 03/17] fix: keep product substitution consistent in the
 compiled energy

---
 src/compiled.rs | 11 ++++++-----
 src/expr.rs     | 10 ++++++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..425bc95 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,12 +202,13 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
-				for mut expanded in self
-					.expanded
-					.drain()
-					.map(|(set, exp)| Expanded::from(set, exp))
-				{
+				for (set, exp) in self.expanded.drain() {
+					let mut expanded = Expanded::from(set, exp.clone());
 					if expanded.is_superset(&replaced_set) {
+						if let Some(constraint) = &constraint {
+							// Make it never profitable to break the constraint.
+							new_expanded += constraint.clone() * exp.abs_bound();
+						}
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
diff --git a/src/expr.rs b/src/expr.rs
index f67f5d7..b3f4885 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -628,6 +628,16 @@ where
 		}
 	}
 
+	/// Upper bound of the absolute value. Placeholders must be positive.
+	pub(crate) fn abs_bound(self) -> Self {
+		match self {
+			Self::Add(v) => Self::Add(v.into_iter().map(|item| item.abs_bound()).collect()),
+			Self::Mul(v) => Self::Mul(v.into_iter().map(|item| item.abs_bound()).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+			o => o,
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From 5c8a2b7423cd0cc03dc4ffbd1da834df8fb1d263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 04/17] fix: share the constraint strength without truncating
 it for integral types

---
 src/solve.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..b3c227f 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,14 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						// The share is a fraction, which integral types cannot represent
+						let weight = *cnt as f64 * self.coeff_strength.as_f64() / size as f64;
+						let ret = R::from_f64(weight);
+						if weight > 0.0 && ret == R::zero() {
+							R::one()
+						} else {
+							ret
+						}
 					} else {
 						panic!()
 					}
-- 
2.43.0


From 3ea70b2c352afda432f00e1d790e0d797534ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 05/17] fix: return a feasible sample even if its reweighted
 energy is not lower

---
 src/solve.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index b3c227f..8eac9b0 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -192,18 +192,22 @@ where
 					.unwrap();
 				let energy = sol.energy.unwrap();
 				// println!("{}, {}, {}", min, old_energy, energy);
-				if old_energy <= energy {
-					continue;
-				}
-				old_energy = energy;
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
 					.iter()
 					.enumerate()
 					.map(|(i, q)| (*q, sol[i]))
 					.collect();
+				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
+				// The weights of the constraints differ between generations, so that a feasible
+				// solution may have higher energy than the infeasible one found before.
+				let is_satisfied = unsatisfied.iter().all(|c| c.label.is_none());
+				if !is_satisfied && old_energy <= energy {
+					continue;
+				}
+				old_energy = energy;
 				let mut constraint_labels = Vec::new();
-				for c in self.model.get_unsatisfied_constraints(&ans) {
+				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
 						if let Some(point) = phdict.get_mut(ph) {
 							*point += 1;
@@ -214,7 +218,6 @@ where
 						constraint_labels.push(label);
 					}
 				}
-				let is_satisfied = constraint_labels.len() == 0;
 				ret = Some((
 					energy + c,
 					SolutionView::new(sol.with_local_field(&model), qubit_map.clone()),
-- 
2.43.0


From cc8a7eb5cd90fe032a54253f81b693600071cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:16 +0000
Subject: [PATCH 06/17] fix: let the edge iterator be polled again after it
 ended

---
 annealers/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 990e0d3..05d6ecc 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -184,11 +184,11 @@ impl Iterator for UnstructuredEdgeIter {
 	type Item = BTreeSet<usize>;
 	fn next(&mut self) -> Option<BTreeSet<usize>> {
 		if self.0 == self.1 {
-			self.1 += 1;
-			self.0 = 0;
-			while self.2.len() <= self.1 {
+			while self.2.len() <= self.1 + 1 {
 				self.2.push(self.3.next()?);
 			}
+			self.1 += 1;
+			self.0 = 0;
 			self.next()
 		} else {
 			let i = self.2[self.0];
-- 
2.43.0


From 16cb0514b1b9ab0e2428cf817e6d1811893a488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 07/17] fix: give NaN from nan_or for the floating types

---
 annealers/src/variable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annealers/src/variable.rs b/annealers/src/variable.rs
index cfac226..2913a46 100644
--- a/annealers/src/variable.rs
+++ b/annealers/src/variable.rs
@@ -65,7 +65,7 @@ macro_rules! impl_nan_or {
 }
 
 macro_rules! impl_real_as_f64 {
-	($b:expr, $typ:ty, $pat:path) => {
+	($b:tt, $typ:ty, $pat:path) => {
 		/// Implementation of Real for $typ
 		impl Real for $typ {
 			const MAX: $typ = <$typ>::MAX;
-- 
2.43.0


From 3964326da53dc745984361a0ea3e70a2bbfbbbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 08/17] fix: anneal sparse models whose nodes are not
 consecutive

---
 classical_solver/src/algo.rs | 4 ++--
 classical_solver/src/sa.rs   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 9e9f6ca..6b24374 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -34,8 +34,8 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	sweeps_per_round: usize,
 	model: &P,
 ) {
-	assert!(state.len() == model.size());
-	let size = model.size();
+	let size = state.len();
+	assert!(model.nodes().into_iter().all(|i| i < size));
 	let node = model.node();
 	let mut energy_diffs = std::iter::repeat(<<P::Node as Node>::RealType as Default>::default())
 		.take(size)
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 64f8d7b..828b7f3 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -75,7 +75,9 @@ impl<'a, R: Real, P: SingleModelView<Node = Binary<R>> + Send + Sync> ClassicalS
 		&self,
 		r: &mut T,
 	) -> Result<Vec<SingleSolution<P::Node>>, NoneError> {
-		let mut state = BinaryRepr::new_random(self.model.size(), r);
+		// The nodes of the model are not always consecutive
+		let len = self.model.nodes().into_iter().max().map_or(0, |i| i + 1);
+		let mut state = BinaryRepr::new_random(len, r);
 		// let mut state = BinaryRepr::from_vec(&vec![true, false, true]);
 		simulated_annealing(
 			r,
-- 
2.43.0


From eec478642d49abf73836001d7636b5d75444bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 09/17] fix: generate finite schedules for single betas and
 models without weights

---
 classical_solver/src/beta.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 417dec0..f175b34 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -47,7 +47,7 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 				.sum()
 		})
 		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
-	if eg_max.is_finite() && eg_min.is_finite() {
+	if eg_max.is_finite() && eg_min.is_finite() && eg_min > <real_typ!(P)>::zero() {
 		(
 			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
 			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
@@ -78,7 +78,11 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 }
 
 fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0);
+	let r = if count > 1 {
+		f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0)
+	} else {
+		0.0
+	};
 	(0..count)
 		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
 		.collect()
-- 
2.43.0


From 2bedeb15e38709e8f9e258a79e7f3c80c29109e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 10/17] fix: keep the beta schedule fractional for integral
 models

---
 classical_solver/src/algo.rs |  6 +++---
 classical_solver/src/beta.rs | 21 +++++++++++----------
 classical_solver/src/sa.rs   |  2 +-
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 6b24374..814a552 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -27,10 +27,10 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	}
 }
 
-pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real>(
+pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real, B: Real>(
 	random: &mut T,
 	state: &mut BinaryRepr,
-	beta_schedule: &[<P::Node as Node>::RealType],
+	beta_schedule: &[B],
 	sweeps_per_round: usize,
 	model: &P,
 ) {
@@ -57,7 +57,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 					continue;
 				}
 				if ed.as_f64() <= 0.0
-					|| f64::exp(-(ed * *beta).as_f64()) > random.gen_range(0.0, 1.0)
+					|| f64::exp(-(ed.as_f64() * beta.as_f64())) > random.gen_range(0.0, 1.0)
 				{
 					unsafe {
 						state.flip_unchecked(i);
diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index f175b34..bdf946b 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -23,7 +23,7 @@ macro_rules! real_typ {
 	};
 }
 
-fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ!(P)) {
+fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	macro_rules! nan_or_min {
 		() => {
 			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
@@ -49,26 +49,27 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
 	if eg_max.is_finite() && eg_min.is_finite() && eg_min > <real_typ!(P)>::zero() {
 		(
-			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
-			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
+			f64::ln(2.0) / (ndiff * eg_max).as_f64(),
+			f64::ln(100.0) / (ndiff * eg_min).as_f64(),
 		)
 	} else {
-		(<real_typ!(P)>::one(), <real_typ!(P)>::from_i32(10))
+		(1.0, 10.0)
 	}
 }
 
 /// Generate *beta schedule* from given parameters.
 /// the meanings of the parameters is the same of
 /// [`AnnealerInfo::build_with_ising()`].
+/// The betas are fractions even if the model has integral weights.
 pub(crate) fn generate_schedule<P: SingleModelView>(
 	beta_type: &BetaType<real_typ!(P)>,
 	model: &P,
-) -> Vec<real_typ!(P)> {
+) -> Vec<f64> {
 	match beta_type {
-		BetaType::Schedule(v) => v.clone(),
+		BetaType::Schedule(v) => v.iter().map(|beta| beta.as_f64()).collect(),
 		BetaType::Count(count) | BetaType::CountRange(count, _, _) => {
 			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
-				(*min, *max)
+				(min.as_f64(), max.as_f64())
 			} else {
 				generate_beta_range(model)
 			};
@@ -77,13 +78,13 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 	}
 }
 
-fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
+fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
 	let r = if count > 1 {
-		f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0)
+		f64::ln(beta_max / beta_min) / (count as f64 - 1.0)
 	} else {
 		0.0
 	};
 	(0..count)
-		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
+		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
 }
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 828b7f3..b5a3746 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -19,7 +19,7 @@ pub struct SimulatedAnnealerGenerator<'a, P: SingleModelView> {
 
 pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 	sweeps_per_round: usize,
-	beta_schedule: Vec<<P::Node as Node>::RealType>,
+	beta_schedule: Vec<f64>,
 	model: &'a P,
 	_phantom: PhantomData<R>,
 }
-- 
2.43.0


From bc251948123166107fd3416a1e762160fa195eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 11/17] fix: leave a valid expression behind while assigning

---
 src/expr.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index b3f4885..fb399b6 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -4,7 +4,6 @@ use crate::wrapper::Placeholder;
 use crate::{TcType, TpType, TqType};
 use annealers::variable::{ConvertFrom, Real};
 use std::collections::{BTreeSet, HashMap};
-use std::mem::MaybeUninit;
 use std::ops::{Add, AddAssign, BitXor, BitXorAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 
 // TODO: hide the implementation from public
@@ -424,11 +423,8 @@ macro_rules! impl_assign_op {
 		{
 			#[inline]
 			fn $fun(&mut self, other: $rhs) {
-				let mut inner = unsafe { MaybeUninit::zeroed().assume_init() };
-				std::mem::swap(self, &mut inner);
-				let mut outer = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
-				std::mem::swap(self, &mut outer);
-				std::mem::forget(outer);
+				let inner = std::mem::replace(self, Expr::Number(R::from_i32(0)));
+				*self = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
 			}
 		}
 	};
-- 
2.43.0


From 9be647245417b1dcb08e573616c82e12b2bb33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 12/17] fix: initialise the bits of a new state

---
 annealers/src/repr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/annealers/src/repr.rs b/annealers/src/repr.rs
index 6b320f7..2088776 100644
--- a/annealers/src/repr.rs
+++ b/annealers/src/repr.rs
@@ -22,9 +22,10 @@ impl BinaryRepr {
 	#[inline]
 	pub unsafe fn with_len_unchecked(len: usize) -> Self {
 		let size = (len + BYTESIZE - 1) / BYTESIZE;
-		let mut v = Vec::with_capacity(size);
-		v.set_len(size);
-		Self { state: v, len }
+		Self {
+			state: vec![0; size],
+			len,
+		}
 	}
 
 	pub fn from_vec(v: &[bool]) -> Self {
-- 
2.43.0


From b327691e67d32bb089858c5357ad78246dbe5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 13/17] fix: compare the energies of samples in their own type,
 f64 cannot tell large integers apart

---
 src/solve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 8eac9b0..6279d12 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -181,13 +181,14 @@ where
 				.flat_map(std::convert::identity)
 				.map(|sol| sol.with_energy(&model))
 				.collect::<Vec<_>>();
-				let min: f64 = fut_ret
+				// as_f64() cannot tell apart large integers
+				let min: R = fut_ret
 					.iter()
-					.fold(0.0 / 0.0, |m, v| v.energy.unwrap().as_f64().min(m));
+					.fold(R::nan_or(R::MAX), |m, v| v.energy.unwrap().min(m));
 				assert!(min.is_finite());
 				let sol = fut_ret
 					.into_iter()
-					.filter(|r| r.energy.unwrap().as_f64() == min)
+					.filter(|r| r.energy.unwrap() == min)
 					.next()
 					.unwrap();
 				let energy = sol.energy.unwrap();
-- 
2.43.0


From c7cb332eb94a3a371148ce4b86422f9f08ceacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 14/17] fix: list the products of a sparse model in a fixed
 order, sums over them were rounded differently each time

---
 annealers/src/model.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index d2c9566..5da1fa4 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -172,6 +172,13 @@ impl<M: SingleNode, O: Order> SingleModel<M, O> {
 	}
 }
 
+/// The order of the map differs each time, and sums taken in it are rounded differently.
+fn in_order<'a, S: NodeSet, I: Iterator<Item = &'a S>>(it: I) -> std::vec::IntoIter<S> {
+	let mut v = it.cloned().collect::<Vec<S>>();
+	v.sort_by_cached_key(|p| p.iter().collect::<Vec<_>>());
+	v.into_iter()
+}
+
 impl<M: SingleNode, O: Order> SingleModelView for SingleModel<M, O> {
 	type Node = M;
 	type NodesIter = std::collections::btree_set::IntoIter<usize>;
@@ -202,12 +209,11 @@ impl<M: SingleNode, O: Order> SingleModelView for SingleModel<M, O> {
 	}
 
 	fn prods(&self) -> Self::ProdsIter {
-		let v = self.inner.keys().cloned().collect::<Vec<O::NodeSetType>>();
-		Box::new(v.into_iter()) as Box<dyn Iterator<Item = O::NodeSetType>>
+		Box::new(in_order(self.inner.keys())) as Box<dyn Iterator<Item = O::NodeSetType>>
 	}
 
 	fn neighbors(&self, u: usize) -> Self::NeighborsIter {
-		Box::new(self.prods().filter(move |p| p.contains(u)))
+		Box::new(in_order(self.inner.keys().filter(|p| p.contains(u))))
 			as Box<dyn Iterator<Item = O::NodeSetType>>
 	}
 }
-- 
2.43.0


From 12a48841edaa21e930418ce337d4146bee90f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 15/17] fix: reduce the order once the placeholders are fed,
 the reduction took their values for positive

---
 src/compiled.rs | 15 +++++++++++++++
 src/expr.rs     |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiled.rs b/src/compiled.rs
index 425bc95..8b1e2da 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -57,6 +57,7 @@ where
 			constraints,
 			builder: self.builder,
 		}
+		.reduce_order(2)
 	}
 
 	fn generate_replace(
@@ -183,6 +184,20 @@ where
 			.collect()
 	}
 
+	/// The reduction depends on the signs of the coefficients: wait for
+	/// feed_dict() while there are unknown ones.
+	pub(crate) fn reduce_order_if_fed(self, max_order: usize) -> Self {
+		let is_fed = self.get_placeholders().into_iter().all(|p| match p {
+			Placeholder::Placeholder(_) => false,
+			Placeholder::Constraint(_) => true,
+		});
+		if is_fed {
+			self.reduce_order(max_order)
+		} else {
+			self
+		}
+	}
+
 	pub(crate) fn reduce_order(mut self, max_order: usize) -> Self {
 		let mut builder = self.builder.clone();
 		while self.expanded.get_order() > max_order {
diff --git a/src/expr.rs b/src/expr.rs
index fb399b6..0c27fe8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -135,7 +135,7 @@ where
 	}
 
 	pub fn compile(self) -> CompiledModel<Tp, Tq, Tc, R> {
-		self.to_model().to_compiled().reduce_order(2)
+		self.to_model().to_compiled().reduce_order_if_fed(2)
 	}
 
 	#[allow(unused)] // TODO: ?
-- 
2.43.0


From 6ee26f19e1bda88654c7d1ba00fa46c1c9040128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 16/17] Revert "fix: reduce the order once the placeholders are
 fed, ...": positive values are a documented requirement

---
 src/compiled.rs | 15 ---------------
 src/expr.rs     |  2 +-
 2 files changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/compiled.rs b/src/compiled.rs
index 8b1e2da..425bc95 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -57,7 +57,6 @@ where
 			constraints,
 			builder: self.builder,
 		}
-		.reduce_order(2)
 	}
 
 	fn generate_replace(
@@ -184,20 +183,6 @@ where
 			.collect()
 	}
 
-	/// The reduction depends on the signs of the coefficients: wait for
-	/// feed_dict() while there are unknown ones.
-	pub(crate) fn reduce_order_if_fed(self, max_order: usize) -> Self {
-		let is_fed = self.get_placeholders().into_iter().all(|p| match p {
-			Placeholder::Placeholder(_) => false,
-			Placeholder::Constraint(_) => true,
-		});
-		if is_fed {
-			self.reduce_order(max_order)
-		} else {
-			self
-		}
-	}
-
 	pub(crate) fn reduce_order(mut self, max_order: usize) -> Self {
 		let mut builder = self.builder.clone();
 		while self.expanded.get_order() > max_order {
diff --git a/src/expr.rs b/src/expr.rs
index 0c27fe8..fb399b6 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -135,7 +135,7 @@ where
 	}
 
 	pub fn compile(self) -> CompiledModel<Tp, Tq, Tc, R> {
-		self.to_model().to_compiled().reduce_order_if_fed(2)
+		self.to_model().to_compiled().reduce_order(2)
 	}
 
 	#[allow(unused)] // TODO: ?
-- 
2.43.0


From 6b4680903656f01620a1dc66008593dc0a2cf3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:38 +0000
Subject: [PATCH 17/17] fix: annealing a model whose products name nodes
 outside nodes() read beyond the state

---
 classical_solver/src/algo.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 814a552..9f91bde 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -6,7 +6,7 @@ use annealers::variable::Real;
 use rand::prelude::*;
 
 #[inline]
-unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
+fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	node: &M,
 	prod: &S,
 	state: &BinaryRepr,
@@ -16,11 +16,11 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 		if i == index {
 			p
 		} else {
-			p * node.get_value(state.get_unchecked(i))
+			p * node.get_value(state.get(i))
 		}
 	});
 	let d = node.get_value(false) - node.get_value(true);
-	if state.get_unchecked(index) {
+	if state.get(index) {
 		d * term
 	} else {
 		-d * term
@@ -45,7 +45,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	for prod in model.prods() {
 		let weight = model.get_weight(&prod);
 		for i in prod.iter() {
-			energy_diffs[i] += unsafe { calculate_flip_cost(node, &prod, &state, i) } * weight;
+			energy_diffs[i] += calculate_flip_cost(node, &prod, &state, i) * weight;
 		}
 	}
 	for beta in beta_schedule.iter() {
@@ -69,7 +69,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 							let weight = model.get_weight(&neigh);
 							for j in neigh.iter() {
 								if i != j {
-									if stat != unsafe { state.get_unchecked(j) } {
+									if stat != state.get(j) {
 										energy_diffs[j] += dd * weight;
 									} else {
 										energy_diffs[j] -= dd * weight;
-- 
2.43.0

