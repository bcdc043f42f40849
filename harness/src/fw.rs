//! Runner: seeded sharded generation, shrinking, evidence, replay files,
//! and process isolation (an abort or a segmentation fault in the code under
//! test is turned into a violation by the parent process).
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

/// Cases hold trees of any depth, so the parser's own depth limit is lifted.
pub fn parse_json(text: &str) -> Result<serde_json::Value, String> {
	use serde::Deserialize;
	let mut d = serde_json::Deserializer::from_str(text);
	d.disable_recursion_limit();
	serde_json::Value::deserialize(&mut d).map_err(|e| e.to_string())
}

impl Tier {
	pub fn name(self) -> &'static str {
		match self {
			Tier::Quick => "quick",
			Tier::Thorough => "thorough",
		}
	}
	pub fn pick<T>(self, q: T, t: T) -> T {
		match self {
			Tier::Quick => q,
			Tier::Thorough => t,
		}
	}
}

pub const SHARDS: u64 = 8;

/// Per-case notes made by a check.
#[derive(Default)]
pub struct Ctx {
	pub labels: Vec<String>,
	pub nontrivial: bool,
	pub sub: u64,
}

impl Ctx {
	pub fn label<S: Into<String>>(&mut self, s: S) {
		self.labels.push(s.into());
	}
	pub fn nontrivial_if(&mut self, b: bool) {
		self.nontrivial |= b;
	}
}

/// A failed oracle. `sig` identifies the kind of failure for the known-findings file.
pub type Res = Result<(), String>;

pub trait Leg: Sync + Send + 'static {
	type Case: Serialize + DeserializeOwned + Debug + Clone + 'static;
	fn name(&self) -> &'static str;
	/// What a case is and when it counts as non-trivial.
	fn rule(&self) -> &'static str;
	fn cases(&self, tier: Tier) -> u64;
	fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
	fn check(&self, case: &Self::Case, ctx: &mut Ctx) -> Res;
	/// Number of shrink steps worth spending (expensive legs lower it).
	fn shrink_iters(&self) -> u32 {
		3000
	}
	/// Extra runs of each shrink candidate.
	fn shrink_tries(&self) -> u32 {
		7
	}
}

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub sub: u64,
	pub labels: BTreeMap<String, u64>,
	pub nontrivial: HashSet<u64>,
	pub samples: Vec<serde_json::Value>,
}

pub struct Failure {
	pub leg: String,
	pub case: serde_json::Value,
	pub error: String,
}

pub trait DynLeg: Sync + Send {
	fn name(&self) -> &'static str;
	fn rule(&self) -> &'static str;
	fn run(&self, env: &RunEnv) -> (Stats, Option<Failure>);
	fn replay(&self, case: &serde_json::Value) -> Res;
}

pub struct RunEnv {
	pub property: &'static str,
	pub tier: Tier,
	pub seed: u64,
	pub scratch: PathBuf,
	pub known: Vec<Known>,
	pub scale: f64,
}

#[derive(Clone, Debug)]
pub struct Known {
	pub property: String,
	pub signature: String,
}

thread_local! {
	static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"<non-string panic>".to_string()
		};
		let loc = info
			.location()
			.map(|l| format!("{}:{}", l.file(), l.line()))
			.unwrap_or_default();
		LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
	}));
}

/// Run `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	LAST_PANIC.with(|p| *p.borrow_mut() = None);
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(v) => Ok(v),
		Err(payload) => {
			// A panic of a rayon worker is resumed here, so the hook ran on
			// another thread: fall back on the payload.
			let msg = LAST_PANIC.with(|p| p.borrow_mut().take()).or_else(|| {
				payload
					.downcast_ref::<String>()
					.cloned()
					.or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
			});
			Err(msg.unwrap_or_else(|| "panic".into()))
		}
	}
}

pub fn hash_str(s: &str) -> u64 {
	// FNV: stable between runs, unlike the default hasher's keys.
	let mut h = 0xcbf29ce484222325u64;
	for b in s.bytes() {
		h ^= b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h
}

fn shard_seed(seed: u64, prop: &str, leg: &str, shard: u64) -> [u8; 32] {
	let mut out = [0u8; 32];
	let mut st = seed
		.wrapping_mul(0x9e3779b97f4a7c15)
		.wrapping_add(hash_str(prop))
		.rotate_left(17)
		.wrapping_add(hash_str(leg))
		.wrapping_add(shard.wrapping_mul(0xbf58476d1ce4e5b9));
	for chunk in out.chunks_mut(8) {
		st = st.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = st;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^= z >> 31;
		chunk.copy_from_slice(&z.to_le_bytes());
	}
	out
}

fn run_check<L: Leg>(leg: &L, case: &L::Case, ctx: &mut Ctx) -> Res {
	crate::ast::fuel_reset();
	match catch(|| leg.check(case, ctx)) {
		Ok(r) => r,
		Err(p) => Err(format!("panic: {p}")),
	}
}

impl<L: Leg> DynLeg for L {
	fn name(&self) -> &'static str {
		Leg::name(self)
	}
	fn rule(&self) -> &'static str {
		Leg::rule(self)
	}
	fn replay(&self, case: &serde_json::Value) -> Res {
		let case: L::Case =
			serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {e}"))?;
		// Map iteration order inside the code under test is random per
		// instance: try a few times.
		let tries = std::env::var("RQVERIF_TRIES")
			.ok()
			.and_then(|s| s.parse().ok())
			.unwrap_or(20);
		for _ in 0..tries {
			run_check(self, &case, &mut Ctx::default())?;
		}
		Ok(())
	}

	fn run(&self, env: &RunEnv) -> (Stats, Option<Failure>) {
		let total = ((self.cases(env.tier) as f64 * env.scale).ceil() as u64).max(SHARDS);
		let stop = Arc::new(AtomicBool::new(false));
		let results: Mutex<Vec<(u64, Stats, Option<Failure>)>> = Mutex::new(Vec::new());
		std::thread::scope(|sc| {
			for shard in 0..SHARDS {
				let stop = stop.clone();
				let results = &results;
				std::thread::Builder::new()
					.stack_size(256 << 20)
					.spawn_scoped(sc, move || {
						let r = self.run_shard(env, shard, total.div_ceil(SHARDS), &stop);
						results.lock().unwrap().push((shard, r.0, r.1));
					})
					.unwrap();
			}
		});
		let mut results = results.into_inner().unwrap();
		results.sort_by_key(|r| r.0);
		let mut stats = Stats::default();
		let mut fail: Option<Failure> = None;
		for (_, s, f) in results {
			stats.evaluations += s.evaluations;
			stats.sub += s.sub;
			for (k, v) in s.labels {
				*stats.labels.entry(k).or_default() += v;
			}
			stats.nontrivial.extend(s.nontrivial);
			if stats.samples.len() < 3 {
				stats.samples.extend(s.samples.into_iter().take(1));
			}
			if let Some(f) = f {
				let better = match &fail {
					None => true,
					Some(o) => f.case.to_string().len() < o.case.to_string().len(),
				};
				if better {
					fail = Some(f);
				}
			}
		}
		(stats, fail)
	}
}

trait RunShard {
	fn run_shard(
		&self,
		env: &RunEnv,
		shard: u64,
		cases: u64,
		stop: &AtomicBool,
	) -> (Stats, Option<Failure>);
}

impl<L: Leg> RunShard for L {
	fn run_shard(
		&self,
		env: &RunEnv,
		shard: u64,
		cases: u64,
		stop: &AtomicBool,
	) -> (Stats, Option<Failure>) {
		let journal = std::fs::OpenOptions::new()
			.create(true)
			.write(true)
			.truncate(true)
			.open(env.scratch.join(format!("{}.{}.json", Leg::name(self), shard)))
			.ok();
		let state = RefCell::new((Stats::default(), None::<String>, false));
		let config = Config {
			cases: cases.min(u32::MAX as u64) as u32,
			failure_persistence: None,
			max_shrink_iters: self.shrink_iters(),
			max_shrink_time: 45_000,
			max_global_rejects: 1 << 20,
			max_local_rejects: 1 << 20,
			..Config::default()
		};
		let rng = TestRng::from_seed(
			RngAlgorithm::ChaCha,
			&shard_seed(env.seed, env.property, Leg::name(self), shard),
		);
		let mut runner = TestRunner::new_with_rng(config, rng);
		let strat = self.strategy(env.tier);
		let out = runner.run(&strat, |case| {
			let mut st = state.borrow_mut();
			if stop.load(Ordering::Relaxed) && !st.2 {
				return Ok(());
			}
			let text = serde_json::to_string(&case).unwrap();
			if let Some(j) = &journal {
				let _ = j.set_len(text.len() as u64);
				let _ = j.write_all_at(text.as_bytes(), 0);
			}
			let mut ctx = Ctx::default();
			let mut res = run_check(self, &case, &mut ctx);
			if st.2 {
				// Shrinking: failures may depend on the random iteration order
				// of the library's hash maps, so give each candidate a chance.
				for _ in 0..self.shrink_tries() {
					if res.is_err() {
						break;
					}
					res = run_check(self, &case, &mut Ctx::default());
				}
			}
			if !st.2 {
				let s = &mut st.0;
				s.evaluations += 1;
				s.sub += ctx.sub;
				for l in ctx.labels {
					*s.labels.entry(l).or_default() += 1;
				}
				if ctx.nontrivial {
					let mut h = std::collections::hash_map::DefaultHasher::new();
					text.hash(&mut h);
					s.nontrivial.insert(h.finish());
					if s.samples.len() < 2 && text.len() < 3000 {
						s.samples.push(parse_json(&text).unwrap());
					}
				}
			}
			match res {
				Ok(()) => Ok(()),
				Err(e) => {
					if let Some(k) = env.known.iter().find(|k| {
						k.property == env.property && e.contains(k.signature.as_str())
					}) {
						if !st.2 {
							*st.0
								.labels
								.entry(format!("known-finding:{}", k.signature))
								.or_default() += 1;
						}
						return Ok(());
					}
					st.2 = true;
					stop.store(true, Ordering::Relaxed);
					st.1 = Some(e.clone());
					Err(TestCaseError::fail(e))
				}
			}
		});
		let (stats, last, _) = state.into_inner();
		if let Some(j) = journal {
			let _ = j.set_len(0);
		}
		let fail = match out {
			Ok(()) => None,
			Err(TestError::Fail(reason, case)) => Some(Failure {
				leg: Leg::name(self).to_string(),
				case: serde_json::to_value(&case).unwrap(),
				error: {
					let r = reason.message().to_string();
					if r.is_empty() {
						last.unwrap_or_default()
					} else {
						r
					}
				},
			}),
			Err(TestError::Abort(r)) => {
				eprintln!("harness error: generator gave up: {}", r.message());
				std::process::exit(3);
			}
		};
		(stats, fail)
	}
}

pub struct Property {
	pub id: &'static str,
	pub legs: Vec<Box<dyn DynLeg>>,
	pub assumptions: &'static [&'static str],
}

pub fn verif_dir() -> PathBuf {
	std::env::var_os("RQVERIF_DIR")
		.map(PathBuf::from)
		.unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn load_known() -> Vec<Known> {
	let mut out = Vec::new();
	if let Ok(text) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
		for line in text.lines() {
			let line = line.trim();
			if let Some(rest) = line.strip_prefix("known: property=") {
				let mut it = rest.splitn(2, ' ');
				let property = it.next().unwrap_or("").to_string();
				let rest = it.next().unwrap_or("");
				if let Some(sig) = rest
					.strip_prefix("signature=\"")
					.and_then(|r| r.split('"').next())
				{
					out.push(Known {
						property,
						signature: sig.to_string(),
					});
				}
			}
		}
	}
	out
}

pub fn write_replay(prop: &str, f: &Failure) -> PathBuf {
	let dir = verif_dir().join("replays");
	let _ = std::fs::create_dir_all(&dir);
	let v = serde_json::json!({
		"property": prop, "leg": f.leg, "case": f.case, "error": f.error,
	});
	let text = serde_json::to_string_pretty(&v).unwrap();
	let path = dir.join(format!("{}-{}-{:08x}.json", prop, f.leg, hash_str(&text) as u32));
	let _ = std::fs::write(&path, text);
	path
}

/// Body of a worker process: run every leg, write the evidence, print the verdict.
pub fn worker(prop: &Property, tier: Tier, seed: u64, scratch: &Path) -> i32 {
	let start = Instant::now();
	let env = RunEnv {
		property: prop.id,
		tier,
		seed,
		scratch: scratch.to_path_buf(),
		known: load_known(),
		scale: std::env::var("RQVERIF_SCALE")
			.ok()
			.and_then(|s| s.parse().ok())
			.unwrap_or(1.0),
	};
	let mut legs_json = serde_json::Map::new();
	let mut evaluations = 0;
	let mut nontrivial = 0u64;
	let mut samples = Vec::new();
	let mut rule = String::new();
	let mut failure = None;
	let only = std::env::var("RQVERIF_LEG").ok();
	let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
	for leg in prop.legs.iter() {
		if only.as_deref().is_some_and(|o| o != leg.name()) {
			continue;
		}
		let t = Instant::now();
		let (stats, fail) = leg.run(&env);
		evaluations += stats.evaluations;
		nontrivial += stats.nontrivial.len() as u64;
		for s in stats.samples.iter().take(2) {
			samples.push(serde_json::json!({"leg": leg.name(), "case": s}));
		}
		rule.push_str(&format!("[{}] {} ", leg.name(), leg.rule()));
		for (k, v) in stats.labels.iter() {
			if let Some(s) = k.strip_prefix("known-finding:") {
				*known_hits.entry(s.to_string()).or_default() += v;
			}
		}
		legs_json.insert(
			leg.name().to_string(),
			serde_json::json!({
				"evaluations": stats.evaluations,
				"distinct_nontrivial": stats.nontrivial.len(),
				"oracle_comparisons": stats.sub,
				"classes": stats.labels,
				"wall_s": t.elapsed().as_secs_f64(),
			}),
		);
		if fail.is_some() {
			failure = fail;
			break;
		}
	}
	let ev = serde_json::json!({
		"property": prop.id,
		"tier": tier.name(),
		"seed": seed,
		"level": "exploration",
		"coverage": {
			"evaluations": evaluations,
			"distinct_nontrivial": nontrivial,
			"rule": rule.trim(),
			"samples": samples,
			"legs": legs_json,
		},
		"assumptions": prop.assumptions,
		"wall_s": start.elapsed().as_secs_f64(),
		"violations": if failure.is_some() { 1 } else { 0 },
	});
	let dir = verif_dir().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	if let Err(e) = std::fs::write(
		dir.join(format!("{}.json", prop.id)),
		serde_json::to_string_pretty(&ev).unwrap(),
	) {
		eprintln!("cannot write evidence: {e}");
		return 3;
	}
	for k in env.known.iter().filter(|k| k.property == prop.id) {
		println!(
			"KNOWN-FINDING: property={} {} (met {} times in this run)",
			prop.id,
			k.signature,
			known_hits.get(&k.signature).copied().unwrap_or(0)
		);
	}
	match failure {
		None => {
			println!(
				"OK property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
				prop.id,
				tier.name(),
				seed,
				evaluations,
				nontrivial,
				start.elapsed().as_secs_f64()
			);
			0
		}
		Some(f) => {
			let path = write_replay(prop.id, &f);
			println!("{}: {}", f.leg, f.error);
			println!("VIOLATION property={} replay={}", prop.id, path.display());
			1
		}
	}
}

pub enum Ended {
	Status(std::process::ExitStatus),
	Limit,
	/// The case written in this journal has been under way for too long.
	Hung(PathBuf),
}

/// One case takes milliseconds; the longest take a few seconds.
const HANG: Duration = Duration::from_secs(120);

/// Spawn `self` with `args`; it is killed if it runs over the limit, or if
/// one of the journals in `watch` does not move any more.
pub fn spawn_self(args: &[String], limit: Duration, quiet: bool, watch: Option<&Path>) -> Ended {
	let exe = std::env::current_exe().unwrap();
	let mut cmd = std::process::Command::new(exe);
	cmd.args(args);
	if quiet {
		cmd.env("RQVERIF_TRIES", "3")
			.stdout(std::process::Stdio::null())
			.stderr(std::process::Stdio::null());
	}
	let mut child = cmd.spawn().unwrap();
	let start = Instant::now();
	let mut looked = Instant::now();
	let mut stuck: BTreeMap<PathBuf, (std::time::SystemTime, Instant)> = BTreeMap::new();
	loop {
		if let Some(st) = child.try_wait().unwrap() {
			return Ended::Status(st);
		}
		let mut over = (start.elapsed() > limit).then_some(Ended::Limit);
		if let (Some(dir), true) = (watch, looked.elapsed() > Duration::from_secs(5)) {
			let gap = looked.elapsed();
			looked = Instant::now();
			if gap > Duration::from_secs(20) {
				// This process was paused itself: start over.
				stuck.clear();
			}
			for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
				let Ok(m) = e.metadata() else { continue };
				let Ok(t) = m.modified() else { continue };
				if m.len() == 0 {
					stuck.remove(&e.path());
					continue;
				}
				let entry = stuck.entry(e.path()).or_insert((t, Instant::now()));
				if entry.0 != t {
					*entry = (t, Instant::now());
				} else if entry.1.elapsed() > HANG {
					over = Some(Ended::Hung(e.path()));
				}
			}
		}
		if let Some(over) = over {
			let _ = child.kill();
			let _ = child.wait();
			return over;
		}
		std::thread::sleep(Duration::from_millis(10));
	}
}

pub fn parent(prop: &Property, tier: Tier, seed: u64) -> i32 {
	use std::os::unix::process::ExitStatusExt;
	let scratch = std::env::temp_dir().join(format!("rqverif-{}-{}", prop.id, std::process::id()));
	let _ = std::fs::create_dir_all(&scratch);
	let limit = Duration::from_secs(tier.pick(700, 6 * 3600));
	let st = spawn_self(
		&[
			"worker".into(),
			prop.id.into(),
			tier.name().into(),
			seed.to_string(),
			scratch.display().to_string(),
		],
		limit,
		false,
		Some(&scratch),
	);
	let code = match st {
		Ended::Limit => {
			println!("INCONCLUSIVE property={}: time limit of the harness", prop.id);
			2
		}
		Ended::Hung(journal) => hung(prop, &scratch, &journal),
		Ended::Status(st) => match (st.code(), st.signal()) {
			(Some(c), _) => c,
			(None, Some(9)) => {
				println!("INCONCLUSIVE property={}: worker was killed (memory?)", prop.id);
				2
			}
			(None, sig) => crashed(prop, &scratch, sig.unwrap_or(0)),
		},
	};
	let _ = std::fs::remove_dir_all(&scratch);
	let _ = std::io::stdout().flush();
	code
}

/// The worker died of a signal: find the case that does it.
fn crashed(prop: &Property, scratch: &Path, sig: i32) -> i32 {
	let mut found: Option<Failure> = None;
	let mut fallback: Option<Failure> = None;
	let mut files: Vec<_> = std::fs::read_dir(scratch)
		.map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
		.unwrap_or_default();
	files.sort();
	for p in files {
		let name = p.file_name().unwrap().to_string_lossy().to_string();
		let leg = name.split('.').next().unwrap().to_string();
		let Ok(text) = std::fs::read_to_string(&p) else {
			continue;
		};
		let Ok(case) = parse_json(&text) else {
			continue;
		};
		let f = Failure {
			leg,
			case,
			error: format!("the process was killed by signal {sig} (abort or invalid memory access) while running this case"),
		};
		use std::os::unix::process::ExitStatusExt;
		if let Ended::Status(st) = probe(prop, scratch, &f) {
			if st.signal().is_none() && st.code() != Some(1) {
				fallback.get_or_insert(f);
				continue;
			}
			found = Some(f);
			break;
		}
		fallback.get_or_insert(f);
	}
	match found.or(fallback) {
		Some(f) => report(prop, f),
		None => {
			println!("harness error: worker died of signal {sig} with no case under way");
			3
		}
	}
}

fn probe(prop: &Property, scratch: &Path, f: &Failure) -> Ended {
	let tmp = scratch.join("probe.replay");
	let _ = std::fs::write(
		&tmp,
		serde_json::json!({"property": prop.id, "leg": f.leg, "case": f.case}).to_string(),
	);
	spawn_self(
		&["replay".into(), tmp.display().to_string()],
		Duration::from_secs(60),
		true,
		None,
	)
}

/// A case has not ended for `HANG`: does it end when run alone?
fn hung(prop: &Property, scratch: &Path, journal: &Path) -> i32 {
	let leg = journal.file_name().unwrap().to_string_lossy().to_string();
	let leg = leg.split('.').next().unwrap().to_string();
	let case = std::fs::read_to_string(journal)
		.ok()
		.and_then(|t| parse_json(&t).ok());
	let Some(case) = case else {
		println!("INCONCLUSIVE property={}: no progress", prop.id);
		return 2;
	};
	let f = Failure {
		leg,
		case,
		error: format!(
			"no answer: this case ran for {} s, and for 60 s again alone, where it should take less than a second",
			HANG.as_secs()
		),
	};
	match probe(prop, scratch, &f) {
		Ended::Status(st) if st.code() == Some(0) => {
			println!("INCONCLUSIVE property={}: a case was slow, but ends alone", prop.id);
			2
		}
		_ => report(prop, f),
	}
}

fn report(prop: &Property, f: Failure) -> i32 {
	let path = write_replay(prop.id, &f);
	let ev = serde_json::json!({
		"property": prop.id,
		"tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
		"seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
		"level": "exploration",
		"coverage": {"evaluations": 1, "distinct_nontrivial": 0,
			"rule": "the worker process died or hung; only the case that does it is counted",
			"samples": [f.case]},
		"wall_s": 0.0, "violations": 1,
	});
	let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
	let _ = std::fs::write(
		verif_dir().join("evidence").join(format!("{}.json", prop.id)),
		ev.to_string(),
	);
	println!("{}: {}", f.leg, f.error);
	println!("VIOLATION property={} replay={}", prop.id, path.display());
	1
}
