//! Runs plans in forked processes, searches over them with several workers, minimises what fails.
use std::collections::HashSet;

use crate::heap;
use crate::json::J;
use crate::plan::Plan;
use crate::prng::{hash_bytes, FNV};
use crate::refs::{self, expectations, in_process, new_shared, Fail, Refs};
use crate::rt::{self, Config, Shared, Style, FNAMES, MAXDEC, PNAMES};
use crate::world::{self, Expect, World};

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
	Held,
	Violation(String),
	/// The plan could not be judged (a call does not finish alone, say).
	Skipped(String),
	Broken(String),
}
#[derive(Clone, Debug)]
pub struct Outcome {
	pub verdict: Verdict,
	pub op: u32,
	pub steps: u64,
	pub switches: u64,
	pub sched: u64,
	pub events: u64,
	pub ops: u64,
	pub sim_ns: u64,
	pub live: i64,
	pub fired: [u32; rt::NFIRED],
	pub probes: [u32; rt::NFIRED],
	pub decisions: Vec<rt::Dec>,
}

fn thread_names() -> [Option<String>; 6] {
	[None, Some("main".into()), Some("worker-1".into()), Some(String::new()), Some("tokio-runtime-worker".into()), Some("ThreadId(1)".into())]
}

pub fn run(sh: *mut Shared, plan: &Plan, exp: Vec<Expect>, seconds: i64) -> Outcome {
	let p = plan.clone();
	let (st, s) = in_process(sh, seconds, move || {
		let plan: &'static Plan = Box::leak(Box::new(p));
		heap::start(plan.heap, plan.seed ^ plan.idx.wrapping_mul(77));
		let limit = refs::limit(plan, &exp);
		let w = Box::leak(Box::new(World::new(plan, exp, false)));
		unsafe { world::W = w };
		world::set_level(plan.level);
		let names = thread_names();
		let c = Config {
			actors: plan.actors,
			seed: hash_bytes(FNV ^ plan.seed, &plan.idx.to_le_bytes()),
			style: plan.style.clone(),
			decisions: plan.decisions.clone(),
			nops: plan.ops.len(),
			limit,
			deps_met: world::deps_met,
			strict_stall: plan.strict_stall,
			clock_mode: plan.clock_mode,
			env_mode: plan.env_mode,
			spurious: plan.spurious,
			stacks: plan.stacks.clone(),
			names: if plan.names { (0..plan.actors).map(|a| names[(a + plan.idx as usize) % names.len()].clone()).collect() } else { vec![] },
		};
		rt::install(&c);
		rt::run_actors(&c, world::body);
		world::finish();
		rt::finish_counters();
		rt::sh().status = 1;
	});
	let verdict = if st != 0 {
		let sig = st & 0x7f;
		if sig == 9 || sig == 15 {
			Verdict::Broken(format!("the run was killed from outside (signal {sig})"))
		} else if sig != 0 {
			Verdict::Violation(format!("the process was killed by signal {sig} during operation {}", s.op))
		} else {
			Verdict::Broken(format!("exit status {}", st >> 8))
		}
	} else {
		match s.status {
			1 => Verdict::Held,
			2 => Verdict::Violation(s.message()),
			4 => Verdict::Broken(s.message()),
			x => Verdict::Broken(format!("the process ended early (status {x})")),
		}
	};
	let n = (s.ndec as usize).min(MAXDEC);
	Outcome {
		verdict,
		op: s.op,
		steps: s.steps,
		switches: s.switches,
		sched: s.sched_hash,
		events: s.event_hash,
		ops: s.ops_done,
		sim_ns: s.sim_ns,
		live: s.live,
		fired: s.fired,
		probes: s.probes,
		decisions: s.dec[..n].to_vec(),
	}
}
fn not_run(v: Verdict) -> Outcome {
	Outcome { verdict: v, op: 0, steps: 0, switches: 0, sched: 0, events: 0, ops: 0, sim_ns: 0, live: 0, fired: [0; rt::NFIRED], probes: [0; rt::NFIRED], decisions: vec![] }
}

/// Settle and run a plan. Fault positions are settled in place.
pub fn judge(refs: &mut Refs, sh: *mut Shared, plan: &mut Plan, resolve: bool) -> Outcome {
	match expectations(refs, plan, resolve) {
		Ok(e) => {
			let secs = 45;
			let o = run(sh, plan, e, secs);
			if matches!(&o.verdict, Verdict::Violation(m) if m.contains("step budget")) && slow_cut(refs, plan, &o) {
				return not_run(Verdict::Skipped("a part of a text takes too long alone".into()));
			}
			o
		}
		Err(Fail::Harness(m)) => not_run(Verdict::Broken(m)),
		Err(f) => not_run(Verdict::Skipped(format!("{f:?}"))),
	}
}

/// Parts of texts are not timed beforehand: was it one of them that took so long, as it does alone?
fn slow_cut(refs: &mut Refs, p: &Plan, o: &Outcome) -> bool {
	use crate::plan::K;
	let Some(op) = p.ops.get(o.op as usize) else { return false };
	match op.k {
		K::Cut => {
			let t = &p.texts[p.texts_at()[o.op as usize]];
			let mut k = (op.n as usize).min(t.len());
			while !t.is_char_boundary(k) {
				k -= 1;
			}
			match refs.call(K::Tokens, 0, &t[..k], 0) {
				Ok(s) => s.steps > 10_000_000,
				Err(_) => true,
			}
		}
		K::Resume | K::RdPump | K::RdEnd => true,
		_ => false,
	}
}

pub fn runs(prop: &str, thorough: bool) -> u64 {
	let q = match prop {
		"C01" => 1300,
		"C02" => 4300,
		"C03" => 4000,
		"C04" => 4000,
		"C05" => 2000,
		"C06" => 4300,
		"C07" => 1600,
		"C10" => 1300,
		"C11" => 6000,
		"C12" => 560,
		"C13" => 900,
		"C14" => 32,
		_ => 1000,
	};
	if thorough {
		q * 12
	} else {
		q
	}
}

#[derive(Default)]
pub struct Agg {
	pub runs: u64,
	pub skipped: u64,
	pub broken: Vec<String>,
	pub steps: u64,
	pub switches: u64,
	pub ops: u64,
	pub sim_ns: u64,
	pub fired: Vec<u64>,
	pub runs_with: Vec<u64>,
	pub probes: Vec<u64>,
	pub scheds: HashSet<u64>,
	pub execs: HashSet<u64>,
	pub rechecked: u64,
	pub nondet: u64,
	pub ref_processes: u64,
	pub ref_hits: u64,
	pub cov: HashSet<u64>,
	pub pairs: HashSet<u64>,
	pub samples: Vec<String>,
	pub skip_reasons: Vec<String>,
	pub violation: Option<u64>,
	pub styles: Vec<u64>,
}
const STYLES: [&str; 6] = ["random_distances", "rare_blocks_and_atomics", "priorities_with_change_points", "between_calls_only", "one_caller_suspended", "meeting_points"];

impl Agg {
	fn new() -> Agg {
		Agg { fired: vec![0; FNAMES.len()], runs_with: vec![0; FNAMES.len()], probes: vec![0; PNAMES.len()], styles: vec![0; 6], ..Agg::default() }
	}
	fn add(&mut self, p: &Plan, o: &Outcome) {
		self.runs += 1;
		self.steps += o.steps;
		self.switches += o.switches;
		self.ops += o.ops;
		self.sim_ns += o.sim_ns.saturating_sub(1_700_000_000_000_000_000).min(u64::MAX / 100_000);
		let mut faults = 0;
		for i in 0..FNAMES.len() {
			self.fired[i] += u64::from(o.fired[i]);
			self.runs_with[i] += u64::from(o.fired[i] > 0);
			faults += o.fired[i];
		}
		for i in 0..PNAMES.len() {
			self.probes[i] += u64::from(o.probes[i]);
		}
		self.styles[match p.style {
			Style::Random { .. } => 0,
			Style::Rare { .. } => 1,
			Style::Pct { .. } => 2,
			Style::OpGrain | Style::Replay => 3,
			Style::Stall { .. } => 4,
			Style::Hot { .. } => 5,
		}] += 1;
		let e = hash_bytes(hash_bytes(FNV, &o.sched.to_le_bytes()), &o.events.to_le_bytes());
		if o.probes[rt::P_SWITCH_IN_LIB] > 0 || faults > 0 || o.ops >= 6 {
			self.execs.insert(e);
		}
		if o.switches > 1 {
			self.scheds.insert(o.sched);
		}
		if self.samples.len() < 2 && o.ops > 2 {
			self.samples.push(summary(p, o));
		}
	}
	fn to_json(&self) -> J {
		let nums = |v: &[u64]| J::Arr(v.iter().map(|x| J::Int(*x as i64)).collect());
		let set = |v: &HashSet<u64>| J::Str(v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
		J::obj(vec![
			("runs", J::Int(self.runs as i64)),
			("skipped", J::Int(self.skipped as i64)),
			("broken", J::Arr(self.broken.iter().map(J::s).collect())),
			("steps", J::Int(self.steps as i64)),
			("switches", J::Int(self.switches as i64)),
			("ops", J::Int(self.ops as i64)),
			("sim_ns", J::Int(self.sim_ns as i64)),
			("fired", nums(&self.fired)),
			("runs_with", nums(&self.runs_with)),
			("probes", nums(&self.probes)),
			("styles", nums(&self.styles)),
			("scheds", set(&self.scheds)),
			("execs", set(&self.execs)),
			("cov", set(&self.cov)),
			("pairs", set(&self.pairs)),
			("rechecked", J::Int(self.rechecked as i64)),
			("nondet", J::Int(self.nondet as i64)),
			("ref_processes", J::Int(self.ref_processes as i64)),
			("ref_hits", J::Int(self.ref_hits as i64)),
			("samples", J::Arr(self.samples.iter().map(J::s).collect())),
			("skip_reasons", J::Arr(self.skip_reasons.iter().map(J::s).collect())),
			("violation", J::Int(self.violation.map_or(-1, |x| x as i64))),
		])
	}
	fn merge(&mut self, j: &J) {
		let set = |n: &str| j.str(n).split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect::<Vec<_>>();
		self.runs += j.int("runs") as u64;
		self.skipped += j.int("skipped") as u64;
		self.broken.extend(j.arr("broken").iter().map(|x| x.as_str().to_string()));
		self.steps += j.int("steps") as u64;
		self.switches += j.int("switches") as u64;
		self.ops += j.int("ops") as u64;
		self.sim_ns = self.sim_ns.saturating_add(j.int("sim_ns") as u64);
		for (n, v) in [("fired", &mut self.fired), ("runs_with", &mut self.runs_with), ("probes", &mut self.probes), ("styles", &mut self.styles)] {
			for (a, b) in v.iter_mut().zip(j.arr(n)) {
				*a += b.as_int() as u64;
			}
		}
		self.scheds.extend(set("scheds"));
		self.execs.extend(set("execs"));
		self.cov.extend(set("cov"));
		self.pairs.extend(set("pairs"));
		self.rechecked += j.int("rechecked") as u64;
		self.nondet += j.int("nondet") as u64;
		self.ref_processes += j.int("ref_processes") as u64;
		self.ref_hits += j.int("ref_hits") as u64;
		self.samples.extend(j.arr("samples").iter().map(|x| x.as_str().to_string()));
		self.skip_reasons.extend(j.arr("skip_reasons").iter().map(|x| x.as_str().to_string()));
		let v = j.int("violation");
		if v >= 0 {
			self.violation = Some(self.violation.map_or(v as u64, |x| x.min(v as u64)));
		}
	}
}
fn short(s: &str) -> String {
	if s.chars().count() > 60 {
		format!("{}... ({} bytes)", s.chars().take(60).collect::<String>(), s.len())
	} else {
		s.to_string()
	}
}
pub fn summary(p: &Plan, o: &Outcome) -> String {
	let mut kinds: Vec<String> = vec![];
	for op in &p.ops {
		let s = format!("{}@{}{}{}", op.k.name(), op.a, if op.rep > 1 { format!("x{}", op.rep) } else { String::new() }, op.fault.map_or(String::new(), |f| format!("!{:?}#{}", f.kind, f.k)));
		kinds.push(s);
	}
	if kinds.len() > 24 {
		kinds.truncate(24);
		kinds.push("...".into());
	}
	format!(
		"run {}: {} thread(s), {:?}, log level {}, heap {:?}; texts {:?}; operations {}; {} steps, {} switches, schedule {:016x}, events {:016x}",
		p.idx,
		p.actors,
		p.style,
		p.level,
		p.heap,
		p.texts.iter().map(|t| short(t)).collect::<Vec<_>>(),
		kinds.join(" "),
		o.steps,
		o.switches,
		o.sched,
		o.events
	)
}

pub struct Search {
	pub agg: Agg,
	pub wall: f64,
	pub planned: u64,
	pub stopped: bool,
	pub workers: usize,
}

/// Shared between workers: the lowest violating index so far.
static mut LOWEST: *mut u64 = std::ptr::null_mut();

pub fn search(prop: &str, seed: u64, thorough: bool, total: u64, workers: usize, cap: f64) -> Search {
	let start = rt::raw::monotonic();
	unsafe {
		LOWEST = rt::raw::mmap_shared(4096) as *mut u64;
		*LOWEST = u64::MAX;
	}
	let dir = std::env::temp_dir().join(format!("snsim-{}", std::process::id()));
	std::fs::create_dir_all(&dir).unwrap();
	let mut pids = vec![];
	for k in 0..workers {
		let pid = rt::raw::fork();
		if pid == 0 {
			let mut refs = Refs::new();
			let sh = new_shared();
			let mut agg = Agg::new();
			let mut i = k as u64;
			while i < total {
				if rt::raw::monotonic() - start > cap || unsafe { std::ptr::read_volatile(LOWEST) } < i {
					break;
				}
				let mut p = crate::gen::gen(prop, seed, i, thorough);
				let o = judge(&mut refs, sh, &mut p, true);
				match &o.verdict {
					Verdict::Held => {
						agg.add(&p, &o);
						if i % 97 < 8 {
							// one seed is one execution: run it again and compare
							let o2 = judge(&mut refs, sh, &mut p, false);
							agg.rechecked += 1;
							if (o2.steps, o2.sched, o2.events, o2.live) != (o.steps, o.sched, o.events, o.live) {
								agg.nondet += 1;
								agg.broken.push(format!("run {i} is not repeatable: steps {} {}, schedule {:x} {:x}, events {:x} {:x}", o.steps, o2.steps, o.sched, o2.sched, o.events, o2.events));
							}
						}
					}
					Verdict::Skipped(m) => {
						agg.skipped += 1;
						if agg.skip_reasons.len() < 3 {
							agg.skip_reasons.push(m.clone());
						}
					}
					Verdict::Violation(_) => {
						agg.add(&p, &o);
						agg.violation = Some(i);
						unsafe {
							let cur = std::ptr::read_volatile(LOWEST);
							if i < cur {
								std::ptr::write_volatile(LOWEST, i);
							}
						}
						break;
					}
					Verdict::Broken(m) => {
						if agg.broken.len() < 5 {
							agg.broken.push(format!("run {i}: {m}"));
						}
					}
				}
				i += workers as u64;
			}
			let s = unsafe { &*sh };
			agg.cov = (0..s.cov.len()).filter(|i| s.cov[*i] != 0).map(|i| i as u64).collect();
			agg.pairs = (0..s.pairs.len()).filter(|i| s.pairs[*i] != 0).map(|i| i as u64).collect();
			agg.ref_processes = refs.processes;
			agg.ref_hits = refs.hits;
			std::fs::write(dir.join(format!("{k}.json")), agg.to_json().render()).unwrap();
			rt::raw::exit(0);
		}
		pids.push(pid);
	}
	let mut agg = Agg::new();
	for (k, p) in pids.into_iter().enumerate() {
		let (_, st) = rt::raw::wait(p, false);
		let f = dir.join(format!("{k}.json"));
		match std::fs::read_to_string(&f).ok().and_then(|s| J::parse(&s)) {
			Some(j) => agg.merge(&j),
			None => agg.broken.push(format!("worker {k} died (status {st})")),
		}
	}
	std::fs::remove_dir_all(&dir).ok();
	let wall = rt::raw::monotonic() - start;
	let stopped = agg.violation.is_none() && agg.runs + agg.skipped + (agg.broken.len() as u64) < total && wall >= cap;
	Search { agg, wall, planned: total, stopped, workers }
}

// ---------------------------------------------------------------- minimising

pub struct Min {
	refs: Refs,
	sh: *mut Shared,
	pub trials: u32,
	deadline: f64,
}
impl Min {
	pub fn new(seconds: f64) -> Min {
		Min { refs: Refs::new(), sh: new_shared(), trials: 0, deadline: rt::raw::monotonic() + seconds }
	}
	pub fn judge(&mut self, p: &mut Plan, resolve: bool) -> Outcome {
		self.trials += 1;
		judge(&mut self.refs, self.sh, p, resolve)
	}
	fn late(&self) -> bool {
		rt::raw::monotonic() > self.deadline
	}
	fn fails(&mut self, p: &Plan) -> Option<Outcome> {
		let mut q = p.clone();
		let o = self.judge(&mut q, false);
		matches!(o.verdict, Verdict::Violation(_)).then_some(o)
	}
	/// Fix the schedule as the recorded decisions.
	fn pin(&mut self, p: &Plan, o: &Outcome) -> Option<Plan> {
		let mut q = p.clone();
		q.style = Style::Replay;
		q.decisions = o.decisions.clone();
		self.fails(&q).map(|_| q)
	}
	pub fn minimise(&mut self, p: Plan) -> Plan {
		let mut best = p;
		// simplest schedules first
		for style in [Style::OpGrain, Style::Replay] {
			let mut q = best.clone();
			q.decisions.clear();
			q.style = style;
			if self.fails(&q).is_some() {
				best = q;
				break;
			}
		}
		if best.style != Style::Replay {
			if let Some(o) = self.fails(&best) {
				if let Some(q) = self.pin(&best, &o) {
					best = q;
				}
			}
		}
		loop {
			let before = size(&best);
			self.ops(&mut best);
			self.decisions(&mut best);
			self.simplify(&mut best);
			self.texts(&mut best);
			if size(&best) >= before || self.late() {
				break;
			}
		}
		tidy(&mut best);
		best
	}
	fn try_take(&mut self, best: &mut Plan, q: Plan) -> bool {
		if self.late() {
			return false;
		}
		if let Some(o) = self.fails(&q) {
			*best = q;
			// drop decisions that no longer happened
			if best.style == Style::Replay && o.decisions.len() < best.decisions.len() {
				if let Some(r) = self.pin(best, &o) {
					*best = r;
				}
			}
			true
		} else {
			false
		}
	}
	fn ops(&mut self, best: &mut Plan) {
		let mut chunk = best.ops.len().div_ceil(2);
		while chunk > 0 {
			let mut a = 0;
			while a < best.ops.len() && !self.late() {
				let b = (a + chunk).min(best.ops.len());
				let mut q = best.clone();
				remove_ops(&mut q, a, b);
				if q.ops.is_empty() || !self.try_take(best, q) {
					a = b;
				}
			}
			if chunk == 1 {
				break;
			}
			chunk /= 2;
		}
	}
	fn decisions(&mut self, best: &mut Plan) {
		if best.style != Style::Replay {
			return;
		}
		let mut chunk = best.decisions.len().div_ceil(2);
		while chunk > 0 {
			let mut a = 0;
			while a < best.decisions.len() && !self.late() {
				let b = (a + chunk).min(best.decisions.len());
				let mut q = best.clone();
				q.decisions.drain(a..b);
				if !self.try_take(best, q) {
					a = b;
				}
			}
			if chunk == 1 {
				break;
			}
			chunk /= 2;
		}
	}
	fn simplify(&mut self, best: &mut Plan) {
		for i in 0..best.ops.len() {
			if i >= best.ops.len() {
				break;
			}
			if best.ops[i].fault.is_some() {
				let mut q = best.clone();
				q.ops[i].fault = None;
				self.try_take(best, q);
			}
			let r = best.ops[i].rep;
			if r > 1 {
				for n in [1, 2, r / 2, r - 1] {
					if n >= 1 && n < best.ops[i].rep {
						let mut q = best.clone();
						q.ops[i].rep = n;
						if self.try_take(best, q) {
							break;
						}
					}
				}
			}
			if matches!(best.ops[i].k, crate::plan::K::Bulk | crate::plan::K::Fill) && best.ops[i].n > 1 {
				for n in [best.ops[i].n / 8, best.ops[i].n / 2] {
					let mut q = best.clone();
					q.ops[i].n = n.max(1);
					if q.ops[i].n < best.ops[i].n && self.try_take(best, q) {
						break;
					}
				}
			}
			// everything on one thread
			if best.ops[i].a != 0 {
				let mut q = best.clone();
				q.ops[i].a = 0;
				self.try_take(best, q);
			}
		}
		let mut tries: Vec<Box<dyn Fn(&mut Plan)>> = vec![];
		tries.push(Box::new(|q| q.heap = heap::Policy::CANON));
		tries.push(Box::new(|q| q.level = 0));
		tries.push(Box::new(|q| q.clock_mode = 0));
		tries.push(Box::new(|q| q.env_mode = 0));
		tries.push(Box::new(|q| q.spurious = 0));
		tries.push(Box::new(|q| q.names = false));
		tries.push(Box::new(|q| q.stacks.clear()));
		tries.push(Box::new(|q| q.bufs.iter_mut().for_each(|b| (b.off, b.junk) = (0, 0))));
		tries.push(Box::new(|q| q.bufs.iter_mut().for_each(|b| b.edge = 0)));
		tries.push(Box::new(|q| q.token_edges = false));
		for f in tries {
			let mut q = best.clone();
			f(&mut q);
			if q != *best {
				self.try_take(best, q);
			}
		}
	}
	fn texts(&mut self, best: &mut Plan) {
		for t in 0..best.texts.len() {
			let mut chunk = pieces_of(&best.texts[t]).len().div_ceil(2);
			while chunk > 0 {
				let mut a = 0;
				while a < pieces_of(&best.texts[t]).len() && !self.late() {
					let v = pieces_of(&best.texts[t]);
					let b = (a + chunk).min(v.len());
					let s: String = v[..a].iter().chain(&v[b..]).cloned().collect();
					let mut q = best.clone();
					q.texts[t] = s;
					if !self.try_take(best, q) {
						a = b;
					}
				}
				if chunk == 1 {
					break;
				}
				chunk /= 2;
			}
		}
	}
}
fn size(p: &Plan) -> usize {
	p.ops.len() * 10 + p.decisions.len() * 4 + p.texts.iter().map(String::len).sum::<usize>() + p.ops.iter().filter(|o| o.fault.is_some()).count() * 5 + p.ops.iter().map(|o| o.rep as usize).sum::<usize>()
}
fn pieces_of(t: &str) -> Vec<String> {
	let mut v: Vec<String> = vec![];
	let mut cur = String::new();
	for c in t.chars() {
		cur.push(c);
		if crate::text::is_sep(c) {
			v.push(std::mem::take(&mut cur));
		}
	}
	if !cur.is_empty() {
		v.push(cur);
	}
	v
}
/// Remove operations and everything that cannot stand without them.
fn remove_ops(p: &mut Plan, a: usize, b: usize) {
	use crate::plan::K;
	let mut keep: Vec<bool> = (0..p.ops.len()).map(|i| i < a || i >= b).collect();
	// operations whose stream, arena, tree or reader is never made go too
	let mut made: HashSet<usize> = HashSet::new();
	for i in 0..p.ops.len() {
		if !keep[i] {
			continue;
		}
		let o = &p.ops[i];
		let need = match o.k {
			K::DecNew | K::LexNew | K::ArenaNew | K::RdNew => {
				made.insert(o.s);
				continue;
			}
			K::Words | K::Tokens | K::Class | K::Full | K::BufSet | K::Level | K::Cut | K::Resume | K::Bulk | K::Cycle | K::Measure => continue,
			_ => o.s,
		};
		if !made.contains(&need) {
			keep[i] = false;
			continue;
		}
		if matches!(o.k, K::DecClone | K::Parse) {
			made.insert(o.s2);
		}
	}
	let mut map = vec![u32::MAX; p.ops.len()];
	let mut n = 0;
	for i in 0..keep.len() {
		if keep[i] {
			map[i] = n;
			n += 1;
		}
	}
	let mut k = keep.iter();
	p.ops.retain(|_| *k.next().unwrap());
	p.decisions.retain_mut(|d| {
		if d.op >= rt::OP_FINISH {
			return true;
		}
		let m = map.get(d.op as usize).copied().unwrap_or(u32::MAX);
		d.op = m;
		m != u32::MAX
	});
}
/// Drop texts and buffers that nothing refers to (contents only: indices stay).
fn tidy(p: &mut Plan) {
	use crate::plan::K;
	let mut used: HashSet<usize> = HashSet::new();
	for o in &p.ops {
		if o.k == K::BufSet {
			used.insert(o.n as usize);
		}
		if !matches!(o.k, K::Bulk) {
			if let Some(b) = p.bufs.get(o.b) {
				used.insert(b.text);
			}
		}
		if let Some(f) = o.fault {
			if let Some(b) = p.bufs.get(f.b) {
				used.insert(b.text);
			}
		}
	}
	for i in 0..p.texts.len() {
		if !used.contains(&i) {
			p.texts[i].clear();
		}
	}
}

// ---------------------------------------------------------------- evidence

pub fn evidence(prop: &str, seed: u64, thorough: bool, s: &Search, violations: i64, extra: Vec<(&str, J)>) -> J {
	let a = &s.agg;
	let i = |x: u64| J::Int(x as i64);
	let named = |n: &[&str], v: &[u64]| J::Obj(n.iter().zip(v).filter(|(_, v)| **v > 0).map(|(n, v)| ((*n).to_string(), i(*v))).collect());
	let mut cov = vec![
		("evaluations", i(a.runs)),
		("distinct_nontrivial", i(a.execs.len() as u64)),
		(
			"rule",
			J::s("One case is one simulated execution: a plan (threads, operations, texts, faults, memory policy, scheduling style) drawn from (VERIF_SEED, property, run index). It is non-trivial if a fault was delivered, or threads were switched inside a library call, or at least six operations were judged; distinct by the hash of its context switches (block, threads) together with the hash of its results."),
		),
		("samples", J::Arr(a.samples.iter().take(6).map(J::s).collect())),
		("simulated_runs_planned", i(s.planned)),
		("stopped_early_by_wall_cap", J::Bool(s.stopped)),
		("runs_not_judged", i(a.skipped)),
		("runs_not_judged_reasons", J::Arr(a.skip_reasons.iter().take(4).map(J::s).collect())),
		("seeds_per_hour", i((a.runs as f64 / s.wall.max(0.001) * 3600.0) as u64)),
		("workers", i(s.workers as u64)),
		("operations_judged", i(a.ops)),
		("simulated_steps", i(a.steps)),
		("simulated_time_s", J::Num(a.sim_ns as f64 / 1e9)),
		("context_switches", i(a.switches)),
		("distinct_schedules", i(a.scheds.len() as u64)),
		("distinct_switch_block_pairs", i(a.pairs.len() as u64)),
		("library_blocks_reached", i(a.cov.iter().filter(|x| **x < 65000).count() as u64)),
		("library_blocks_instrumented", i(u64::from(rt::guards()))),
		("faults_delivered", named(&FNAMES, &a.fired)),
		("runs_with_fault", named(&FNAMES, &a.runs_with)),
		("situations_reached", named(&PNAMES, &a.probes)),
		("scheduling_styles", named(&STYLES, &a.styles)),
		("runs_repeated_to_check_determinism", i(a.rechecked)),
		("runs_not_repeatable", i(a.nondet)),
		("reference_processes", i(a.ref_processes)),
		("reference_reuses", i(a.ref_hits)),
		(
			"real_components",
			J::s("the whole sneturfahi library (decomposer, word rules, lexer, classifier, grammar, trees, arena, tracing) and bumpalo, nom, log, compiled from /repo's working tree with basic-block and atomic instrumentation; real threads, real unwinding"),
		),
		(
			"simulated_components",
			J::s("thread scheduling, blocking (futex, sleep, yield), clocks, randomness, environment, the allocator's placement, content and failures, the log sink, the tree visitor, the feeding and crashing of readers"),
		),
	];
	cov.extend(extra);
	J::obj(vec![
		("property", J::s(prop)),
		("tier", J::s(if thorough { "thorough" } else { "quick" })),
		("seed", i(seed)),
		("level", J::s("exploration")),
		("coverage", J::obj(cov)),
		(
			"assumptions",
			J::Arr(vec![
				J::s("Reference results are those of the same build of the library, each call alone in a freshly forked process."),
				J::s("Threads are switched only at basic-block boundaries, atomic operations, allocations, log records and visitor callbacks of the library; memory is sequentially consistent (the library forbids unsafe code)."),
			]),
		),
		("wall_s", J::Num(s.wall)),
		("violations", J::Int(violations)),
	])
}
