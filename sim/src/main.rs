#![feature(alloc_error_hook)]
#![allow(static_mut_refs, clippy::missing_safety_doc)]
mod atomics;
mod drive;
mod gen;
mod grammar;
mod heap;
mod json;
mod model;
mod plan;
mod prng;
mod refs;
mod rt;
mod text;
mod world;

use drive::{Min, Verdict};
use json::J;
use plan::Plan;

#[global_allocator]
static ALLOC: heap::SimAlloc = heap::SimAlloc;

/// Addresses must repeat from run to run.
fn no_aslr() {
	const NO_RANDOMIZE: i64 = 0x004_0000;
	unsafe {
		let cur = rt::raw::sys(135, 0xffff_ffff, 0, 0, 0, 0, 0);
		if cur & NO_RANDOMIZE == 0 && std::env::var_os("SNSIM_EXEC").is_none() {
			rt::raw::sys(135, cur | NO_RANDOMIZE, 0, 0, 0, 0, 0);
			std::env::set_var("SNSIM_EXEC", "1");
			use std::os::unix::process::CommandExt as _;
			let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
			eprintln!("snsim: cannot re-execute: {e}");
		}
	}
}

fn env(n: &str, d: &str) -> String {
	std::env::var(n).ok().filter(|s| !s.is_empty()).unwrap_or(d.to_string())
}
fn workers() -> usize {
	std::env::var("SNSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16))
}

fn main() {
	no_aslr();
	heap::map();
	world::map_text();
	world::map_tokens();
	log::set_logger(&world::SINK).unwrap();
	world::set_level(0);
	world::install_hooks();
	let a: Vec<String> = std::env::args().collect();
	let code = match a.get(1).map(String::as_str) {
		Some("check") => check(&a[2]),
		Some("replay") => replay(&a[2], a.get(3).map_or(false, |x| x == "-v")),
		Some("one") => one(&a[2], a[3].parse().unwrap()),
		Some("texts") => {
			// what the text generator produces: texts SEED COUNT WORDS
			let n = |i: usize, d: u64| std::env::args().nth(i).and_then(|s| s.parse().ok()).unwrap_or(d);
			let mut r = prng::Rng::new(n(2, 1));
			for _ in 0..n(3, 20) {
				println!("{}", grammar::derive(&mut r, n(4, 14) as usize));
			}
			0
		}
		Some("determinism") => determinism(a.get(2).map_or(40, |x| x.parse().unwrap())),
		_ => {
			eprintln!("usage: snsim check PROPERTY | replay FILE | one PROPERTY INDEX | determinism [N]");
			2
		}
	};
	std::process::exit(code);
}

fn seed() -> u64 {
	env("VERIF_SEED", "1").parse().unwrap_or_else(|_| prng::hash_bytes(prng::FNV, env("VERIF_SEED", "1").as_bytes()))
}

fn check(prop: &str) -> i32 {
	let seed = seed();
	let thorough = env("VERIF_TIER", "quick") == "thorough";
	let out = env("SNSIM_OUT", ".");
	let total = env("SNSIM_RUNS", "").parse().unwrap_or_else(|_| drive::runs(prop, thorough));
	let cap: f64 = env("SNSIM_CAP", if thorough { "3000" } else { "420" }).parse().unwrap();
	let s = drive::search(prop, seed, thorough, total, workers(), cap);
	let ev = format!("{out}/evidence/{prop}.json");
	std::fs::create_dir_all(format!("{out}/evidence")).ok();
	let mut extra = vec![];
	let mut code = 0;
	let mut nv = 0;
	if let Some(idx) = s.agg.violation {
		let mut m = Min::new(if thorough { 300.0 } else { 100.0 });
		let mut p = gen::gen(prop, seed, idx, thorough);
		let first = m.judge(&mut p, true);
		if let Verdict::Violation(msg) = &first.verdict {
			eprintln!("snsim: run {idx} of seed {seed} violates {prop}: {msg}\nsnsim: minimising");
			let q = m.minimise(p.clone());
			let (q, o) = {
				let mut t = q.clone();
				let o = m.judge(&mut t, false);
				if matches!(o.verdict, Verdict::Violation(_)) {
					(q, o)
				} else {
					(p.clone(), first.clone())
				}
			};
			let Verdict::Violation(msg) = o.verdict.clone() else { unreachable!() };
			let mut again = q.clone();
			let o2 = m.judge(&mut again, false);
			let same = o2.verdict == o.verdict && (o2.steps, o2.sched, o2.events) == (o.steps, o.sched, o.events);
			let dir = format!("{out}/replays");
			std::fs::create_dir_all(&dir).ok();
			let path = format!("{dir}/{prop}-seed{seed}-run{idx}.json");
			let j = J::obj(vec![
				("property", J::s(prop)),
				("seed", J::s(seed.to_string())),
				("run", J::Int(idx as i64)),
				("message", J::s(&msg)),
				("steps", J::Int(o.steps as i64)),
				("schedule_hash", J::s(format!("{:016x}", o.sched))),
				("events_hash", J::s(format!("{:016x}", o.events))),
				("minimised_in_trials", J::Int(i64::from(m.trials))),
				("plan", q.to_json()),
			]);
			std::fs::write(&path, j.pretty()).unwrap();
			println!("{msg}");
			println!("minimised to {} operation(s), {} scheduling decision(s), {} fault(s); replay reproduces it: {same}", q.ops.len(), q.decisions.len(), q.ops.iter().filter(|o| o.fault.is_some()).count());
			println!("replay with: {} replay {path}", env("SNSIM_SELF", "snsim"));
			println!("VIOLATION property={prop} replay={path}");
			nv = 1;
			extra.push(("violation", J::s(&msg)));
			code = 1;
		} else {
			eprintln!("snsim: run {idx} violated {prop} in a worker but not when repeated: {:?}", first.verdict);
			code = 2;
		}
	}
	if !s.agg.broken.is_empty() {
		for b in &s.agg.broken {
			eprintln!("snsim: {b}");
		}
		if code == 0 {
			code = 2;
		}
	}
	if code == 0 && (s.agg.runs == 0 || s.agg.skipped > s.agg.runs * 4) {
		eprintln!("snsim: too few runs could be judged: {} of {}", s.agg.runs, s.planned);
		code = 2;
	}
	std::fs::write(&ev, drive::evidence(prop, seed, thorough, &s, nv, extra).pretty()).unwrap();
	println!(
		"{prop}: {} runs ({} distinct executions, {} skipped), {} operations, {} switches, {:.1} s",
		s.agg.runs,
		s.agg.execs.len(),
		s.agg.skipped,
		s.agg.ops,
		s.agg.switches,
		s.wall
	);
	code
}

fn replay(path: &str, verbose: bool) -> i32 {
	let Some(j) = std::fs::read_to_string(path).ok().and_then(|s| J::parse(&s)) else {
		eprintln!("cannot read {path}");
		return 2;
	};
	let Some(p) = Plan::from_json(j.get("plan").unwrap_or(&j)) else {
		eprintln!("not a plan: {path}");
		return 2;
	};
	let mut m = Min::new(1000.0);
	let mut q = p.clone();
	let o = m.judge(&mut q, false);
	if verbose {
		println!("{}", drive::summary(&q, &o));
	}
	match o.verdict {
		Verdict::Violation(msg) => {
			println!("{msg}");
			println!(
				"reproduces exactly: {}",
				j.str("message") == msg && j.str("schedule_hash") == format!("{:016x}", o.sched) && j.str("events_hash") == format!("{:016x}", o.events)
			);
			println!("VIOLATION property={} replay={path}", p.prop);
			1
		}
		Verdict::Held => {
			println!("held");
			0
		}
		v => {
			eprintln!("{v:?}");
			2
		}
	}
}

fn one(prop: &str, idx: u64) -> i32 {
	let mut m = Min::new(1000.0);
	let mut p = gen::gen(prop, seed(), idx, false);
	let o = m.judge(&mut p, true);
	println!("{}", drive::summary(&p, &o));
	println!("{:?}", o.verdict);
	for i in 0..rt::FNAMES.len() {
		if o.fired[i] > 0 {
			println!("  {} {}", rt::FNAMES[i], o.fired[i]);
		}
	}
	0
}

/// One seed is one execution: every property's first runs, each twice, with different worker processes.
fn determinism(n: u64) -> i32 {
	let mut bad = 0;
	for prop in gen::PROPS {
		let k = if prop == "C14" { 3 } else { n };
		let mut first = vec![];
		for pass in 0..2 {
			let mut m = Min::new(1e9);
			for i in 0..k {
				let i = if pass == 0 { i } else { k - 1 - i };
				let mut p = gen::gen(prop, seed(), i, false);
				let o = m.judge(&mut p, true);
				let x = (i, o.verdict, o.steps, o.switches, o.sched, o.events, o.live);
				if pass == 0 {
					first.push(x);
				} else if first[i as usize] != x {
					println!("{prop} run {i} differs:\n  {:?}\n  {x:?}", first[i as usize]);
					bad += 1;
				}
			}
		}
		println!("{prop}: {k} runs repeated");
	}
	i32::from(bad > 0)
}
