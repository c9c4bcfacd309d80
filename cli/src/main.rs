//! Simulation of the command-line tool: the unmodified tool runs as a process of its own on top of
//! shim.c, which plays the kernel. One seed decides the input, the session, every transfer size,
//! interrupted call, error, clock reading and random byte; this program generates the plans, judges
//! the outcomes against lone fresh runs, and minimises what fails.
#[path = "../../sim/src/grammar.rs"]
#[allow(dead_code)]
mod grammar;
#[path = "../../sim/src/json.rs"]
#[allow(dead_code)]
mod json;
#[path = "../../sim/src/prng.rs"]
#[allow(dead_code)]
mod prng;
#[path = "../../sim/src/text.rs"]
#[allow(dead_code)]
mod text;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::unix::process::{CommandExt as _, ExitStatusExt as _};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

use json::J;
use prng::{hash_bytes, Rng, FNV};

extern "C" {
	fn personality(p: u64) -> i32;
	fn alarm(s: u32) -> u32;
}

const VERBOSE: i64 = 1;
const DECOMPOSE: i64 = 2;
const LEX: i64 = 4;
const CST: i64 = 8;
const COLLAPSE: i64 = 16;
const ERRNOS: [i64; 11] = [5, 28, 32, 104, 12, 27, 122, 22, 6, 116, 11];
fn errno_name(e: i64) -> String {
	let n = match e {
		4 => "EINTR",
		5 => "EIO",
		6 => "ENXIO",
		11 => "EAGAIN",
		12 => "ENOMEM",
		22 => "EINVAL",
		27 => "EFBIG",
		28 => "ENOSPC",
		32 => "EPIPE",
		104 => "ECONNRESET",
		116 => "ESTALE",
		122 => "EDQUOT",
		1000 => "zero_length_write",
		_ => return format!("errno_{e}"),
	};
	n.to_string()
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Acts {
	v: Vec<i64>,
	/// Once the list is used up: 0 whole transfers, n at most n bytes, -e always errno e.
	rest: i64,
}
#[derive(Clone, Debug, PartialEq)]
struct Plan {
	prop: String,
	seed: u64,
	idx: u64,
	flags: i64,
	tty: bool,
	canon: bool,
	lines: Vec<Vec<u8>>,
	last_newline: bool,
	r: Acts,
	w: Acts,
	e: Acts,
	clock_step: i64,
	jumps: Vec<(u64, i64)>,
	perturb: i64,
	random: u64,
}
fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
	s.as_bytes().chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
}
impl Acts {
	fn to_json(&self) -> J {
		J::obj(vec![("acts", J::s(self.v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))), ("rest", J::Int(self.rest))])
	}
	fn from_json(j: Option<&J>) -> Acts {
		let Some(j) = j else { return Acts::default() };
		Acts { v: j.str("acts").split_whitespace().filter_map(|x| x.parse().ok()).collect(), rest: j.int("rest") }
	}
}
impl Plan {
	fn input(&self) -> Vec<u8> {
		let mut v = self.lines.join(&b'\n');
		if self.last_newline && !self.lines.is_empty() {
			v.push(b'\n');
		}
		v
	}
	fn to_json(&self) -> J {
		J::obj(vec![
			("kind", J::s("cli")),
			("property", J::s(&self.prop)),
			("seed", J::s(self.seed.to_string())),
			("run", J::Int(self.idx as i64)),
			("flags", J::s(args_of(self.flags).join(" "))),
			("terminal", J::Bool(self.tty)),
			("line_reads", J::Bool(self.canon)),
			("lines_hex", J::Arr(self.lines.iter().map(|l| J::s(hex(l))).collect())),
			("lines_readable", J::Arr(self.lines.iter().map(|l| J::s(String::from_utf8_lossy(l))).collect())),
			("last_newline", J::Bool(self.last_newline)),
			("reads", self.r.to_json()),
			("stdout_writes", self.w.to_json()),
			("stderr_writes", self.e.to_json()),
			("clock_step_ns", J::Int(self.clock_step)),
			("clock_jumps", J::Arr(self.jumps.iter().map(|(a, b)| J::Arr(vec![J::Int(*a as i64), J::Int(*b)])).collect())),
			("malloc_perturb", J::Int(self.perturb)),
			("random", J::s(self.random.to_string())),
		])
	}
	fn from_json(j: &J) -> Option<Plan> {
		if j.str("kind") != "cli" {
			return None;
		}
		let mut flags = 0;
		for f in j.str("flags").split_whitespace() {
			for b in [VERBOSE, DECOMPOSE, LEX, CST, COLLAPSE] {
				if args_of(b)[0] == f {
					flags |= b;
				}
			}
		}
		Some(Plan {
			prop: j.str("property").into(),
			seed: j.str("seed").parse().ok()?,
			idx: j.int("run") as u64,
			flags,
			tty: j.int("terminal") != 0,
			canon: j.int("line_reads") != 0,
			lines: j.arr("lines_hex").iter().map(|x| unhex(x.as_str())).collect(),
			last_newline: j.int("last_newline") != 0,
			r: Acts::from_json(j.get("reads")),
			w: Acts::from_json(j.get("stdout_writes")),
			e: Acts::from_json(j.get("stderr_writes")),
			clock_step: j.int("clock_step_ns"),
			jumps: j
				.arr("clock_jumps")
				.iter()
				.filter_map(|x| match x {
					J::Arr(v) if v.len() == 2 => Some((v[0].as_int() as u64, v[1].as_int())),
					_ => None,
				})
				.collect(),
			perturb: j.int("malloc_perturb"),
			random: j.str("random").parse().unwrap_or(1),
		})
	}
}
fn args_of(f: i64) -> Vec<&'static str> {
	[(VERBOSE, "--verbose"), (DECOMPOSE, "--decompose"), (LEX, "--lex"), (CST, "--cst"), (COLLAPSE, "--collapse-cst")].iter().filter(|x| f & x.0 != 0).map(|x| x.1).collect()
}

// ------------------------------------------------------------------------------------- running

#[derive(Clone, Debug, PartialEq)]
struct Ran {
	out: Vec<u8>,
	err: Vec<u8>,
	code: Option<i32>,
	signal: Option<i32>,
	events: Vec<(u8, i64, i64)>,
	note: String,
}
struct Runner {
	dir: PathBuf,
	exe: PathBuf,
	shim: PathBuf,
	refs: HashMap<(i64, Vec<u8>), Arc<Ran>>,
	processes: u64,
	hits: u64,
}
const LOGMAX: u64 = 1 << 20;
impl Runner {
	fn new(base: &Path, k: usize, target: &Path) -> Runner {
		let dir = base.join(k.to_string());
		std::fs::create_dir_all(&dir).unwrap();
		Runner { dir, exe: target.join("debug/examples/main"), shim: target.join("shim.so"), refs: HashMap::new(), processes: 0, hits: 0 }
	}
	fn run(&mut self, p: &Plan) -> Result<Ran, String> {
		let f = |n: &str| self.dir.join(n);
		let mut s = Vec::new();
		let mut line = |t: String| {
			s.extend_from_slice(t.as_bytes());
			s.push(b'\n');
		};
		line(format!("tty {}", i32::from(p.tty)));
		line(format!("canon {}", i32::from(p.canon)));
		line(format!("clock 1700006400000000000 {}", p.clock_step));
		for (a, b) in &p.jumps {
			line(format!("jump {a} {b}"));
		}
		line(format!("random {}", p.random));
		for (n, a) in [("r", &p.r), ("w", &p.w), ("e", &p.e)] {
			line(format!("{n} {}", a.v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
			line(format!("{n}rest {}", a.rest));
		}
		let input = p.input();
		line(format!("data {}", input.len()));
		s.extend_from_slice(&input);
		s.push(b'\n');
		std::fs::write(f("plan"), &s).map_err(|e| e.to_string())?;
		let log = std::fs::File::create(f("log")).map_err(|e| e.to_string())?;
		log.set_len(LOGMAX).map_err(|e| e.to_string())?;
		let o = std::fs::File::create(f("out")).map_err(|e| e.to_string())?;
		let e = std::fs::File::create(f("err")).map_err(|e| e.to_string())?;
		let mut c = Command::new(&self.exe);
		c.args(args_of(p.flags)).env_clear().env("RUST_BACKTRACE", "0").env("LD_PRELOAD", &self.shim).env("SNCLI_PLAN", f("plan")).env("SNCLI_LOG", f("log"));
		if p.perturb != 0 {
			c.env("MALLOC_PERTURB_", p.perturb.to_string());
		}
		c.current_dir(&self.dir).stdin(Stdio::null()).stdout(o).stderr(e);
		unsafe {
			c.pre_exec(|| {
				alarm(60);
				Ok(())
			});
		}
		let st = c.status().map_err(|e| format!("cannot run {}: {e}", self.exe.display()))?;
		self.processes += 1;
		let lg = std::fs::read(f("log")).map_err(|e| e.to_string())?;
		let n = u64::from_le_bytes(lg[..8].try_into().unwrap()).min(LOGMAX - 8) as usize;
		let mut events = vec![];
		let mut note = String::new();
		for l in String::from_utf8_lossy(&lg[8..8 + n]).lines() {
			if let Some(m) = l.strip_prefix("! ") {
				note = m.to_string();
				continue;
			}
			let mut it = l.split(' ');
			if let (Some(a), Some(b), Some(c)) = (it.next(), it.next(), it.next()) {
				events.push((a.as_bytes()[0], b.parse().unwrap_or(0), c.parse().unwrap_or(0)));
			}
		}
		if st.code() == Some(98) {
			return Err("the shim could not read its plan".into());
		}
		if note.contains("capture") {
			return Err(note);
		}
		Ok(Ran {
			out: std::fs::read(f("out")).map_err(|e| e.to_string())?,
			err: std::fs::read(f("err")).map_err(|e| e.to_string())?,
			code: st.code(),
			signal: st.signal(),
			events,
			note,
		})
	}
	/// What the tool prints for this text alone: a fresh process, whole transfers, input from a pipe.
	fn alone(&mut self, flags: i64, text: &[u8]) -> Result<Arc<Ran>, String> {
		let key = (flags, text.to_vec());
		if let Some(r) = self.refs.get(&key) {
			self.hits += 1;
			return Ok(r.clone());
		}
		let p = Plan {
			prop: String::new(),
			seed: 0,
			idx: 0,
			flags,
			tty: false,
			canon: false,
			lines: vec![text.to_vec()],
			last_newline: false,
			r: Acts::default(),
			w: Acts::default(),
			e: Acts::default(),
			clock_step: 0,
			jumps: vec![],
			perturb: 0,
			random: 1,
		};
		let r = Arc::new(self.run(&p)?);
		if self.refs.len() > 3000 || r.out.len() > 4_000_000 {
			self.refs.clear();
		}
		self.refs.insert(key, r.clone());
		Ok(r)
	}
}

// ------------------------------------------------------------------------------------- judging

#[derive(Clone, Debug, PartialEq)]
enum Verdict {
	Held,
	Violation(String),
	Skipped(String),
	Broken(String),
}
/// Blank the clock readings in diagnostics.
fn mask(b: &[u8]) -> Vec<u8> {
	let mut v = b.to_vec();
	let d = |x: u8| x.is_ascii_digit();
	let mut i = 0;
	while i + 10 <= v.len() {
		if v[i + 8] == b' ' && v[i + 9] == b'[' && v[i + 2] == b':' && v[i + 5] == b':' && [0, 1, 3, 4, 6, 7].iter().all(|k| d(v[i + k])) {
			for k in [0, 1, 3, 4, 6, 7] {
				v[i + k] = b'0';
			}
			i += 9;
		}
		i += 1;
	}
	v
}
const STAMP: &[u8] = b"00:00:00 [";
fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
	if h.len() < n.len() {
		return None;
	}
	(from..=h.len() - n.len()).find(|&i| h[i] == n[0] && &h[i..i + n.len()] == n)
}
/// Remove whole diagnostic records (and a cut-off one at the end) from masked output.
fn results(b: &[u8]) -> Vec<u8> {
	let mut o = vec![];
	let mut i = 0;
	loop {
		match find(b, STAMP, i) {
			None => {
				o.extend_from_slice(&b[i..]);
				return o;
			}
			Some(k) => {
				o.extend_from_slice(&b[i..k]);
				match b[k..].iter().position(|x| *x == b'\n') {
					Some(n) => i = k + n + 1,
					None => return o,
				}
			}
		}
	}
}
fn first_difference(a: &[u8], b: &[u8]) -> String {
	let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
	let cut = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(20).min(v.len())..(k + 60).min(v.len())]).to_string();
	format!("at byte {k}: expected {:?} ({} bytes in all), got {:?} ({} bytes in all)", cut(a), a.len(), cut(b), b.len())
}

fn judge(m: &mut Runner, p: &Plan) -> (Verdict, Option<Ran>) {
	match judge0(m, p) {
		Ok(x) => x,
		Err(e) => (Verdict::Broken(e), None),
	}
}
/// `Ok(None)`: the tool does not answer this text even alone (a defect of its own, not judged here).
fn expected(m: &mut Runner, flags: i64, l: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
	let r = m.alone(flags, l)?;
	if r.code != Some(0) {
		return Ok(Err(format!("the tool fails on {:?} alone: {:?} {:?}", String::from_utf8_lossy(l), r.code, r.signal)));
	}
	Ok(Ok(mask(&r.out)))
}
fn judge0(m: &mut Runner, p: &Plan) -> Result<(Verdict, Option<Ran>), String> {
	let input = p.input();
	// the texts the tool is given: lines at a terminal, everything from a pipe; text that is not text ends it
	let mut texts: Vec<&[u8]> = vec![];
	let mut ends: Vec<usize> = vec![];
	if p.tty {
		let mut at = 0;
		for l in input.split_inclusive(|b| *b == b'\n') {
			at += l.len();
			texts.push(l);
			ends.push(at);
		}
	} else {
		texts.push(&input);
		ends.push(input.len());
	}
	let bad = texts.iter().position(|t| std::str::from_utf8(t).is_err());
	let good = bad.unwrap_or(texts.len());
	let mut exp: Vec<Vec<u8>> = vec![];
	for t in &texts[..good] {
		match expected(m, p.flags, t)? {
			Ok(o) => exp.push(o),
			Err(why) => return Ok((Verdict::Skipped(why), None)),
		}
	}
	if p.flags & VERBOSE != 0 {
		for (i, t) in texts[..good].iter().enumerate() {
			let plain = match expected(m, p.flags & !VERBOSE, t)? {
				Ok(o) => o,
				Err(why) => return Ok((Verdict::Skipped(why), None)),
			};
			if results(&exp[i]) != plain && find(t, b" [", 0).is_none() {
				let d = first_difference(&plain, &results(&exp[i]));
				return Ok((Verdict::Violation(format!("with --verbose the results for {:?} differ from those without: {d}", String::from_utf8_lossy(t))), None));
			}
		}
	}
	let r = m.run(p)?;
	let got = mask(&r.out);
	let how = match (r.code, r.signal) {
		(Some(c), _) => format!("exit status {c}"),
		(_, Some(s)) => format!("signal {s}"),
		_ => "an unknown end".into(),
	};
	if r.signal == Some(14) || !r.note.is_empty() {
		return Ok((Verdict::Violation(format!("the tool does not finish ({})", if r.note.is_empty() { "60 s" } else { &r.note })), Some(r)));
	}
	if r.signal == Some(9) || r.signal == Some(15) {
		return Err(format!("the tool was killed from outside ({how})"));
	}
	let read_failed = r.events.iter().any(|e| e.0 == b'R' && e.2 != -4);
	let write_failed = r.events.iter().any(|e| e.0 == b'W' && e.2 != -4);
	let stderr_failed = r.events.iter().any(|e| e.0 == b'E' && e.2 != -4);
	if !read_failed && !write_failed && !stderr_failed && bad.is_none() {
		let all = exp.concat();
		if r.code != Some(0) {
			let e = String::from_utf8_lossy(&r.err).to_string();
			return Ok((Verdict::Violation(format!("no transfer failed and the input is text, but the tool ended with {how}: {}", e.lines().rev().find(|l| !l.is_empty()).unwrap_or(""))), Some(r)));
		}
		if got != all {
			let d = first_difference(&all, &got);
			return Ok((Verdict::Violation(format!("the output is not that of the same text{} alone in a fresh process: {d}", if p.tty { "s" } else { "" })), Some(r)));
		}
		return Ok((Verdict::Held, Some(r)));
	}
	// something failed: what is settled is what had been read completely
	let mut delivered = 0usize;
	let mut eof = false;
	for e in &r.events {
		if e.0 == b'r' {
			delivered += e.2 as usize;
			eof |= e.1 > 0 && e.2 == 0;
		}
		if e.0 == b'R' && e.2 != -4 {
			break;
		}
	}
	let complete = if p.tty {
		(0..good).filter(|i| ends[*i] <= delivered && (input[..ends[*i]].ends_with(b"\n") || eof)).count()
	} else {
		usize::from(good == 1 && eof)
	};
	let allowed = exp[..complete].concat();
	if !allowed.starts_with(&got) {
		let d = first_difference(&allowed, &got);
		return Ok((Verdict::Violation(format!("after a failure ({}) standard output is not a prefix of the correct output of what could be read: {d}; {how}", failures(&r, bad.is_some()))), Some(r)));
	}
	if r.code == Some(0) {
		if read_failed || bad.is_some() {
			return Ok((Verdict::Violation(format!("the input could not be read ({}) but the tool ended with exit status 0", failures(&r, bad.is_some()))), Some(r)));
		}
		let full = if p.flags & VERBOSE != 0 { results(&got).starts_with(&results(&allowed)) && complete == texts.len() } else { !write_failed && got == allowed && complete == texts.len() };
		if !full {
			return Ok((Verdict::Violation(format!("a result could not be written ({}) but the tool ended with exit status 0", failures(&r, false))), Some(r)));
		}
	}
	Ok((Verdict::Held, Some(r)))
}
fn failures(r: &Ran, bad: bool) -> String {
	let mut v = vec![];
	for e in &r.events {
		if b"RWE".contains(&e.0) && e.2 != -4 {
			let n = if e.2 == 0 { "zero_length_write".into() } else { errno_name(-e.2) };
			v.push(format!("{} {n}", match e.0 { b'R' => "read", b'W' => "write", _ => "stderr write" }));
		}
	}
	v.truncate(3);
	if bad {
		v.push("input that is not text".into());
	}
	v.join(", ")
}

// ------------------------------------------------------------------------------------- generating

fn chunks(r: &mut Rng, n: usize, eintr: bool) -> Acts {
	let n = n.min(6000);
	let mut v = vec![];
	let style = r.weighted(&[2, 3, 3, 3]);
	let m = *r.pick(&[2usize, 3, 7, 17, 64, 300, 1023]);
	let p = if eintr && r.chance(2, 3) { *r.pick(&[2usize, 5, 20]) } else { 0 };
	let mut done = 0;
	while done < n && v.len() < 6000 {
		if p > 0 && r.chance(1, p) {
			v.push(-4);
			continue;
		}
		let k = match style {
			0 => 0,
			1 => 1,
			2 => r.range(1, m),
			_ => {
				if r.chance(1, 3) {
					r.range(1, m)
				} else {
					0
				}
			}
		};
		v.push(k as i64);
		done += if k == 0 { n / 8 + 64 } else { k };
	}
	Acts { v, rest: if style == 1 && r.chance(1, 2) { 512 } else { 0 } }
}
fn one_line(r: &mut Rng, verbose: bool) -> String {
	let prof = *r.pick(&[text::Profile::Grammar, text::Profile::Grammar, text::Profile::Soup, text::Profile::Quotes, text::Profile::Pieces, text::Profile::Cheap]);
	let n = if verbose { r.range(1, 3) } else { r.range(1, 9) };
	let t = if verbose && prof == text::Profile::Pieces { text::word(r) } else { text::text(r, prof, n) };
	if verbose && t.len() > 60 {
		return text::word(r);
	}
	t
}
fn gen(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
	let mut r = Rng::new(hash_bytes(hash_bytes(hash_bytes(FNV, prop.as_bytes()), &seed.to_le_bytes()), &idx.to_le_bytes()));
	let verbose = r.chance(1, 8);
	let mut flags = 0;
	while flags & (DECOMPOSE | LEX | CST) == 0 {
		for f in [DECOMPOSE, LEX, CST, CST, COLLAPSE] {
			if r.chance(1, 2) {
				flags |= f;
			}
		}
	}
	if verbose {
		flags |= VERBOSE;
	}
	let tty = r.chance(3, 5);
	let many = if verbose { 4 } else if thorough { *r.pick(&[6, 12, 40, 150]) } else { *r.pick(&[3, 6, 12, 30]) };
	let mut lines: Vec<Vec<u8>> = vec![];
	let pool: Vec<String> = (0..r.range(1, 5)).map(|_| one_line(&mut r, verbose)).collect();
	let n = if tty { r.range(1, many) } else { r.range(1, 3) };
	let mut budget = 0;
	for _ in 0..n {
		let mut t = match r.weighted(&[4, 4, 2, 1]) {
			0 => one_line(&mut r, verbose),
			1 => r.pick(&pool).clone(),
			2 => {
				let s = r.pick(&pool).clone();
				text::same_length_variant(&mut r, &s)
			}
			_ => {
				// the beginning of another line: what the buffer held stays behind it
				let s = r.pick(&pool).clone();
				let mut k = r.range(0, s.len());
				while !s.is_char_boundary(k) {
					k -= 1;
				}
				s[..k].to_string()
			}
		};
		t = t.replace('\n', " ");
		if tty && r.chance(1, 5) {
			// a sentence typed over two lines
			let gaps: Vec<usize> = t.match_indices(' ').map(|x| x.0).collect();
			if !gaps.is_empty() {
				let k = *r.pick(&gaps);
				budget += k;
				lines.push(t[..k].as_bytes().to_vec());
				t = t[k + 1..].to_string();
			}
		}
		if r.chance(1, 12) {
			t = format!("{}{t}{}", r.pick(&[" ", "\t", "  ", ""]), r.pick(&["\r", " ", "\t ", ""]));
		}
		budget += t.len();
		if budget > 900 {
			break;
		}
		lines.push(t.into_bytes());
	}
	if lines.is_empty() {
		lines.push(b"mi klama".to_vec());
	}
	let faulty = prop == "C09";
	if tty && !faulty && !verbose && r.chance(1, if thorough { 12 } else { 30 }) {
		// a long session
		let few = ["mi klama", "klama", "", "zoi gy", "lo", "i", "na"];
		let n = r.range(260, 520);
		let mut v: Vec<Vec<u8>> = (0..n).map(|_| r.pick(&few).as_bytes().to_vec()).collect();
		v.append(&mut lines);
		lines = v;
	}
	if !verbose && r.chance(1, if faulty { 4 } else { 25 }) {
		// deep enough for lines that do not fit the tool's output buffer
		let mut t = r.pick(&["mi klama", "do broda", "klama", "ko'a nelci"]).to_string();
		let (clause, len) = *r.pick(&[(" lo nu mi klama", 22), (" le nu do broda", 22), (" le du'u ti prenu", 20), (" lo nu do klama", 22)]);
		for _ in 0..r.range(10, len) {
			t.push_str(clause);
		}
		flags = flags & !COLLAPSE | CST;
		lines = vec![t.into_bytes()];
	}
	let mut p = Plan {
		prop: prop.into(),
		seed,
		idx,
		flags,
		tty,
		canon: tty && r.chance(2, 3),
		lines,
		last_newline: r.chance(3, 4),
		r: Acts::default(),
		w: Acts::default(),
		e: Acts::default(),
		clock_step: 0,
		jumps: vec![],
		perturb: if r.chance(1, 2) { r.range(1, 255) as i64 } else { 0 },
		random: r.u64(),
	};
	let len = p.input().len();
	if !faulty || r.chance(1, 2) {
		p.r = chunks(&mut r, len + 8, true);
		p.w = chunks(&mut r, 4000, true);
		if tty {
			p.e = chunks(&mut r, 4 * p.lines.len(), true);
		}
	}
	if !faulty {
		p.clock_step = *r.pick(&[0, 1, 1_000_000, 999_999_937, 3_600_000_000_000]);
		for _ in 0..r.below(4) {
			p.jumps.push((r.below(200) as u64, (r.u64() >> 8) as i64 / 100 * if r.chance(1, 2) { 1 } else { -1 } % 1_600_000_000_000_000_000));
		}
	}
	p
}
/// Place failures inside what the session actually does.
fn inject(m: &mut Runner, p: &mut Plan) -> Result<(), String> {
	let mut r = Rng::new(hash_bytes(hash_bytes(FNV ^ 99, &p.seed.to_le_bytes()), &p.idx.to_le_bytes()));
	let base = m.run(p)?;
	let count = |c: &[u8]| base.events.iter().filter(|e| c.contains(&e.0)).count();
	let verbose = p.flags & VERBOSE != 0;
	let times = if r.chance(1, 6) { 2 } else { 1 };
	for _ in 0..times {
		match r.weighted(&[5, 10, 4, 1]) {
			0 => {
				let n = count(b"rR").max(1);
				place(&mut r, &mut p.r, n, true, false);
			}
			1 => {
				let n = count(b"wW").max(1);
				// where a piece of output did not fit the tool's buffer any more
				let least = *r.pick(&[900, 1008]);
				let full: Vec<usize> = base.events.iter().filter(|e| b"wW".contains(&e.0)).enumerate().filter(|(_, e)| (least..1024).contains(&e.1)).map(|x| x.0).collect();
				if !verbose && !full.is_empty() && r.chance(3, 4) {
					let k = *r.pick(&full);
					// one failure, the device works again afterwards
					place_at(&mut r, &mut p.w, k, Lasting::No, true);
				} else {
					place(&mut r, &mut p.w, n, verbose, true);
				}
			}
			2 => {
				// bytes that are not text, or the end of input inside a character
				let k = r.below(p.lines.len());
				match r.below(3) {
					0 => {
						let l = &mut p.lines[k];
						let at = r.below(l.len() + 1);
						let b: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xf4\x90\x80\x80"]);
						for (i, x) in b.iter().enumerate() {
							l.insert(at + i, *x);
						}
					}
					_ => {
						let c: &[u8] = *r.pick(&[&b"\xc3"[..], b"\xf0\x9f\x98", b"\xe2\x82", b"\xf0"]);
						p.lines.truncate(k + 1);
						if r.chance(1, 2) {
							p.lines[k].clear();
						} else if r.chance(1, 2) {
							p.lines[k].push(b' ');
						}
						p.lines[k].extend_from_slice(c);
						p.last_newline = false;
					}
				}
			}
			_ => {
				let n = count(b"eE").max(1);
				place(&mut r, &mut p.e, n, false, true);
			}
		}
	}
	Ok(())
}
#[derive(Clone, Copy, PartialEq)]
enum Lasting {
	No,
	Either,
	Yes,
}
fn place(r: &mut Rng, a: &mut Acts, n: usize, persistent: bool, write: bool) {
	let k = match r.below(4) {
		0 => n - 1,
		1 => r.below(n.min(4)),
		_ => r.below(n),
	};
	place_at(r, a, k, if persistent { Lasting::Yes } else { Lasting::Either }, write);
}
fn place_at(r: &mut Rng, a: &mut Acts, k: usize, lasting: Lasting, write: bool) {
	let e = if write && r.chance(1, 12) { -1000 } else { -*r.pick(&ERRNOS) };
	while a.v.len() < k {
		a.v.push(a.rest);
	}
	let partial = write && r.chance(1, 3);
	let keep = a.v.len();
	a.v.truncate(k);
	if partial {
		a.v.push(r.range(1, 40) as i64);
	}
	a.v.push(e);
	if lasting == Lasting::Yes || lasting == Lasting::Either && r.chance(1, 2) {
		a.rest = e;
	} else if keep > k {
		a.v.extend(std::iter::repeat(a.rest).take(keep - k));
	}
}

// ------------------------------------------------------------------------------------- searching

#[derive(Default)]
struct Agg {
	runs: u64,
	skipped: u64,
	lines: u64,
	bytes_out: u64,
	broken: Vec<String>,
	fired: BTreeMap<String, u64>,
	runs_with: BTreeMap<String, u64>,
	ends: BTreeMap<String, u64>,
	modes: BTreeMap<String, u64>,
	execs: HashSet<u64>,
	rechecked: u64,
	processes: u64,
	hits: u64,
	samples: Vec<String>,
	skip_reasons: Vec<String>,
	sim_ns: f64,
}
fn execution(r: &Ran) -> u64 {
	let mut h = FNV;
	for e in &r.events {
		h = hash_bytes(h, &[e.0]);
		h = hash_bytes(h, &e.1.to_le_bytes());
		h = hash_bytes(h, &e.2.to_le_bytes());
	}
	hash_bytes(h, &r.out)
}
fn fired(p: &Plan, r: &Ran) -> BTreeMap<String, u64> {
	let mut f: BTreeMap<String, u64> = BTreeMap::new();
	for e in &r.events {
		let k = match e.0 {
			b'r' if e.2 < e.1 && e.2 > 0 => "short_read".into(),
			b'w' if e.2 < e.1 => "short_write".into(),
			b'e' if e.2 < e.1 => "short_stderr_write".into(),
			b'R' => format!("read_{}", errno_name(-e.2)),
			b'W' => format!("write_{}", if e.2 == 0 { "zero_length".into() } else { errno_name(-e.2) }),
			b'E' => format!("stderr_write_{}", if e.2 == 0 { "zero_length".into() } else { errno_name(-e.2) }),
			_ => continue,
		};
		*f.entry(k).or_default() += 1;
	}
	if !p.jumps.is_empty() {
		f.insert("clock_jump".into(), p.jumps.len() as u64);
	}
	if p.lines.iter().any(|l| std::str::from_utf8(l).is_err()) {
		f.insert("input_not_text".into(), 1);
	}
	if p.perturb != 0 {
		f.insert("heap_fill".into(), 1);
	}
	f
}
impl Agg {
	fn add(&mut self, p: &Plan, r: Option<&Ran>) {
		self.runs += 1;
		self.lines += p.lines.len() as u64;
		let Some(r) = r else { return };
		self.bytes_out += r.out.len() as u64;
		for (k, v) in fired(p, r) {
			*self.runs_with.entry(k.clone()).or_default() += 1;
			*self.fired.entry(k).or_default() += v;
		}
		*self.ends.entry(r.code.map_or(format!("signal {}", r.signal.unwrap_or(0)), |c| format!("exit {c}"))).or_default() += 1;
		*self.modes.entry(format!("{}{}", if p.tty { "terminal" } else { "pipe" }, if p.flags & VERBOSE != 0 { "_verbose" } else { "" })).or_default() += 1;
		self.sim_ns += p.clock_step as f64 * r.events.len() as f64 + p.jumps.iter().map(|x| x.1.unsigned_abs() as f64).sum::<f64>();
		if !r.events.is_empty() && p.input().len() > 1 {
			self.execs.insert(execution(r));
		}
		if self.samples.len() < 2 && p.lines.len() > 1 {
			self.samples.push(summary(p, r));
		}
	}
	fn merge(&mut self, o: Agg) {
		self.runs += o.runs;
		self.skipped += o.skipped;
		self.lines += o.lines;
		self.bytes_out += o.bytes_out;
		self.broken.extend(o.broken);
		for (a, b) in [(&mut self.fired, o.fired), (&mut self.runs_with, o.runs_with), (&mut self.ends, o.ends), (&mut self.modes, o.modes)] {
			for (k, v) in b {
				*a.entry(k).or_default() += v;
			}
		}
		self.execs.extend(o.execs);
		self.rechecked += o.rechecked;
		self.processes += o.processes;
		self.hits += o.hits;
		self.samples.extend(o.samples);
		self.skip_reasons.extend(o.skip_reasons);
		self.sim_ns += o.sim_ns;
	}
}
fn summary(p: &Plan, r: &Ran) -> String {
	let f: Vec<String> = fired(p, r).iter().map(|(k, v)| format!("{k} x{v}")).collect();
	let mut l: Vec<String> = p.lines.iter().map(|x| format!("{:?}", String::from_utf8_lossy(x))).collect();
	if l.len() > 8 {
		l.truncate(8);
		l.push("...".into());
	}
	format!(
		"run {}: {} {}, {} line(s) {}; {} transfers, {}; ended with {}, {} bytes on stdout, execution {:016x}",
		p.idx,
		args_of(p.flags).join(" "),
		if p.tty { "at a terminal" } else { "from a pipe" },
		p.lines.len(),
		l.join(" "),
		r.events.len(),
		f.join(", "),
		r.code.map_or(format!("signal {}", r.signal.unwrap_or(0)), |c| format!("exit status {c}")),
		r.out.len(),
		execution(r)
	)
}
fn plan_of(m: &mut Runner, prop: &str, seed: u64, idx: u64, thorough: bool) -> Result<Plan, String> {
	let mut p = gen(prop, seed, idx, thorough);
	if prop == "C09" {
		inject(m, &mut p)?;
	}
	Ok(p)
}

struct Found {
	agg: Agg,
	violation: Option<u64>,
	wall: f64,
}
fn search(base: &Path, target: &Path, prop: &str, seed: u64, thorough: bool, total: u64, workers: usize, cap: f64) -> Found {
	let t0 = Instant::now();
	let lowest = Arc::new(AtomicU64::new(u64::MAX));
	let all = Arc::new(Mutex::new(Agg::default()));
	let hs: Vec<_> = (0..workers)
		.map(|k| {
			let (lowest, all, base, target, prop) = (lowest.clone(), all.clone(), base.to_path_buf(), target.to_path_buf(), prop.to_string());
			std::thread::spawn(move || {
				let mut m = Runner::new(&base, k, &target);
				let mut a = Agg::default();
				let mut i = k as u64;
				while i < total && t0.elapsed().as_secs_f64() < cap && lowest.load(Ordering::Relaxed) > i {
					match plan_of(&mut m, &prop, seed, i, thorough) {
						Err(e) => a.broken.push(format!("run {i}: {e}")),
						Ok(p) => {
							let (v, r) = judge(&mut m, &p);
							match v {
								Verdict::Held => {
									a.add(&p, r.as_ref());
									if i % 61 < 4 {
										a.rechecked += 1;
										if m.run(&p).ok() != r {
											a.broken.push(format!("run {i} is not repeatable"));
										}
									}
								}
								Verdict::Violation(_) => {
									a.add(&p, r.as_ref());
									lowest.fetch_min(i, Ordering::Relaxed);
								}
								Verdict::Skipped(w) => {
									a.skipped += 1;
									if a.skip_reasons.len() < 2 {
										a.skip_reasons.push(w);
									}
								}
								Verdict::Broken(w) => a.broken.push(format!("run {i}: {w}")),
							}
						}
					}
					a.broken.truncate(3);
					i += workers as u64;
				}
				a.processes = m.processes;
				a.hits = m.hits;
				all.lock().unwrap().merge(a);
			})
		})
		.collect();
	for h in hs {
		h.join().unwrap();
	}
	let agg = std::mem::take(&mut *all.lock().unwrap());
	let l = lowest.load(Ordering::Relaxed);
	Found { agg, violation: (l != u64::MAX).then_some(l), wall: t0.elapsed().as_secs_f64() }
}

// ------------------------------------------------------------------------------------- minimising

struct Min<'a> {
	m: &'a mut Runner,
	trials: u32,
	deadline: Instant,
}
impl Min<'_> {
	fn fails(&mut self, p: &Plan) -> bool {
		if Instant::now() > self.deadline {
			return false;
		}
		self.trials += 1;
		matches!(judge(self.m, p).0, Verdict::Violation(_))
	}
	fn cut<T: Clone>(&mut self, p: &mut Plan, get: impl Fn(&mut Plan) -> &mut Vec<T>) {
		let mut size = get(p).len().max(1).div_ceil(2);
		loop {
			let mut at = 0;
			while at < get(p).len() {
				let mut q = p.clone();
				let v = get(&mut q);
				let e = (at + size).min(v.len());
				v.drain(at..e);
				if self.fails(&q) {
					*p = q;
				} else {
					at += size;
				}
			}
			if size == 1 {
				break;
			}
			size = size.div_ceil(2);
		}
	}
	fn minimise(&mut self, mut p: Plan) -> Plan {
		for _ in 0..3 {
			let before = p.clone();
			let simpler: Vec<Box<dyn Fn(&mut Plan)>> = vec![
				Box::new(|q| q.r = Acts::default()),
				Box::new(|q| q.w = Acts::default()),
				Box::new(|q| q.e = Acts::default()),
				Box::new(|q| q.r.rest = 0),
				Box::new(|q| q.w.rest = 0),
				Box::new(|q| q.e.rest = 0),
				Box::new(|q| q.jumps.clear()),
				Box::new(|q| q.clock_step = 0),
				Box::new(|q| q.perturb = 0),
				Box::new(|q| q.flags &= !VERBOSE),
				Box::new(|q| q.flags &= !COLLAPSE),
				Box::new(|q| q.flags &= !DECOMPOSE),
				Box::new(|q| q.flags &= !LEX),
				Box::new(|q| q.flags &= !CST),
				Box::new(|q| q.canon = q.tty),
				Box::new(|q| q.last_newline = true),
				Box::new(|q| {
					q.tty = false;
					q.canon = false;
				}),
			];
			for s in &simpler {
				let mut q = p.clone();
				s(&mut q);
				if q != p && q.flags & (DECOMPOSE | LEX | CST) != 0 && self.fails(&q) {
					p = q;
				}
			}
			self.cut(&mut p, |q| &mut q.lines);
			for which in 0..3 {
				self.cut(&mut p, move |q| match which {
					0 => &mut q.r.v,
					1 => &mut q.w.v,
					_ => &mut q.e.v,
				});
			}
			for i in 0..p.lines.len() {
				if p.lines[i].len() <= 400 {
					self.cut(&mut p, move |q| &mut q.lines[i]);
				}
			}
			if p == before {
				break;
			}
		}
		p
	}
}

// ------------------------------------------------------------------------------------- commands

fn env(n: &str, d: &str) -> String {
	std::env::var(n).ok().filter(|s| !s.is_empty()).unwrap_or(d.to_string())
}
fn main() {
	unsafe {
		let cur = personality(0xffff_ffff);
		if cur >= 0 {
			personality(cur as u64 | 0x004_0000);
		}
	}
	let a: Vec<String> = std::env::args().collect();
	let target = PathBuf::from(env("SNCLI_TARGET", "/verif/target/cli"));
	let base = std::env::temp_dir().join(format!("sncli-{}", std::process::id()));
	std::fs::create_dir_all(&base).unwrap();
	let code = match a.get(1).map(String::as_str) {
		Some("check") => check(&base, &target, &a[2]),
		Some("replay") => replay(&base, &target, &a[2]),
		Some("one") => {
			let mut m = Runner::new(&base, 0, &target);
			let seed = env("VERIF_SEED", "1").parse().unwrap();
			let p = plan_of(&mut m, &a[2], seed, a[3].parse().unwrap(), false).unwrap();
			let (v, r) = judge(&mut m, &p);
			if let Some(r) = r {
				println!("{}\n{}", summary(&p, &r), String::from_utf8_lossy(&r.err));
			}
			println!("{v:?}");
			0
		}
		_ => {
			eprintln!("usage: sncli check PROPERTY | replay FILE | one PROPERTY INDEX");
			2
		}
	};
	std::fs::remove_dir_all(&base).ok();
	std::process::exit(code);
}
fn check(base: &Path, target: &Path, prop: &str) -> i32 {
	let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or_else(|_| hash_bytes(FNV, env("VERIF_SEED", "1").as_bytes()));
	let thorough = env("VERIF_TIER", "quick") == "thorough";
	let out = env("SNSIM_OUT", ".");
	let total = env("SNSIM_RUNS", "").parse().unwrap_or(if thorough { 60000 } else { 1300 });
	let cap: f64 = env("SNSIM_CAP", if thorough { "3000" } else { "420" }).parse().unwrap();
	let workers = env("SNSIM_WORKERS", "").parse().unwrap_or_else(|_| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16));
	let s = search(base, target, prop, seed, thorough, total, workers, cap);
	let mut code = 0;
	let mut message = None;
	if let Some(idx) = s.violation {
		let mut m = Runner::new(base, 999, target);
		let p = plan_of(&mut m, prop, seed, idx, thorough).unwrap();
		match judge(&mut m, &p).0 {
			Verdict::Violation(first) => {
				eprintln!("sncli: run {idx} of seed {seed} violates {prop}: {first}\nsncli: minimising");
				let mut mm = Min { m: &mut m, trials: 0, deadline: Instant::now() + std::time::Duration::from_secs(if thorough { 200 } else { 60 }) };
				let q = mm.minimise(p.clone());
				let trials = mm.trials;
				let (v, r) = judge(&mut m, &q);
				let (q, msg, r) = match v {
					Verdict::Violation(x) => (q, x, r),
					_ => {
						let (_, r) = judge(&mut m, &p);
						(p, first, r)
					}
				};
				let (v2, r2) = judge(&mut m, &q);
				let same = v2 == Verdict::Violation(msg.clone()) && r2 == r;
				std::fs::create_dir_all(format!("{out}/replays")).ok();
				let path = format!("{out}/replays/{prop}-seed{seed}-run{idx}.json");
				let j = J::obj(vec![
					("property", J::s(prop)),
					("seed", J::s(seed.to_string())),
					("run", J::Int(idx as i64)),
					("message", J::s(&msg)),
					("execution_hash", J::s(r.as_ref().map_or(String::new(), |r| format!("{:016x}", execution(r))))),
					("minimised_in_trials", J::Int(i64::from(trials))),
					("plan", q.to_json()),
				]);
				std::fs::write(&path, j.pretty()).unwrap();
				println!("{msg}");
				println!("minimised to {} line(s), {} transfer action(s); replay reproduces it: {same}", q.lines.len(), q.r.v.len() + q.w.v.len() + q.e.v.len());
				println!("replay with: {} replay {path}", env("SNSIM_SELF", "sncli"));
				println!("VIOLATION property={prop} replay={path}");
				message = Some(msg);
				code = 1;
			}
			v => {
				eprintln!("sncli: run {idx} violated {prop} in a worker but not when repeated: {v:?}");
				code = 2;
			}
		}
	}
	for b in &s.agg.broken {
		eprintln!("sncli: {b}");
	}
	if code == 0 && (!s.agg.broken.is_empty() || s.agg.runs == 0 || s.agg.skipped > s.agg.runs * 4) {
		eprintln!("sncli: {} runs judged, {} skipped, {} broken", s.agg.runs, s.agg.skipped, s.agg.broken.len());
		code = 2;
	}
	let g = &s.agg;
	let mut samples = g.samples.clone();
	samples.truncate(6);
	let mut ev = vec![
		("property", J::s(prop)),
		("tier", J::s(if thorough { "thorough" } else { "quick" })),
		("seed", J::Int((seed & 0x7fff_ffff_ffff_ffff) as i64)),
		("level", J::s("exploration")),
		(
			"coverage",
			J::obj(vec![
				("evaluations", J::Int(g.runs as i64)),
				("distinct_nontrivial", J::Int(g.execs.len() as i64)),
				("rule", J::s("a run is one seeded session of the real tool (flags, terminal or pipe, lines, every transfer size and failure, clock, heap fill); counted once per distinct sequence of transfers and output, when it transferred anything and the input was longer than one byte")),
				("samples", J::Arr(samples.iter().map(J::s).collect())),
				("runs_per_hour", J::Int((g.runs as f64 / s.wall.max(0.001) * 3600.0) as i64)),
				("seeds_per_hour", J::Int((g.runs as f64 / s.wall.max(0.001) * 3600.0) as i64)),
				("simulated_seconds", J::Num((g.sim_ns / 1e9).round())),
				("planned_runs", J::Int(total as i64)),
				("runs_not_judged", J::Int(g.skipped as i64)),
				("why_not_judged", J::Arr(g.skip_reasons.iter().take(3).map(J::s).collect())),
				("texts_given_to_the_tool", J::Int(g.lines as i64)),
				("bytes_printed", J::Int(g.bytes_out as i64)),
				("tool_processes", J::Int(g.processes as i64)),
				("reference_cache_hits", J::Int(g.hits as i64)),
				("faults_fired", json::counts(&g.fired)),
				("runs_with_fault", json::counts(&g.runs_with)),
				("endings", json::counts(&g.ends)),
				("modes", json::counts(&g.modes)),
				("repeated_and_compared", J::Int(g.rechecked as i64)),
				("real_components", J::s("examples/main.rs, the library, its macros, argh, atty, simplelog, log, bumpalo, nom and the Rust standard library's buffered I/O, as built by cargo")),
				("stubbed_components", J::s("the kernel's read, write, isatty, clock_gettime and getrandom (cli/shim.c)")),
			]),
		),
		(
			"assumptions",
			J::Arr(
				[
					"EBADF on standard streams is not injected: the Rust standard library deliberately treats closed standard streams as empty or as sinks",
					"with --verbose only lasting write failures are injected: simplelog ignores the failure of a single diagnostic line",
					"texts on which the tool fails even alone are not judged",
				]
				.iter()
				.map(|x| J::s(*x))
				.collect(),
			),
		),
		("wall_s", J::Num((s.wall * 10.0).round() / 10.0)),
		("violations", J::Int(i64::from(code == 1))),
	];
	if let Some(m) = message {
		ev.push(("violation", J::s(m)));
	}
	std::fs::create_dir_all(format!("{out}/evidence")).ok();
	std::fs::write(format!("{out}/evidence/{prop}.json"), J::obj(ev).pretty()).unwrap();
	println!("{prop}: {} runs ({} distinct executions, {} skipped), {} texts, {} processes, {:.1} s", g.runs, g.execs.len(), g.skipped, g.lines, g.processes, s.wall);
	code
}
fn replay(base: &Path, target: &Path, path: &str) -> i32 {
	let Some(j) = std::fs::read_to_string(path).ok().and_then(|s| J::parse(&s)) else {
		eprintln!("cannot read {path}");
		return 2;
	};
	let Some(p) = j.get("plan").and_then(Plan::from_json) else {
		eprintln!("not a plan of the command-line simulator: {path}");
		return 2;
	};
	let mut m = Runner::new(base, 0, target);
	let (v, r) = judge(&mut m, &p);
	match v {
		Verdict::Violation(msg) => {
			let h = r.as_ref().map_or(String::new(), |r| format!("{:016x}", execution(r)));
			println!("{msg}\nreproduces exactly: {}", j.str("message") == msg && j.str("execution_hash") == h);
			println!("VIOLATION property={} replay={path}", p.prop);
			1
		}
		Verdict::Held => {
			println!("held");
			0
		}
		v => {
			eprintln!("{v:?}");
			2
		}
	}
}
