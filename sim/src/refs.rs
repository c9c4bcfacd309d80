//! Reference results: what calls return when they are the only calls ever made in a process. Every
//! reference is computed in a freshly forked process on one thread, with the plain heap and no faults.
use std::collections::HashMap;

use crate::heap::{self, Policy};
use crate::model::{Reading, Sp, Stream};
use crate::plan::{Op, Plan, FK, K};
use crate::prng::{hash_bytes, FNV};
use crate::rt::{self, raw, Shared};
use crate::world::{self, Expect, SoloOp, Want, World};

#[derive(Clone, Debug)]
pub enum Fail {
	/// Too many steps alone.
	Budget,
	/// Panicked alone.
	Panic(String),
	/// The process died alone.
	Crash(i32),
	Harness(String),
}
pub type Solo = Result<Vec<SoloOp>, Fail>;

pub const SOLO_LIMIT: u64 = 60_000_000;

pub struct Refs {
	sh: *mut Shared,
	cache: HashMap<String, Solo>,
	readings: HashMap<String, Option<std::rc::Rc<Reading>>>,
	lexes: HashMap<String, Option<std::rc::Rc<Vec<String>>>>,
	pub processes: u64,
	pub hits: u64,
	pub steps: u64,
}

fn put(v: &mut Vec<u8>, b: &[u8]) {
	v.extend((b.len() as u64).to_le_bytes());
	v.extend(b);
}
struct Get<'a>(&'a [u8]);
impl Get<'_> {
	fn int(&mut self) -> u64 {
		let (a, b) = self.0.split_at(8);
		self.0 = b;
		u64::from_le_bytes(a.try_into().unwrap())
	}
	fn bytes(&mut self) -> Vec<u8> {
		let n = self.int() as usize;
		let (a, b) = self.0.split_at(n);
		self.0 = b;
		a.to_vec()
	}
}
fn store(v: Vec<u8>) {
	let s = rt::sh();
	if v.len() > rt::DATA {
		rt::harness_error("reference result too large");
	}
	s.data[..v.len()].copy_from_slice(&v);
	s.data_len = v.len() as u64;
}

pub fn new_shared() -> *mut Shared {
	let p = unsafe { raw::mmap_shared(std::mem::size_of::<Shared>()) };
	assert!((p as isize) > 0, "cannot map shared memory");
	p as *mut Shared
}

/// Run `f` on one simulated thread in a fresh process.
pub fn in_process(sh: *mut Shared, seconds: i64, f: impl FnOnce() + Send + 'static) -> (i32, &'static mut Shared) {
	let s = unsafe { &mut *sh };
	s.reset();
	let pid = raw::fork();
	assert!(pid >= 0, "fork failed");
	if pid == 0 {
		unsafe { rt::SH = sh };
		raw::watch(seconds);
		f();
		raw::exit(0);
	}
	let (_, st) = raw::wait(pid, false);
	(st, s)
}
fn lone_thread(f: impl FnOnce() + Send + 'static) {
	std::thread::Builder::new()
		.stack_size(64 << 20)
		.spawn(move || {
			rt::set_actor(0);
			f();
		})
		.unwrap()
		.join()
		.ok();
}

impl Refs {
	pub fn new() -> Refs {
		Refs { sh: new_shared(), cache: HashMap::new(), readings: HashMap::new(), lexes: HashMap::new(), processes: 0, hits: 0, steps: 0 }
	}
	fn plan(&mut self, p: Plan, level: u8) -> Solo {
		let key = format!("{level}{}", p.to_json().render());
		if let Some(r) = self.cache.get(&key) {
			self.hits += 1;
			return r.clone();
		}
		self.processes += 1;
		let (st, s) = in_process(self.sh, 45, move || {
			let plan: &'static Plan = Box::leak(Box::new(p));
			heap::start(Policy::CANON, 1);
			let n = plan.ops.len();
			let w = Box::leak(Box::new(World::new(plan, (0..n).map(|_| Expect::any()).collect(), true)));
			unsafe { world::W = w };
			world::set_level(level);
			let bytes: usize = plan.texts.iter().map(String::len).sum();
			rt::install_solo(if bytes > 130_000 { 20 * SOLO_LIMIT } else { SOLO_LIMIT }, 0);
			lone_thread(move || {
				for i in 0..n {
					world::exec(i);
				}
				let outs = unsafe { &*world::w().outs.get() };
				let mut v = vec![];
				v.extend((outs.len() as u64).to_le_bytes());
				for o in outs {
					put(&mut v, o.out.as_bytes());
					for x in [o.steps, o.allocs, o.logs, o.visits] {
						v.extend(x.to_le_bytes());
					}
					v.extend((o.trace.len() as u64).to_le_bytes());
					for x in &o.trace {
						v.extend(x.to_le_bytes());
					}
					put(&mut v, &o.raw);
					v.extend((o.picks.len() as u64).to_le_bytes());
					for x in &o.picks {
						v.extend(x.to_le_bytes());
					}
				}
				store(v);
				rt::sh().status = 1;
			});
			rt::finish_counters();
		});
		self.steps += s.steps;
		let r = if st != 0 {
			Err(Fail::Crash(st & 0x7f))
		} else if s.status == 3 {
			Err(Fail::Budget)
		} else if s.status == 2 {
			Err(Fail::Crash(14))
		} else if s.status != 1 {
			Err(Fail::Harness(s.message()))
		} else {
			let mut g = Get(&s.data[..s.data_len as usize]);
			let n = g.int();
			let mut v = vec![];
			let mut bad = None;
			for _ in 0..n {
				let mut o = SoloOp { out: String::from_utf8_lossy(&g.bytes()).into_owned(), ..SoloOp::default() };
				o.steps = g.int();
				o.allocs = g.int();
				o.logs = g.int();
				o.visits = g.int();
				let k = g.int();
				for _ in 0..k {
					o.trace.push(g.int());
				}
				o.raw = g.bytes();
				let k = g.int();
				for _ in 0..k {
					o.picks.push(g.int());
				}
				if o.out.starts_with("PANIC") {
					bad = Some(o.out.clone());
				}
				v.push(o);
			}
			match bad {
				Some(m) => Err(Fail::Panic(m)),
				None => Ok(v),
			}
		};
		if self.cache.len() > 60_000 {
			self.cache.clear();
		}
		self.cache.insert(key, r.clone());
		r
	}
	/// One whole call alone.
	pub fn call(&mut self, k: K, n: u64, text: &str, level: u8) -> Result<SoloOp, Fail> {
		let mut p = Plan::new("solo", 0, 0);
		let b = p.buf(text);
		p.ops.push(Op::new(0, k).b(b).n(n));
		Ok(self.plan(p, level)?.remove(0))
	}
	pub fn parse(&mut self, text: &str, n: u64, level: u8) -> Result<SoloOp, Fail> {
		let mut p = Plan::new("solo", 0, 0);
		let b = p.buf(text);
		p.ops.push(Op::new(0, K::ArenaNew).s(0));
		p.ops.push(Op::new(0, K::Parse).s(0).s2(1).b(b).n(n));
		Ok(self.plan(p, level)?.remove(1))
	}
	pub fn walk(&mut self, text: &str, n: u64, level: u8) -> Result<SoloOp, Fail> {
		let mut p = Plan::new("solo", 0, 0);
		let b = p.buf(text);
		p.ops.push(Op::new(0, K::ArenaNew).s(0));
		p.ops.push(Op::new(0, K::Parse).s(0).s2(1).b(b).n(1));
		p.ops.push(Op::new(0, K::Walk).s(1).n(n));
		Ok(self.plan(p, level)?.remove(2))
	}
	/// Hashes of the calls of a long history, computed in processes of a few hundred calls each.
	pub fn bulk(&mut self, kind: u64, seed: u64, n: u64) -> Result<Vec<u64>, Fail> {
		let whole = n as usize;
		if kind == 8 {
			// only a sample is compared
			let js: Vec<u64> = (0..n).step_by(world::BULK_SAMPLE as usize).collect();
			let mut out = vec![];
			for j in js {
				let o = self.call(K::Class, 0, &world::bulk_text(kind, seed, j), 0)?;
				out.push(hash_bytes(FNV, o.out.as_bytes()));
			}
			return Ok(out);
		}
		let n = n.min(world::bulk_period(kind));
		let mut out = vec![0u64; n as usize];
		let chunk = if world::bulk_period(kind) < u64::MAX { 1 } else { 256 };
		let mut a = 0;
		while a < n {
			let b = (a + chunk).min(n);
			self.processes += 1;
			let (st, s) = in_process(self.sh, 45, move || {
				heap::start(Policy::CANON, 1);
				world::set_level(0);
				rt::install_solo(u64::MAX, 0);
				lone_thread(move || {
					let mut v = vec![];
					// in reverse order, so that no reference has the history it is compared under
					for j in (a..b).rev() {
						match world::bulk_one(kind, seed, j) {
							Ok(h) => v.extend(h.to_le_bytes()),
							Err(_) => return,
						}
					}
					store(v);
					rt::sh().status = 1;
				});
				rt::finish_counters();
			});
			if st != 0 || s.status != 1 {
				return Err(Fail::Crash(st & 0x7f));
			}
			for (x, j) in (a..b).rev().enumerate() {
				out[j as usize] = u64::from_le_bytes(s.data[x * 8..x * 8 + 8].try_into().unwrap());
			}
			a = b;
		}
		Ok((0..whole).map(|j| out[j % out.len()]).collect())
	}
	pub fn reading(&mut self, text: &str) -> Result<std::rc::Rc<Reading>, Fail> {
		if let Some(Some(r)) = self.readings.get(text) {
			return Ok(r.clone());
		}
		let mut fail = None;
		let mut alone = |s: &str| match self.call(K::Words, 0, s, 0) {
			Ok(o) => Some(
				o.out
					.split_whitespace()
					.map(|x| {
						let (a, b) = x.split_once("..").unwrap();
						Sp(a.parse().unwrap(), b.parse().unwrap())
					})
					.collect(),
			),
			Err(e) => {
				fail = Some(e);
				None
			}
		};
		let r = Reading::new(text, &mut alone);
		match (r, fail) {
			(Some(r), None) => {
				let r = std::rc::Rc::new(r);
				if self.readings.len() > 20_000 {
					self.readings.clear();
				}
				self.readings.insert(text.to_string(), Some(r.clone()));
				Ok(r)
			}
			(_, f) => Err(f.unwrap_or(Fail::Harness("reading".into()))),
		}
	}
	pub fn lexed(&mut self, text: &str) -> Result<std::rc::Rc<Vec<String>>, Fail> {
		if let Some(Some(r)) = self.lexes.get(text) {
			return Ok(r.clone());
		}
		let r = self.reading(text)?;
		let mut fail = None;
		let v = crate::model::lex(&r, |s| match self.call(K::Class, 0, s, 0) {
			Ok(o) => Some(o.out),
			Err(e) => {
				fail = Some(e);
				None
			}
		});
		match (v, fail) {
			(Some(v), None) => {
				let v = std::rc::Rc::new(v);
				if self.lexes.len() > 20_000 {
					self.lexes.clear();
				}
				self.lexes.insert(text.to_string(), Some(v.clone()));
				Ok(v)
			}
			(_, f) => Err(f.unwrap_or(Fail::Harness("lexed".into()))),
		}
	}
}

/// Stream operations grouped by the stream they belong to (a root and its clones).
pub fn families(p: &Plan) -> Vec<Vec<usize>> {
	let mut fam: Vec<Vec<usize>> = vec![];
	let mut of: HashMap<usize, (usize, usize)> = HashMap::new(); // slot -> family, buffer
	for (i, o) in p.ops.iter().enumerate() {
		match o.k {
			K::DecNew | K::LexNew => {
				fam.push(vec![i]);
				of.insert(o.s, (fam.len() - 1, o.b));
			}
			K::BufSet => of.retain(|_, (_, b)| *b != o.b),
			k if k.is_dec() || k.is_lex() => {
				let Some(&(f, b)) = of.get(&o.s) else { continue };
				fam[f].push(i);
				match k {
					K::DecClone => {
						of.insert(o.s2, (f, b));
					}
					K::DecDrop | K::LexDrop | K::DecCount | K::DecLast | K::DecRest | K::LexCount | K::LexRest => {
						of.remove(&o.s);
					}
					_ => {}
				}
			}
			K::RdNew | K::ArenaNew => {
				of.remove(&o.s);
			}
			_ => {}
		}
	}
	fam
}

fn model_family(refs: &mut Refs, p: &Plan, f: &[usize], text: &str, exp: &mut [Expect]) -> Result<(), Fail> {
	if p.ops[f[0]].k == K::DecNew {
		let r = refs.reading(text)?;
		let mut at: HashMap<usize, Stream> = HashMap::new();
		for &i in f {
			let o = &p.ops[i];
			let e = |s: String| Want::Exact(s);
			exp[i].want = match o.k {
				K::DecNew => {
					at.insert(o.s, Stream::new());
					match r.words_sound() {
						Some(m) => e(format!("UNSOUND {m}")),
						None => Want::Any,
					}
				}
				K::DecNext => e(crate::model::show(at.get_mut(&o.s).unwrap().next(&r))),
				K::DecRaw => e(crate::model::show(at.get_mut(&o.s).unwrap().raw(&r))),
				K::DecNth => {
					let s = at.get_mut(&o.s).unwrap();
					for _ in 0..o.n {
						if s.next(&r).is_none() {
							break;
						}
					}
					e(crate::model::show(s.next(&r)))
				}
				K::DecHint => Want::Hint(at[&o.s].remaining(&r)),
				K::DecClone => {
					let c = at[&o.s].clone();
					at.insert(o.s2, c);
					Want::Any
				}
				K::DecCount => e(at[&o.s].remaining(&r).to_string()),
				K::DecLast | K::DecRest | K::DecPeekAll => {
					let mut s = at[&o.s].clone();
					let mut all = String::new();
					let mut last = None;
					while let Some(w) = s.next(&r) {
						all.push_str(&w.show());
						all.push(' ');
						last = Some(w);
					}
					e(if o.k == K::DecLast { crate::model::show(last) } else { all })
				}
				_ => Want::Any,
			};
		}
	} else {
		let v = refs.lexed(text)?;
		let mut at = 0usize;
		for &i in f {
			let o = &p.ops[i];
			let get = |k: usize| v.get(k).cloned().unwrap_or("-".into());
			exp[i].want = match o.k {
				K::LexNext => {
					let x = get(at);
					at = (at + 1).min(v.len());
					Want::Exact(x)
				}
				K::LexNth => {
					let x = get(at.saturating_add(o.n as usize));
					at = at.saturating_add(o.n as usize + 1).min(v.len());
					Want::Exact(x)
				}
				K::LexHint => Want::Hint(v.len() - at),
				K::LexCount => Want::Exact((v.len() - at).to_string()),
				K::LexRest => Want::Exact(v[at..].iter().map(|x| format!("{x}\n")).collect()),
				_ => Want::Any,
			};
		}
	}
	Ok(())
}

/// First, middle and last occurrence of every different record.
fn places_of(trace: &[u64]) -> Vec<u64> {
	let mut at: HashMap<u64, Vec<u64>> = HashMap::new();
	for (i, h) in trace.iter().enumerate() {
		at.entry(*h).or_default().push(i as u64);
	}
	let mut v: Vec<u64> = at.values().flat_map(|p| [p[0], p[p.len() / 2], p[p.len() - 1]]).collect();
	v.sort_unstable();
	v.dedup();
	v
}
fn fill(e: &mut Expect, o: &SoloOp) {
	e.want = Want::Exact(o.out.clone());
	counts(e, o);
}
fn counts(e: &mut Expect, o: &SoloOp) {
	e.steps = o.steps;
	e.allocs = o.allocs;
	e.visits = o.visits;
	e.raw = o.raw.clone();
	e.picks = o.picks.clone();
}

/// Expectations for every operation of a plan; also settles fault positions (drawn as arbitrary
/// numbers) within what the calls really do.
pub fn expectations(refs: &mut Refs, p: &mut Plan, resolve: bool) -> Result<Vec<Expect>, Fail> {
	let n = p.ops.len();
	let mut exp: Vec<Expect> = (0..n).map(|_| Expect::any()).collect();
	let at = p.texts_at();
	let want_logs = p.check_trace || p.ops.iter().any(|o| matches!(o.fault, Some(f) if matches!(f.kind, FK::LogPanic | FK::LogReenter | FK::LogLevel(_))));
	let mut traced: Vec<Option<SoloOp>> = vec![None; n];
	let mut log_picks: Vec<Vec<u64>> = vec![vec![]; n];
	let none = vec![];
	let mut tree_text: HashMap<usize, (usize, usize)> = HashMap::new(); // slot -> parse op, arena
	let mut rd_text: HashMap<usize, usize> = HashMap::new();
	for i in 0..n {
		let o = p.ops[i].clone();
		let t = p.texts.get(at[i]).cloned().unwrap_or_default();
		match o.k {
			K::Words | K::Tokens | K::Class | K::Full => {
				let s = refs.call(o.k, o.n, &t, 0)?;
				fill(&mut exp[i], &s);
				if want_logs {
					traced[i] = Some(refs.call(o.k, o.n, &t, 5)?);
				}
			}
			K::Cycle => {
				let mut s = refs.call(o.k, o.n, &t, 0)?;
				let times: u64 = p.ops.iter().filter(|q| q.k == K::Cycle && q.b == o.b).map(|q| u64::from(q.rep.max(1))).sum();
				if resolve && s.steps * times > if p.ops.len() > 100 { 30_000_000 } else { 200_000_000 } {
					// repeated too often for a text that takes so long
					p.texts[at[i]] = "mi klama".into();
					s = refs.call(o.k, o.n, "mi klama", 0)?;
				}
				counts(&mut exp[i], &s);
				if want_logs {
					traced[i] = Some(refs.call(o.k, o.n, &p.texts[at[i]].clone(), 5)?);
				}
			}
			K::Parse => {
				let s = refs.parse(&t, o.n, 0)?;
				fill(&mut exp[i], &s);
				if want_logs {
					traced[i] = Some(refs.parse(&t, o.n, 5)?);
				}
				tree_text.insert(o.s2, (i, o.s));
			}
			K::Walk => {
				if let Some(&(q, _)) = tree_text.get(&o.s) {
					let t = p.texts[at[q]].clone();
					exp[i].want = Want::Exact(refs.parse(&t, 0, 0)?.out);
					let s = refs.walk(&t, o.n, 0)?;
					counts(&mut exp[i], &s);
					if want_logs {
						traced[i] = Some(refs.walk(&t, o.n, 5)?);
					}
				}
			}
			K::ArenaNew | K::ArenaDrop => tree_text.retain(|_, (_, a)| *a != o.s),
			K::Cut | K::Resume => {
				let s = refs.call(K::Tokens, 0, &t, 0)?;
				exp[i].aux = s.out;
				exp[i].allocs = s.allocs;
				exp[i].steps = s.steps;
			}
			K::RdNew => {
				rd_text.insert(o.s, at[i]);
			}
			K::RdEnd | K::RdPump => {
				if let Some(&x) = rd_text.get(&o.s) {
					let t = p.texts[x].clone();
					let s = refs.call(K::Tokens, 0, &t, 0)?;
					exp[i].allocs = s.allocs;
					exp[i].steps = s.steps;
					if want_logs {
						traced[i] = Some(refs.call(K::Tokens, 0, &t, 5)?);
					}
					if o.k == K::RdEnd {
						exp[i].want = Want::Exact(s.out);
					}
				}
			}
			K::Bulk if p.prop == "C12" => {}
			K::Bulk => exp[i].bulk = refs.bulk(o.s2 as u64, o.b as u64, o.n)?,
			_ => {}
		}
		if let Some(f) = &o.fault {
			if matches!(f.kind, FK::LogReenter | FK::VisitReenter) {
				// the buffer is not rewritten while such a call runs
				let mut cur = p.bufs[f.b].text;
				for q in &p.ops[..i] {
					if q.k == K::BufSet && q.b == f.b {
						cur = q.n as usize;
					}
				}
				let t = p.texts[cur].clone();
				let r = refs.call(world::nested_kind(&t), 0, &t, if want_logs { 5 } else { 0 })?;
				exp[i].nested = r.out;
				exp[i].nested_steps = r.steps;
			}
		}
	}
	for f in families(p) {
		let text = p.texts[at[f[0]]].clone();
		if p.model {
			model_family(refs, p, &f, &text, &mut exp)?;
		}
		let mut sub = Plan::new("solo", 0, 0);
		let b = sub.buf(&text);
		let mut slots: Vec<usize> = vec![];
		let mut local = |s: usize| {
			slots.iter().position(|x| *x == s).unwrap_or_else(|| {
				slots.push(s);
				slots.len() - 1
			})
		};
		for &i in &f {
			let mut o = p.ops[i].clone();
			o.a = 0;
			o.b = b;
			o.s = local(o.s);
			o.s2 = if o.k == K::DecClone { local(o.s2) } else { 0 };
			o.rep = 1;
			o.fault = None;
			sub.ops.push(o);
		}
		if p.model && !want_logs && !p.ops.iter().any(|o| o.fault.is_some()) {
			// no operation takes more steps than reading the whole text
			let s = refs.call(if p.ops[f[0]].k == K::DecNew { K::Words } else { K::Tokens }, 0, &text, 0)?;
			for &i in &f {
				exp[i].steps = s.steps;
			}
			continue;
		}
		let r = refs.plan(sub.clone(), 0)?;
		for (x, &i) in r.iter().zip(&f) {
			if !p.model {
				exp[i].want = if p.ops[i].k == K::DecNew || p.ops[i].k == K::LexNew { Want::Any } else { Want::Exact(x.out.clone()) };
			}
			counts(&mut exp[i], x);
		}
		if want_logs {
			let r = refs.plan(sub, 5)?;
			for (x, &i) in r.into_iter().zip(&f) {
				traced[i] = Some(x);
			}
		}
	}
	for i in 0..n {
		if let Some(t) = traced[i].take() {
			exp[i].logs = t.logs;
			log_picks[i] = places_of(&t.trace);
			if p.level == 5 || p.level_changes() {
				// with tracing on the call also formats records
				exp[i].steps = exp[i].steps.max(t.steps);
				exp[i].allocs = exp[i].allocs.max(t.allocs);
			}
			if p.check_trace && !matches!(p.ops[i].k, K::RdPump | K::RdEnd) {
				exp[i].trace = Some(t.trace);
			}
		}
		if resolve {
			let (a, l, v) = (exp[i].allocs, exp[i].logs, exp[i].visits);
			if let Some(f) = &mut p.ops[i].fault {
				let m = match f.kind {
					FK::Oom { .. } => a,
					FK::LogPanic | FK::LogReenter | FK::LogLevel(_) => l,
					FK::VisitPanic | FK::VisitReenter => v,
				};
				if m == 0 {
					p.ops[i].fault = None;
				} else {
					// half of the time any position, half of the time a place drawn first
					let by_place = f.k >> 62 == 1;
					let k = f.k >> 2;
					let places = match f.kind {
						FK::Oom { .. } => &exp[i].picks,
						FK::LogPanic | FK::LogReenter | FK::LogLevel(_) => &log_picks[i],
						_ => &none,
					};
					f.k = if by_place && !places.is_empty() { places[k as usize % places.len()] % m } else { k % m };
				}
			}
		}
	}
	if resolve {
		let per: Vec<u64> = (0..n).map(|i| exp[i].steps * u64::from(p.ops[i].rep.max(1)) + 10).collect();
		let total: u64 = per.iter().sum();
		match &mut p.style {
			rt::Style::Pct { span, .. } => *span = total,
			rt::Style::Stall { victims, .. } => {
				for (victim, at) in victims {
					let mine: u64 = (0..n).filter(|i| p.ops[*i].a == *victim as usize).map(|i| per[i]).sum();
					*at = *at % mine.max(1) + 1;
				}
			}
			_ => {}
		}
	}
	Ok(exp)
}
/// Step budget of a run: many times what its calls need alone.
pub fn limit(p: &Plan, exp: &[Expect]) -> u64 {
	let total: u64 = p.ops.iter().zip(exp).map(|(o, e)| (e.steps + e.nested_steps) * u64::from(o.rep.max(1))).sum();
	let bulk: u64 = p.ops.iter().map(|o| match o.k {
		K::Bulk => o.n * u64::from(o.rep.max(1)) * 400_000,
		K::Cycle => 200_000_000,
		K::Fill => o.n * 40_000_000,
		_ => 0,
	}).sum();
	total * 20 + 50_000_000 + bulk
}
