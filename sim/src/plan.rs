//! A plan is one simulated execution, written out: the texts, what every actor does, which faults
//! are armed where, how memory and the environment behave, and how threads are scheduled.
use crate::heap::Policy;
use crate::json::J;
use crate::rt::{Dec, Style};

macro_rules! kinds {
	($($n:ident),* $(,)?) => {
		#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
		pub enum K { $($n),* }
		pub const KINDS: &[(K, &str)] = &[$((K::$n, stringify!($n))),*];
	};
}
kinds![
	// whole calls
	Words, Tokens, Class, Full, // word streams
	DecNew, DecNext, DecRaw, DecHint, DecClone, DecDrop, DecNth, DecCount, DecLast, DecRest, DecPeekAll, // token streams
	LexNew, LexNext, LexHint, LexNth, LexCount, LexRest, LexDrop, // arenas and trees
	ArenaNew, ArenaDrop, ArenaBytes, Parse, Walk, // the caller's side
	BufSet, Level, // truncation and incremental reading
	Cut, Resume, RdNew, RdFeed, RdPump, RdCrash, RdEnd, // long histories and memory
	Bulk, Cycle, Measure, // parses one after another in one arena
	Fill,
];
impl K {
	pub fn name(self) -> &'static str {
		KINDS.iter().find(|x| x.0 == self).unwrap().1
	}
	pub fn is_dec(self) -> bool {
		matches!(self, K::DecNew | K::DecNext | K::DecRaw | K::DecHint | K::DecClone | K::DecDrop | K::DecNth | K::DecCount | K::DecLast | K::DecRest | K::DecPeekAll)
	}
	pub fn is_lex(self) -> bool {
		matches!(self, K::LexNew | K::LexNext | K::LexHint | K::LexNth | K::LexCount | K::LexRest | K::LexDrop)
	}
	pub fn is_rd(self) -> bool {
		matches!(self, K::RdNew | K::RdFeed | K::RdPump | K::RdCrash | K::RdEnd)
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FK {
	/// The k-th library allocation of at least `min` bytes in the call fails (and all later ones if `sticky`).
	Oom { min: usize, sticky: bool },
	LogPanic,
	LogReenter,
	LogLevel(u8),
	VisitPanic,
	VisitReenter,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
	pub kind: FK,
	pub k: u64,
	/// Added to k at every repetition of the operation.
	pub stride: u64,
	/// Buffer used by re-entrant calls.
	pub b: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
	pub a: usize,
	pub k: K,
	pub s: usize,
	pub s2: usize,
	pub b: usize,
	pub n: u64,
	pub rep: u32,
	pub fault: Option<Fault>,
}
impl Op {
	pub fn new(a: usize, k: K) -> Op {
		Op { a, k, s: 0, s2: 0, b: 0, n: 0, rep: 1, fault: None }
	}
	pub fn s(mut self, s: usize) -> Op {
		self.s = s;
		self
	}
	pub fn s2(mut self, s: usize) -> Op {
		self.s2 = s;
		self
	}
	pub fn b(mut self, b: usize) -> Op {
		self.b = b;
		self
	}
	pub fn n(mut self, n: u64) -> Op {
		self.n = n;
		self
	}
}

#[derive(Clone, Debug, PartialEq)]
pub struct Buf {
	/// Index of the initial text.
	pub text: usize,
	/// Offset of the start from a 64-byte boundary.
	pub off: usize,
	/// What surrounds the text: 0 nothing, 1 Lojban words, 2 separators, 3 non-UTF-8 bytes.
	pub junk: u8,
	/// Not zero: an address boundary falls inside the text, this many bytes (less one) from its
	/// start; `off` says which: a multiple of 2^32, 2^31 or 2^16.
	pub edge: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
	pub prop: String,
	pub seed: u64,
	pub idx: u64,
	pub actors: usize,
	pub texts: Vec<String>,
	pub bufs: Vec<Buf>,
	pub ops: Vec<Op>,
	pub heap: Policy,
	/// Initial log level 0..=5.
	pub level: u8,
	pub style: Style,
	pub decisions: Vec<Dec>,
	pub clock_mode: u8,
	pub env_mode: u8,
	pub spurious: u32,
	pub strict_stall: bool,
	/// Check that no call takes more steps than it needs alone.
	pub check_steps: bool,
	/// Check trace transcripts.
	pub check_trace: bool,
	/// Streams are checked against the sequential model instead of a lone replay of their history.
	pub model: bool,
	pub stacks: Vec<usize>,
	pub names: bool,
	/// Token slices straddle multiples of 2^32.
	pub token_edges: bool,
	pub fresh_counts: bool,
}
impl Plan {
	pub fn new(prop: &str, seed: u64, idx: u64) -> Plan {
		Plan {
			prop: prop.into(),
			seed,
			idx,
			actors: 1,
			texts: vec![],
			bufs: vec![],
			ops: vec![],
			heap: Policy::CANON,
			level: 0,
			style: Style::OpGrain,
			decisions: vec![],
			clock_mode: 0,
			env_mode: 0,
			spurious: 0,
			strict_stall: false,
			check_steps: false,
			check_trace: false,
			model: false,
			stacks: vec![],
			names: false,
			token_edges: false,
			fresh_counts: false,
		}
	}
	/// A buffer holding this text (reused when present).
	pub fn buf(&mut self, t: &str) -> usize {
		if let Some(i) = self.texts.iter().position(|x| x == t) {
			if let Some(b) = self.bufs.iter().position(|b| b.text == i) {
				return b;
			}
		}
		let i = self.text(t);
		self.bufs.push(Buf { text: i, off: 0, junk: 0, edge: 0 });
		self.bufs.len() - 1
	}
	pub fn text(&mut self, t: &str) -> usize {
		if let Some(i) = self.texts.iter().position(|x| x == t) {
			return i;
		}
		self.texts.push(t.to_string());
		self.texts.len() - 1
	}
	pub fn level_changes(&self) -> bool {
		self.ops.iter().any(|o| o.k == K::Level || matches!(o.fault, Some(Fault { kind: FK::LogLevel(_), .. })))
	}
	/// The text each operation's buffer holds when the operation runs.
	pub fn texts_at(&self) -> Vec<usize> {
		let mut cur: Vec<usize> = self.bufs.iter().map(|b| b.text).collect();
		let mut v = vec![];
		for o in &self.ops {
			if o.k == K::BufSet {
				cur[o.b] = o.n as usize;
			}
			v.push(cur.get(o.b).copied().unwrap_or(0));
		}
		v
	}
	/// For every operation, the earlier operations that must have finished.
	pub fn deps(&self) -> Vec<Vec<u32>> {
		// resources: slots (exclusive, except Walk), buffers (shared, except BufSet)
		let mut last_x: std::collections::HashMap<(u8, usize), u32> = Default::default();
		let mut readers: std::collections::HashMap<(u8, usize), Vec<u32>> = Default::default();
		let mut cst_arena: std::collections::HashMap<usize, usize> = Default::default();
		let mut buf_streams: std::collections::HashMap<usize, Vec<usize>> = Default::default();
		let mut last_measure: Option<u32> = None;
		let mut out = vec![];
		for (i, o) in self.ops.iter().enumerate() {
			let i = i as u32;
			let mut x: Vec<(u8, usize)> = vec![];
			let mut r: Vec<(u8, usize)> = vec![];
			let mut d: Vec<u32> = vec![];
			match o.k {
				K::Words | K::Tokens | K::Class | K::Full | K::Cut | K::Resume | K::Cycle => r.push((1, o.b)),
				K::Bulk | K::Level => {}
				K::DecNew | K::LexNew | K::RdNew => {
					x.push((0, o.s));
					r.push((1, o.b));
					buf_streams.entry(o.b).or_default().push(o.s);
				}
				K::DecClone => {
					x.push((0, o.s));
					x.push((0, o.s2));
					buf_streams.entry(o.b).or_default().push(o.s2);
				}
				K::ArenaDrop => {
					x.push((0, o.s));
					for (c, a) in &cst_arena {
						if *a == o.s {
							x.push((0, *c));
						}
					}
				}
				K::ArenaNew => {
					x.push((0, o.s));
					for (c, a) in &cst_arena {
						if *a == o.s {
							x.push((0, *c));
						}
					}
				}
				K::Parse => {
					x.push((0, o.s));
					x.push((0, o.s2));
					r.push((1, o.b));
					cst_arena.insert(o.s2, o.s);
				}
				K::Walk => r.push((0, o.s)),
				K::BufSet => {
					x.push((1, o.b));
					for s in buf_streams.get(&o.b).cloned().unwrap_or_default() {
						x.push((0, s));
					}
				}
				K::Measure => d.extend(0..i),
				_ => x.push((0, o.s)),
			}
			if matches!(o.fault, Some(f) if matches!(f.kind, FK::LogReenter | FK::VisitReenter)) {
				r.push((1, o.fault.unwrap().b));
			}
			for k in &r {
				if let Some(p) = last_x.get(k) {
					d.push(*p);
				}
			}
			for k in &x {
				if let Some(p) = last_x.get(k) {
					d.push(*p);
				}
				d.extend(readers.get(k).cloned().unwrap_or_default());
			}
			if let Some(m) = last_measure {
				d.push(m);
			}
			for k in r {
				readers.entry(k).or_default().push(i);
			}
			for k in x {
				last_x.insert(k, i);
				readers.remove(&k);
			}
			if o.k == K::Measure {
				last_measure = Some(i);
			}
			d.retain(|p| *p != i);
			d.sort_unstable();
			d.dedup();
			out.push(d);
		}
		out
	}

	pub fn to_json(&self) -> J {
		let i = |x: u64| J::Int(x as i64);
		let style = match &self.style {
			Style::Random { mean } => J::obj(vec![("kind", J::s("random")), ("mean", i(*mean))]),
			Style::Rare { limit, den } => J::obj(vec![("kind", J::s("rare")), ("limit", i(u64::from(*limit))), ("den", i(u64::from(*den)))]),
			Style::Hot { den, mean, stall } => J::obj(vec![("kind", J::s("hot")), ("den", i(u64::from(*den))), ("mean", i(*mean)), ("stall", i(u64::from(*stall)))]),
			Style::Pct { points, span } => J::obj(vec![("kind", J::s("pct")), ("points", i(u64::from(*points))), ("span", i(*span))]),
			Style::OpGrain => J::obj(vec![("kind", J::s("op"))]),
			Style::Stall { victims, mean, convoy } => J::obj(vec![
				("kind", J::s("stall")),
				("victims", J::Arr(victims.iter().map(|(v, at)| J::Arr(vec![i(u64::from(*v)), i(*at)])).collect())),
				("mean", i(*mean)),
				("convoy", J::Bool(*convoy)),
			]),
			Style::Replay => J::obj(vec![("kind", J::s("replay"))]),
		};
		J::obj(vec![
			("format", J::s("snsim-plan-1")),
			("property", J::s(&self.prop)),
			("seed", J::s(self.seed.to_string())),
			("index", i(self.idx)),
			("actors", i(self.actors as u64)),
			("texts", J::Arr(self.texts.iter().map(J::s).collect())),
			(
				"buffers",
				J::Arr(self.bufs.iter().map(|b| J::obj(vec![("text", i(b.text as u64)), ("off", i(b.off as u64)), ("junk", i(u64::from(b.junk))), ("edge", i(b.edge as u64))])).collect()),
			),
			("ops", J::Arr(self.ops.iter().map(op_json).collect())),
			(
				"heap",
				J::obj(vec![("reuse", i(u64::from(self.heap.reuse))), ("gap", J::Bool(self.heap.gap)), ("fill", i(u64::from(self.heap.fill)))]),
			),
			("level", i(u64::from(self.level))),
			("style", style),
			(
				"decisions",
				J::Arr(self.decisions.iter().map(|d| J::Arr(vec![i(u64::from(d.op)), J::Int(d.own as i64), i(u64::from(d.to))])).collect()),
			),
			("clock_mode", i(u64::from(self.clock_mode))),
			("env_mode", i(u64::from(self.env_mode))),
			("spurious", i(u64::from(self.spurious))),
			("strict_stall", J::Bool(self.strict_stall)),
			("check_steps", J::Bool(self.check_steps)),
			("check_trace", J::Bool(self.check_trace)),
			("model", J::Bool(self.model)),
			("stacks", J::Arr(self.stacks.iter().map(|x| i(*x as u64)).collect())),
			("names", J::Bool(self.names)),
			("token_edges", J::Bool(self.token_edges)),
			("fresh_counts", J::Bool(self.fresh_counts)),
		])
	}
	pub fn from_json(j: &J) -> Option<Plan> {
		if j.str("format") != "snsim-plan-1" {
			return None;
		}
		let mut p = Plan::new(j.str("property"), j.str("seed").parse().ok()?, j.int("index") as u64);
		p.actors = j.int("actors") as usize;
		p.texts = j.arr("texts").iter().map(|x| x.as_str().to_string()).collect();
		p.bufs = j
			.arr("buffers")
			.iter()
			.map(|b| Buf { text: b.int("text") as usize, off: b.int("off") as usize, junk: b.int("junk") as u8, edge: b.int("edge") as usize })
			.collect();
		for o in j.arr("ops") {
			p.ops.push(op_from(o)?);
		}
		let h = j.get("heap")?;
		p.heap = Policy { reuse: h.int("reuse") as u8, gap: h.int("gap") != 0, fill: h.int("fill") as u8 };
		p.level = j.int("level") as u8;
		let s = j.get("style")?;
		p.style = match s.str("kind") {
			"random" => Style::Random { mean: s.int("mean") as u64 },
			"rare" => Style::Rare { limit: s.int("limit") as u8, den: s.int("den") as u32 },
			"hot" => Style::Hot { den: s.int("den") as u32, mean: s.int("mean") as u64, stall: s.int("stall") as u32 },
			"pct" => Style::Pct { points: s.int("points") as u32, span: s.int("span") as u64 },
			"op" => Style::OpGrain,
			"stall" => Style::Stall {
				victims: s
					.arr("victims")
					.iter()
					.filter_map(|v| match v {
						J::Arr(v) => Some((v[0].as_int() as u32, v[1].as_int() as u64)),
						_ => None,
					})
					.collect(),
				mean: s.int("mean") as u64,
				convoy: s.int("convoy") != 0,
			},
			"replay" => Style::Replay,
			_ => return None,
		};
		for d in j.arr("decisions") {
			let J::Arr(v) = d else { return None };
			p.decisions.push(Dec { op: v[0].as_int() as u32, own: v[1].as_int() as u64, to: v[2].as_int() as u32 });
		}
		p.clock_mode = j.int("clock_mode") as u8;
		p.env_mode = j.int("env_mode") as u8;
		p.spurious = j.int("spurious") as u32;
		p.strict_stall = j.int("strict_stall") != 0;
		p.check_steps = j.int("check_steps") != 0;
		p.check_trace = j.int("check_trace") != 0;
		p.model = j.int("model") != 0;
		p.stacks = j.arr("stacks").iter().map(|x| x.as_int() as usize).collect();
		p.names = j.int("names") != 0;
		p.token_edges = j.int("token_edges") != 0;
		p.fresh_counts = j.int("fresh_counts") != 0;
		Some(p)
	}
}

fn op_json(o: &Op) -> J {
	let i = |x: u64| J::Int(x as i64);
	let mut v = vec![("actor", i(o.a as u64)), ("op", J::s(o.k.name()))];
	for (n, x) in [("slot", o.s as u64), ("slot2", o.s2 as u64), ("buf", o.b as u64), ("n", o.n)] {
		if x != 0 {
			v.push((n, i(x)));
		}
	}
	if o.rep != 1 {
		v.push(("rep", i(u64::from(o.rep))));
	}
	if let Some(f) = &o.fault {
		let (k, x, y) = match f.kind {
			FK::Oom { min, sticky } => ("oom", min as u64, u64::from(sticky)),
			FK::LogPanic => ("log_panic", 0, 0),
			FK::LogReenter => ("log_reenter", 0, 0),
			FK::LogLevel(l) => ("log_level", u64::from(l), 0),
			FK::VisitPanic => ("visit_panic", 0, 0),
			FK::VisitReenter => ("visit_reenter", 0, 0),
		};
		v.push((
			"fault",
			J::obj(vec![("kind", J::s(k)), ("x", i(x)), ("y", i(y)), ("k", i(f.k)), ("stride", i(f.stride)), ("buf", i(f.b as u64))]),
		));
	}
	J::obj(v)
}
fn op_from(j: &J) -> Option<Op> {
	let k = KINDS.iter().find(|x| x.1 == j.str("op"))?.0;
	let mut o = Op::new(j.int("actor") as usize, k);
	o.s = j.int("slot") as usize;
	o.s2 = j.int("slot2") as usize;
	o.b = j.int("buf") as usize;
	o.n = j.int("n") as u64;
	o.rep = if j.get("rep").is_some() { j.int("rep") as u32 } else { 1 };
	if let Some(f) = j.get("fault") {
		let kind = match f.str("kind") {
			"oom" => FK::Oom { min: f.int("x") as usize, sticky: f.int("y") != 0 },
			"log_panic" => FK::LogPanic,
			"log_reenter" => FK::LogReenter,
			"log_level" => FK::LogLevel(f.int("x") as u8),
			"visit_panic" => FK::VisitPanic,
			"visit_reenter" => FK::VisitReenter,
			_ => return None,
		};
		o.fault = Some(Fault { kind, k: f.int("k") as u64, stride: f.int("stride") as u64, b: f.int("buf") as usize });
	}
	Some(o)
}
