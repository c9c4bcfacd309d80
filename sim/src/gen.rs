//! Plans for each property, drawn from (seed, property, index) alone.
use crate::heap::Policy;
use crate::plan::{Buf, Fault, Op, Plan, FK, K};
use crate::prng::{hash_bytes, Rng, FNV};
use crate::rt::Style;
use crate::text::{self, Profile};

pub const PROPS: [&str; 13] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C15"];

struct G {
	r: Rng,
	p: Plan,
	seed: u64,
	slots: usize,
}

/// Texts come from pools so that their references are shared between runs.
fn pooled(seed: u64, prof: Profile, words: usize, i: usize) -> String {
	let mut r = Rng::new(hash_bytes(seed ^ FNV, format!("{prof:?}{words}:{i}").as_bytes()));
	text::text(&mut r, prof, words)
}

impl G {
	fn text(&mut self, prof: Profile, words: usize) -> String {
		let n = match prof {
			Profile::Grammar => 1500,
			Profile::Cheap => 500,
			_ => 700,
		};
		let i = self.r.below(n);
		pooled(self.seed, prof, words, i)
	}
	fn any_text(&mut self, words: usize) -> String {
		let p = [Profile::Grammar, Profile::Soup, Profile::Quotes, Profile::Pieces, Profile::Cheap][self.r.weighted(&[5, 2, 2, 2, 1])];
		self.text(p, words)
	}
	/// Texts with far more, far longer or far more distant parts than a sentence has, made of
	/// pieces that cost little.
	fn big_text(&mut self, quotes: bool) -> String {
		let mut s = String::new();
		let (a, b) = (self.text(Profile::Pieces, 3), self.text(Profile::Quotes, 3));
		let kinds = if quotes { 6 } else { 5 };
		let goal = [300usize, 1200, 5000, 33_000, 66_500][self.r.weighted(&[4, 4, 3, 1, 2])];
		s.push_str(&a);
		s.push(' ');
		if self.r.chance(1, 16) {
			// many words
			let w = *self.r.pick(&["a", "mi", "an", "on", "an"]);
			let n = if w.ends_with('n') { self.r.range(1000, 8000) } else { self.r.range(100, 500) };
			for i in 0..n {
				s.push_str(if i % 5 == 3 { "en" } else { w });
				s.push(' ');
			}
			s.push_str(&b);
			return s;
		}
		match self.r.below(kinds) {
			0 => {
				// many pauses
				while s.len() < goal {
					s.push_str([" ", " ", ".", "\n", ", "][self.r.below(5)]);
				}
			}
			1 => {
				// one long name
				while s.len() < goal.min(40_000) {
					s.push_str(["ba", "do", "lit", "kan", "o,"][self.r.below(5)]);
				}
				s.push_str("n ");
			}
			2 => {
				// many names
				let n = (goal / 40).clamp(20, 400);
				for _ in 0..n {
					let w = text::name(&mut self.r);
					s.push_str(&w);
					s.push_str([" ", ".", "  "][self.r.below(3)]);
				}
			}
			3 => {
				// many commas
				s.push_str("mi");
				while s.len() < goal.min(3000) {
					s.push(',');
				}
				s.push(' ');
				while s.len() < goal {
					s.push_str(",, ");
				}
			}
			4 => {
				// a piece of many words
				for _ in 0..self.r.range(8, 24) {
					s.push_str(["mi", "do", "lo", "ku", "na", "se"][self.r.below(6)]);
				}
				s.push(' ');
			}
			_ => {
				// a long quotation
				s.push_str("zoi gy ");
				while s.len() < goal {
					s.push_str(["hello ", "g,", ". ", "world.", "gyx ", "\u{e9} "][self.r.below(6)]);
				}
				s.push_str(" gy ");
			}
		}
		s.push_str(&b);
		s
	}
	/// More words than 16 bits count.
	fn huge_text(&mut self) -> String {
		let w = *self.r.pick(&["an ", "in ", "on "]);
		let mut s = w.repeat(66_000);
		s.push_str(&self.text(Profile::Quotes, 4));
		s
	}
	fn buf(&mut self, t: &str) -> usize {
		self.p.buf(t)
	}
	fn slot(&mut self) -> usize {
		self.slots += 1;
		self.slots - 1
	}
	fn push(&mut self, o: Op) -> usize {
		self.p.ops.push(o);
		self.p.ops.len() - 1
	}
	fn style(&mut self) -> Style {
		if self.p.actors < 2 {
			return Style::OpGrain;
		}
		match self.r.weighted(&[5, 4, 3, 1, 4]) {
			0 => Style::Random { mean: [20, 200, 2000, 20_000, 200_000][self.r.below(5)] },
			1 => Style::Rare { limit: self.r.range(1, 4) as u8, den: [2, 8, 40][self.r.below(3)] },
			2 => Style::Pct { points: self.r.range(1, 6) as u32, span: 0 },
			4 => self.hot(false),
			_ => Style::OpGrain,
		}
	}
	fn hot(&mut self, stall: bool) -> Style {
		let stall = if stall { self.r.range(1, self.p.actors - 1) as u32 } else { 0 };
		Style::Hot { den: [2, 5, 20][self.r.below(3)], mean: [2000, 20_000, 2_000_000][self.r.below(3)], stall }
	}
	/// Some of the threads, but not all, stopped at any step of theirs.
	fn stall(&mut self, mean: u64) -> Style {
		let n = if self.r.chance(1, 2) { 1 } else { self.r.range(1, (self.p.actors - 1).max(1)) };
		let mut who: Vec<u32> = (0..self.p.actors as u32).collect();
		while who.len() > n {
			let x = self.r.below(who.len());
			who.remove(x);
		}
		Style::Stall { victims: who.into_iter().map(|v| (v, self.r.u64() >> 1)).collect(), mean, convoy: n > 1 && self.r.chance(2, 3) }
	}
	fn heap(&mut self) -> Policy {
		Policy { reuse: self.r.below(4) as u8, gap: self.r.chance(1, 2), fill: *self.r.pick(&[0, 0xff, 0x5a, 0x61]) }
	}
	fn whole(&mut self, a: usize, b: usize) -> Op {
		let k = [K::Words, K::Tokens, K::Class, K::Full][self.r.weighted(&[3, 3, 2, 4])];
		let n = if k == K::Full { self.r.below(3) as u64 } else { 0 };
		Op::new(a, k).b(b).n(n)
	}
	fn fault(&mut self, kind: FK) -> Fault {
		Fault { kind, k: self.r.u64() >> 1, stride: 0, b: 0 }
	}
	/// A word stream's life: `n` operations on it and its clones.
	fn dec_ops(&mut self, b: usize, actors: &[usize], n: usize, mobile: bool) -> Vec<Op> {
		let mut v = vec![];
		let s0 = self.slot();
		let mut home = *self.r.pick(actors);
		v.push(Op::new(home, K::DecNew).s(s0).b(b));
		let mut live = vec![s0];
		let raws = self.r.chance(2, 3);
		let hints = self.r.chance(2, 3);
		for _ in 0..n {
			if live.is_empty() {
				break;
			}
			if mobile && self.r.chance(1, 4) {
				home = *self.r.pick(actors);
			}
			let x = self.r.below(live.len());
			let s = live[x];
			let o = Op::new(home, K::DecNext).s(s).b(b);
			let w = [14, if raws { 8 } else { 0 }, if hints { 8 } else { 0 }, if live.len() < 4 { 3 } else { 0 }, 1, 2, 1, 1, 1, 2];
			let o = match self.r.weighted(&w) {
				0 => o,
				1 => Op { k: K::DecRaw, ..o },
				2 => Op { k: K::DecHint, ..o },
				3 => {
					let c = self.slot();
					live.push(c);
					Op { k: K::DecClone, ..o }.s2(c)
				}
				4 => {
					live.swap_remove(x);
					Op { k: K::DecDrop, ..o }
				}
				5 => Op { k: K::DecNth, ..o }.n(if self.r.chance(1, 8) { 300 } else { self.r.below(4) as u64 }),
				6 => {
					live.swap_remove(x);
					Op { k: K::DecCount, ..o }
				}
				7 => {
					live.swap_remove(x);
					Op { k: K::DecLast, ..o }
				}
				8 => {
					live.swap_remove(x);
					Op { k: K::DecRest, ..o }
				}
				_ => Op { k: K::DecPeekAll, ..o },
			};
			v.push(o);
		}
		// exhaust some of what is left
		for s in live {
			if self.r.chance(1, 3) {
				v.push(Op::new(home, K::DecRest).s(s).b(b));
			} else if self.r.chance(1, 3) {
				for _ in 0..self.r.range(2, 12) {
					v.push(Op::new(home, if self.r.chance(1, 6) { K::DecHint } else { K::DecNext }).s(s).b(b));
				}
			}
		}
		v
	}
	fn lex_ops(&mut self, b: usize, actors: &[usize], n: usize, mobile: bool) -> Vec<Op> {
		let mut v = vec![];
		let s = self.slot();
		let mut home = *self.r.pick(actors);
		v.push(Op::new(home, K::LexNew).s(s).b(b));
		for _ in 0..n {
			if mobile && self.r.chance(1, 4) {
				home = *self.r.pick(actors);
			}
			let o = Op::new(home, K::LexNext).s(s).b(b);
			match self.r.weighted(&[16, 2, 2, 1, 1, 1]) {
				1 => v.push(Op { k: K::LexHint, ..o }),
				2 => {
					let n = if self.r.chance(1, 8) { 300 } else { self.r.below(4) as u64 };
					v.push(Op { k: K::LexNth, ..o }.n(n));
				}
				3 if self.r.chance(1, 3) => {
					v.push(Op { k: K::LexCount, ..o });
					return v;
				}
				4 if self.r.chance(1, 3) => {
					v.push(Op { k: K::LexDrop, ..o });
					return v;
				}
				5 if self.r.chance(1, 3) => {
					v.push(Op { k: K::LexRest, ..o });
					return v;
				}
				_ => v.push(o),
			}
		}
		if self.r.chance(1, 2) {
			v.push(Op::new(home, K::LexRest).s(s).b(b));
		}
		v
	}
	/// Merge operation sequences, keeping each one's order.
	fn merge(&mut self, mut vs: Vec<Vec<Op>>) {
		for v in &mut vs {
			v.reverse();
		}
		loop {
			vs.retain(|v| !v.is_empty());
			if vs.is_empty() {
				return;
			}
			let x = self.r.below(vs.len());
			// bursts, so that one stream sometimes runs ahead
			for _ in 0..self.r.range(1, 4) {
				if let Some(o) = vs[x].pop() {
					self.p.ops.push(o);
				}
			}
		}
	}
	/// Parse a text into a new tree of the arena.
	fn parse(&mut self, a: usize, arena: usize, b: usize) -> usize {
		let s = self.slot();
		self.push(Op::new(a, K::Parse).s(arena).s2(s).b(b));
		s
	}
}

pub fn gen(prop: &str, seed: u64, idx: u64, thorough: bool) -> Plan {
	let mut h = hash_bytes(FNV, prop.as_bytes());
	h = hash_bytes(h, &seed.to_le_bytes());
	let mut g = G { r: Rng::new(hash_bytes(h, &idx.to_le_bytes())), p: Plan::new(prop, seed, idx), seed: seed ^ hash_bytes(FNV, prop.as_bytes()), slots: 0 };
	g.p.fresh_counts = true;
	match prop {
		"C01" => c01(&mut g),
		"C02" => c02(&mut g),
		"C03" => c03(&mut g),
		"C04" => c04(&mut g),
		"C05" => c05(&mut g),
		"C06" => c06(&mut g),
		"C07" => c07(&mut g),
		"C10" => c10(&mut g),
		"C11" => c11(&mut g),
		"C12" => c12(&mut g),
		"C13" => c13(&mut g),
		"C14" => c14(&mut g, thorough),
		"C15" => c15(&mut g),
		_ => panic!("no such property"),
	}
	// ways of reading a tree; who reads it first
	let mut r = g.r.clone();
	for o in &mut g.p.ops {
		let visited = matches!(o.fault, Some(f) if matches!(f.kind, FK::VisitPanic | FK::VisitReenter));
		if o.k == K::Walk {
			o.n = r.below(6) as u64;
		} else if o.k == K::Parse && !visited && r.chance(if prop == "C10" { 3 } else { 1 }, 4) {
			o.n = 1;
		}
	}
	g.p
}

fn c01(g: &mut G) {
	g.p.actors = if g.r.chance(1, 12) { g.r.range(5, 16) } else { g.r.range(2, 4) };
	let words = g.r.range(2, 7);
	let nb = g.r.range(1, 3);
	let mut bufs = vec![];
	for _ in 0..nb {
		let t = g.any_text(words);
		bufs.push(g.buf(&t));
	}
	if g.r.chance(1, 3) {
		let t = g.p.texts[0].clone();
		let v = text::same_length_variant(&mut g.r, &t);
		bufs.push(g.buf(&v));
	}
	let actors: Vec<usize> = (0..g.p.actors).collect();
	let mut seqs: Vec<Vec<Op>> = vec![];
	// the whole-call programs of each thread
	for a in 0..g.p.actors {
		let mut v = vec![];
		for _ in 0..g.r.range(1, 4) {
			let b = *g.r.pick(&bufs);
			v.push(g.whole(a, b));
		}
		seqs.push(v);
	}
	for _ in 0..g.r.below(3) {
		let b = *g.r.pick(&bufs);
		let n = g.r.range(2, 8);
		let v = if g.r.chance(1, 2) { g.dec_ops(b, &actors, n, true) } else { g.lex_ops(b, &actors, n, true) };
		seqs.push(v);
	}
	if g.r.chance(1, 2) {
		// a shared tree
		let (ar, tr) = (g.slot(), g.slot());
		let b = *g.r.pick(&bufs);
		let mut v = vec![Op::new(0, K::ArenaNew).s(ar), Op::new(0, K::Parse).s(ar).s2(tr).b(b)];
		for _ in 0..g.r.range(2, 5) {
			let a = *g.r.pick(&actors);
			v.push(Op::new(a, K::Walk).s(tr).n(g.r.below(3) as u64));
		}
		seqs.push(v);
	}
	if g.r.chance(1, 3) {
		// separate arenas in use at once
		for &a in &actors {
			let (ar, tr) = (g.slot(), g.slot());
			let b = *g.r.pick(&bufs);
			seqs.push(vec![Op::new(a, K::ArenaNew).s(ar), Op::new(a, K::Parse).s(ar).s2(tr).b(b), Op::new(a, K::Walk).s(tr)]);
		}
	}
	g.merge(seqs);
	g.p.style = g.style();
	if g.r.chance(1, 5) {
		g.p.style = g.stall(20_000);
	}
	if g.r.chance(1, 4) {
		g.p.heap = g.heap();
	}
	if g.r.chance(1, 6) {
		g.p.level = 5;
	}
	g.p.spurious = if g.r.chance(1, 2) { 4 } else { 0 };
}

fn c02(g: &mut G) {
	g.p.model = true;
	g.p.actors = [1, 2, 3][g.r.weighted(&[4, 3, 2])];
	let actors: Vec<usize> = (0..g.p.actors).collect();
	let mut seqs = vec![];
	let big = g.r.chance(1, 5) || g.p.idx % 1499 == 7;
	for _ in 0..if g.p.idx % 1499 == 7 { 1 } else { g.r.range(1, 3) } {
		let t = if big {
			if g.p.idx % 1499 == 7 { g.huge_text() } else { g.big_text(true) }
		} else {
			let p = [Profile::Pieces, Profile::Quotes, Profile::Soup, Profile::Cheap][g.r.weighted(&[6, 2, 2, 2])];
			let n = g.r.range(1, 8);
			g.text(p, n)
		};
		let b = g.buf(&t);
		for _ in 0..g.r.range(1, 2) {
			let n = [4, 12, 30, 60][g.r.below(4)];
			seqs.push(g.dec_ops(b, &actors, n, true));
		}
	}
	g.merge(seqs);
	g.p.style = g.style();
	if g.r.chance(1, 4) {
		g.p.heap = g.heap();
	}
	shift_bufs(g);
}

fn c03(g: &mut G) {
	g.p.model = true;
	g.p.actors = [1, 2, 3][g.r.weighted(&[4, 3, 2])];
	let actors: Vec<usize> = (0..g.p.actors).collect();
	let mut seqs = vec![];
	let big = g.r.chance(1, 6) || g.p.idx % 1499 == 7;
	for _ in 0..if g.p.idx % 1499 == 7 { 1 } else { g.r.range(1, 3) } {
		let t = if big {
			if g.p.idx % 1499 == 7 { g.huge_text() } else { g.big_text(true) }
		} else {
			let p = [Profile::Quotes, Profile::Pieces, Profile::Soup, Profile::Grammar][g.r.weighted(&[8, 2, 2, 1])];
			let n = g.r.range(1, 8);
			g.text(p, n)
		};
		let b = g.buf(&t);
		for _ in 0..g.r.range(1, 2) {
			let n = [4, 10, 20, 40][g.r.below(4)];
			seqs.push(g.lex_ops(b, &actors, n, true));
		}
	}
	g.merge(seqs);
	g.p.style = g.style();
	if g.r.chance(1, 4) {
		g.p.heap = g.heap();
	}
	shift_bufs(g);
}

fn shift_bufs(g: &mut G) {
	if g.r.chance(1, 2) {
		for i in 0..g.p.bufs.len() {
			g.p.bufs[i].off = g.r.below(64);
			g.p.bufs[i].junk = g.r.below(4) as u8;
			if g.r.chance(1, 4) {
				let n = g.p.texts[g.p.bufs[i].text].len();
				g.p.bufs[i].edge = g.r.below(n + 1) + 1;
			}
		}
	}
}

fn c04(g: &mut G) {
	g.p.actors = g.r.range(1, 3);
	let faults = g.r.chance(1, 3);
	if faults && g.r.chance(1, 2) {
		g.p.level = 5;
	}
	let mut seqs = vec![];
	for _ in 0..g.r.range(1, 2) {
		let p = [Profile::Quotes, Profile::Pieces, Profile::Soup, Profile::Grammar, Profile::Cheap][g.r.weighted(&[8, 2, 2, 2, 1])];
		let n = g.r.range(2, 9);
		let t = if g.r.chance(1, 25) { g.big_text(true) } else { g.text(p, n) };
		let b = g.buf(&t);
		let mut v = vec![];
		let a = g.r.below(g.p.actors);
		for _ in 0..g.r.range(1, 8) {
			v.push(Op::new(a, K::Cut).b(b).n(g.r.below(t.len() + 1) as u64));
		}
		if t.len() < 4000 {
			for _ in 0..g.r.below(3) {
				v.push(Op::new(a, K::Resume).b(b).n(g.r.below(20) as u64));
			}
		}
		seqs.push(v);
		// a reader
		let s = g.slot();
		let mut a = g.r.below(g.p.actors);
		let mut v = vec![Op::new(a, K::RdNew).s(s).b(b)];
		let mean = [1, 3, 8, 40][g.r.below(4)].max(t.len() / 24);
		let mut fed = 0;
		while fed < t.len() && v.len() < 60 {
			if g.r.chance(1, 5) {
				a = g.r.below(g.p.actors);
			}
			let n = g.r.geometric(mean as u64) as usize;
			fed += n;
			v.push(Op::new(a, K::RdFeed).s(s).n(n as u64));
			if g.r.chance(2, 3) {
				let mut o = Op::new(a, K::RdPump).s(s).n(u64::from(g.r.chance(1, 3)));
				if faults && g.r.chance(1, 4) {
					o.fault = Some(if g.p.level == 5 && g.r.chance(1, 2) { g.fault(FK::LogPanic) } else { g.fault(FK::Oom { min: 0, sticky: false }) });
				}
				v.push(o);
			}
			if g.r.chance(1, 7) {
				v.push(Op::new(a, K::RdCrash).s(s));
				fed = 0;
			}
		}
		v.push(Op::new(a, K::RdEnd).s(s));
		seqs.push(v);
	}
	g.merge(seqs);
	g.p.style = g.style();
	shift_bufs(g);
}

fn abort_fault(g: &mut G, k: K) -> Option<Fault> {
	let visits = matches!(k, K::Full | K::Walk | K::Parse);
	let kind = match g.r.weighted(&[6, 1, 1, if g.p.level == 5 { 4 } else { 0 }, if visits { 4 } else { 0 }]) {
		0 => FK::Oom { min: 0, sticky: false },
		1 => FK::Oom { min: 0, sticky: true },
		2 => FK::Oom { min: *g.r.pick(&[64, 256, 512, 1024, 4096]), sticky: true },
		3 => FK::LogPanic,
		_ => FK::VisitPanic,
	};
	Some(g.fault(kind))
}

fn c05(g: &mut G) {
	g.p.actors = [1, 2, 3][g.r.weighted(&[4, 3, 1])];
	if g.r.chance(1, 2) {
		g.p.level = 5;
	}
	let words = g.r.range(2, 6);
	let nb = g.r.range(1, 3);
	let mut bufs = vec![];
	for _ in 0..nb {
		let t = g.any_text(words);
		bufs.push(g.buf(&t));
	}
	let actors: Vec<usize> = (0..g.p.actors).collect();
	let sweep = g.r.chance(1, 4);
	let mut seqs = vec![];
	if sweep {
		// abort the same call at many points, checking after each
		let a = 0;
		let b = bufs[0];
		let mut v = vec![];
		for _ in 0..g.r.range(1, 3) {
			let mut o = g.whole(a, b);
			o.rep = g.r.range(6, 30) as u32;
			o.fault = abort_fault(g, o.k);
			if let Some(f) = &mut o.fault {
				f.stride = [1, 1, 2, 7, 41][g.r.below(5)];
				if matches!(f.kind, FK::VisitPanic) && g.r.chance(1, 2) {
					o.rep = g.r.range(30, 120) as u32;
				}
			}
			v.push(o);
			let b2 = *g.r.pick(&bufs);
			v.push(g.whole(a, b2));
		}
		seqs.push(v);
	}
	// streams and arenas that live across aborted calls
	for _ in 0..g.r.below(3) {
		let b = *g.r.pick(&bufs);
		let n = g.r.range(3, 9);
		let mut v = if g.r.chance(1, 2) { g.dec_ops(b, &actors, n, true) } else { g.lex_ops(b, &actors, n, true) };
		if g.r.chance(1, 3) {
			let x = g.r.below(v.len());
			v[x].fault = abort_fault(g, v[x].k);
		}
		seqs.push(v);
	}
	let ar = g.slot();
	let mut v = vec![Op::new(g.r.below(g.p.actors), K::ArenaNew).s(ar)];
	let mut trees = vec![];
	for _ in 0..g.r.range(2, 6) {
		let a = g.r.below(g.p.actors);
		match g.r.below(4) {
			0 | 1 => {
				let t = g.slot();
				let b = *g.r.pick(&bufs);
				let mut o = Op::new(a, K::Parse).s(ar).s2(t).b(b);
				if g.r.chance(1, 2) {
					o.fault = abort_fault(g, o.k);
				}
				v.push(o);
				trees.push(t);
			}
			2 if !trees.is_empty() => {
				let t = *g.r.pick(&trees);
				let mut o = Op::new(a, K::Walk).s(t).n(g.r.below(3) as u64);
				if g.r.chance(1, 3) {
					o.fault = Some(g.fault(FK::VisitPanic));
				}
				v.push(o);
			}
			_ => {
				let b = *g.r.pick(&bufs);
				let mut o = g.whole(a, b);
				if g.r.chance(1, 2) {
					o.fault = abort_fault(g, o.k);
				}
				v.push(o);
			}
		}
	}
	for t in trees {
		v.push(Op::new(g.r.below(g.p.actors), K::Walk).s(t));
	}
	seqs.push(v);
	g.merge(seqs);
	// what everyone gets afterwards
	for a in 0..g.p.actors {
		for _ in 0..g.r.range(1, 2) {
			let b = *g.r.pick(&bufs);
			let o = g.whole(a, b);
			g.push(o);
		}
	}
	g.p.style = g.style();
	if g.r.chance(1, 3) {
		g.p.heap = g.heap();
	}
}

/// A tree of more leaves than 16 bits count.
fn huge_tree(g: &mut G) {
	g.p.actors = g.r.range(1, 2);
	let ar = g.slot();
	g.push(Op::new(0, K::ArenaNew).s(ar));
	let t = format!("la {}", g.r.pick(&["an ", "in ", "on "]).repeat(66_000));
	let b = g.buf(&t);
	let t = g.parse(0, ar, b);
	for _ in 0..2 {
		let n = g.r.below(6) as u64;
		g.push(Op::new(g.p.actors - 1, K::Walk).s(t).n(n));
	}
	g.p.style = g.style();
}

fn c06(g: &mut G) {
	if g.p.idx % 2999 == 11 {
		return huge_tree(g);
	}
	g.p.actors = [1, 2, 3][g.r.weighted(&[5, 2, 1])];
	let words = g.r.range(2, 8);
	let arenas: Vec<usize> = (0..g.r.range(1, 2)).map(|_| g.slot()).collect();
	for &ar in &arenas {
		g.push(Op::new(0, K::ArenaNew).s(ar));
	}
	let mut bufs = vec![];
	for _ in 0..g.r.range(2, 5) {
		let p = [Profile::Grammar, Profile::Soup, Profile::Quotes, Profile::Cheap][g.r.weighted(&[7, 2, 1, 1])];
		let t = if !bufs.is_empty() && g.r.chance(1, 4) {
			let t = g.p.texts[0].clone();
			text::same_length_variant(&mut g.r, &t)
		} else {
			g.text(p, words)
		};
		bufs.push(g.buf(&t));
	}
	if g.r.chance(1, 3) {
		g.p.level = 5;
	}
	let mut trees: Vec<(usize, usize)> = vec![];
	// now and then an arena that has seen very much
	let much = g.p.level == 0 && g.r.chance(1, 40);
	let at = g.r.below(4);
	for i in 0..g.r.range(4, 14) {
		if much && i == at {
			let ar = *g.r.pick(&arenas);
			let big = g.r.below(2);
			let mut o = Op::new(g.r.below(g.p.actors), K::Fill).s(ar).s2(big).n(if big == 1 { 20 } else { 1200 });
			o.b = g.r.below(300);
			g.push(o);
		}
		let a = g.r.below(g.p.actors);
		match g.r.weighted(&[8, 4, 2, 1, 1, 1]) {
			0 => {
				let ar = *g.r.pick(&arenas);
				let b = *g.r.pick(&bufs);
				// sometimes the same tree slot, so that token slices share their address
				let s = if !trees.is_empty() && g.r.chance(1, 3) {
					let s = g.r.pick(&trees).0;
					trees.retain(|t| t.0 != s);
					s
				} else {
					g.slot()
				};
				trees.push((s, ar));
				let mut o = Op::new(a, K::Parse).s(ar).s2(s).b(b);
				if g.r.chance(1, 4) {
					o.fault = abort_fault(g, K::Parse);
				}
				g.push(o);
			}
			1 => {
				if let Some(t) = (!trees.is_empty()).then(|| g.r.pick(&trees).0) {
					let n = g.r.below(6) as u64;
					g.push(Op::new(a, K::Walk).s(t).n(n));
				}
			}
			2 => {
				let ar = *g.r.pick(&arenas);
				g.push(Op::new(a, K::ArenaBytes).s(ar));
			}
			3 => {
				let b = *g.r.pick(&bufs);
				let o = g.whole(a, b);
				g.push(o);
			}
			4 => {
				let ar = *g.r.pick(&arenas);
				trees.retain(|t| t.1 != ar);
				g.push(Op::new(a, K::ArenaNew).s(ar));
			}
			_ => {}
		}
	}
	for (t, _) in trees {
		let a = g.r.below(g.p.actors);
		g.push(Op::new(a, K::Walk).s(t));
	}
	for ar in arenas {
		g.push(Op::new(0, K::ArenaBytes).s(ar));
	}
	g.p.style = g.style();
	if g.r.chance(1, 2) {
		g.p.heap = g.heap();
	}
}

fn c07(g: &mut G) {
	g.p.check_trace = true;
	g.p.actors = [1, 2, 3][g.r.weighted(&[3, 3, 1])];
	g.p.level = if g.r.chance(4, 5) { 5 } else { g.r.below(6) as u8 };
	let switching = g.p.level < 5 || g.r.chance(1, 3);
	let words = g.r.range(1, 5);
	let mut bufs = vec![];
	for _ in 0..g.r.range(1, 3) {
		let t = g.any_text(words);
		bufs.push(g.buf(&t));
	}
	let actors: Vec<usize> = (0..g.p.actors).collect();
	let mut seqs = vec![];
	for a in 0..g.p.actors {
		let mut v = vec![];
		for _ in 0..g.r.range(1, 4) {
			let b = *g.r.pick(&bufs);
			let mut o = g.whole(a, b);
			if g.r.chance(1, 2) {
				let kind = match g.r.weighted(&[3, 3, if switching { 6 } else { 0 }, 2]) {
					0 => FK::LogPanic,
					1 => FK::LogReenter,
					2 => FK::LogLevel(g.r.below(6) as u8),
					_ => FK::Oom { min: 0, sticky: g.r.chance(1, 4) },
				};
				let mut f = g.fault(kind);
				f.b = *g.r.pick(&bufs);
				o.fault = Some(f);
			}
			v.push(o);
			if switching && g.r.chance(1, 3) {
				v.push(Op::new(a, K::Level).n(g.r.below(6) as u64));
			}
		}
		// an unfaulted call last
		let b = *g.r.pick(&bufs);
		v.push(g.whole(a, b));
		seqs.push(v);
	}
	if g.r.chance(1, 2) {
		let b = *g.r.pick(&bufs);
		let n = g.r.range(2, 6);
		let mut v = if g.r.chance(1, 2) { g.dec_ops(b, &actors, n, true) } else { g.lex_ops(b, &actors, n, true) };
		// streams judge transcripts per pull only while no pull is aborted
		if g.r.chance(1, 3) {
			let x = v.len() - 1;
			v[x].fault = Some(g.fault(FK::LogPanic));
		}
		seqs.push(v);
	}
	if switching && !g.p.level_changes() && !seqs.iter().flatten().any(|o| o.k == K::Level || matches!(o.fault, Some(f) if matches!(f.kind, FK::LogLevel(_)))) {
		g.push(Op::new(0, K::Level).n(5));
	}
	g.merge(seqs);
	g.p.style = g.style();
}

fn c10(g: &mut G) {
	if g.p.idx % 1799 == 11 {
		return huge_tree(g);
	}
	g.p.actors = if g.r.chance(1, 8) { g.r.range(5, 16) } else { g.r.range(1, 4) };
	let ar = g.slot();
	g.push(Op::new(0, K::ArenaNew).s(ar));
	let mut trees = vec![];
	let mut bufs = vec![];
	for _ in 0..g.r.range(1, 3) {
		let n = g.r.range(2, 10);
		let p = [Profile::Grammar, Profile::Cheap, Profile::Soup][g.r.weighted(&[8, 1, 1])];
		let t = g.text(p, n);
		let b = g.buf(&t);
		bufs.push(b);
		trees.push(g.parse(0, ar, b));
	}
	for _ in 0..g.r.range(4, 24) {
		let a = g.r.below(g.p.actors);
		let s = *g.r.pick(&trees);
		let mut o = Op::new(a, K::Walk).s(s).n(g.r.below(6) as u64);
		if g.r.chance(1, 3) {
			let k = if g.r.chance(1, 2) { FK::VisitPanic } else { FK::VisitReenter };
			let mut f = g.fault(k);
			f.b = *g.r.pick(&bufs);
			o.fault = Some(f);
		}
		if g.r.chance(1, 6) {
			o.rep = g.r.range(2, 20) as u32;
			if let Some(f) = &mut o.fault {
				f.stride = g.r.below(3) as u64;
				if g.r.chance(1, 2) {
					o.rep = g.r.range(50, 400) as u32;
				}
			}
		}
		g.push(o);
	}
	g.p.style = g.style();
	if let Style::Random { mean } = &mut g.p.style {
		// traversals are short
		*mean = [1, 3, 10, 40, 200][g.r.below(5)];
	}
}

fn c11(g: &mut G) {
	g.p.actors = [1, 2, 3][g.r.weighted(&[5, 2, 1])];
	let words = g.r.range(1, 6);
	g.p.heap = g.heap();
	let base = g.any_text(words);
	let mut texts = vec![base.clone()];
	for _ in 0..g.r.range(1, 4) {
		let t = match g.r.below(4) {
			0 => g.any_text(words),
			1 => base[..base.char_indices().nth(g.r.below(base.chars().count() + 1)).map_or(base.len(), |x| x.0)].to_string(),
			_ => text::same_length_variant(&mut g.r, &base),
		};
		texts.push(t);
	}
	let ids: Vec<usize> = texts.iter().map(|t| g.p.text(t)).collect();
	let nb = g.r.range(1, 2);
	for _ in 0..nb {
		let mut b = Buf { text: *g.r.pick(&ids), off: g.r.below(64), junk: g.r.below(4) as u8, edge: 0 };
		if g.r.chance(1, 3) {
			b.edge = g.r.below(g.p.texts[b.text].len() + 1) + 1;
		}
		g.p.bufs.push(b);
	}
	g.p.token_edges = g.r.chance(1, 3);
	let ar = g.slot();
	g.push(Op::new(0, K::ArenaNew).s(ar));
	let trees = [g.slot(), g.slot()];
	let mut seqs: Vec<Op> = vec![];
	for _ in 0..g.r.range(3, 10) {
		let a = g.r.below(g.p.actors);
		let b = g.r.below(nb);
		match g.r.weighted(&[8, 5, 2, 1, 3]) {
			0 => {
				let o = g.whole(a, b);
				seqs.push(o);
			}
			1 => seqs.push(Op::new(a, K::BufSet).b(b).n(*g.r.pick(&ids) as u64)),
			2 => {
				let s = *g.r.pick(&trees);
				seqs.push(Op::new(a, K::Parse).s(ar).s2(s).b(b));
				seqs.push(Op::new(a, K::Walk).s(s));
			}
			3 => {
				seqs.push(Op::new(a, K::ArenaNew).s(ar));
			}
			_ => {
				let n = g.r.range(1, 5);
				let v = if g.r.chance(1, 2) { g.dec_ops(b, &[a], n, false) } else { g.lex_ops(b, &[a], n, false) };
				seqs.extend(v);
			}
		}
	}
	g.p.ops.extend(seqs);
	g.p.style = g.style();
	if g.r.chance(1, 6) {
		g.p.level = 5;
	}
}

fn c12(g: &mut G) {
	g.p.actors = [1, 2, 4][g.r.weighted(&[5, 2, 1])];
	let words = g.r.range(1, 4);
	g.p.heap = g.heap();
	if g.r.chance(1, 8) {
		// nothing is ever done twice
		for i in 0..8 {
			for (kind, n) in [(8, 600), (1, 100), (3, 60), (5, 60), (9, 60)] {
				let mut o = Op::new(g.r.below(g.p.actors), K::Bulk).s2(kind).n(n);
				o.b = g.r.below(1 << 16) * 8 + i;
				g.p.ops.push(o);
			}
			g.p.ops.push(Op::new(0, K::Measure));
		}
		g.p.style = Style::OpGrain;
		return;
	}
	let mut work = vec![];
	let faulty = g.r.chance(1, 2);
	if faulty && g.r.chance(1, 3) {
		g.p.level = 5;
	}
	// either a few texts in every way, or many kinds of sentence
	let broad = !faulty && g.r.chance(2, 3);
	for i in 0..if broad { 20 } else { 0 } {
		// one part of the grammar after the other
		let t = if i < 16 { crate::grammar::derive_with(&mut g.r, 5, g.p.idx as usize * 16 + i) } else { g.text(Profile::Grammar, 5) };
		let b = g.buf(&t);
		work.push(Op::new(g.r.below(g.p.actors), K::Cycle).b(b).n(g.r.range(4, 5) as u64));
	}
	for _ in 0..if broad { 0 } else { g.r.range(1, 3) } {
		let t = g.any_text(words);
		let b = g.buf(&t);
		let mut o = Op::new(g.r.below(g.p.actors), K::Cycle).b(b).n([0, 1, 2, 3, 4, 4, 4, 5, 5, 5, 6][g.r.below(11)]);
		if faulty && g.r.chance(1, 2) {
			o.fault = abort_fault(g, if o.n == 4 { K::Full } else { K::Words });
		}
		work.push(o);
	}
	if !broad && g.r.chance(1, 6) {
		// one more, with a text that is cheap but of many words
		let t = g.text(Profile::Cheap, 40);
		let b = g.buf(&t);
		work.push(Op::new(0, K::Cycle).b(b).n(g.r.below(7) as u64));
	}
	// repeated equally often between measurements, or twice as often each time (so that a container
	// that grows by doubling shows too); the last measurements repeat work already done by the same
	// threads
	let doubling = !broad && g.r.chance(1, 3);
	let windows = if broad { 8 } else { 12 };
	for i in 0..windows {
		for o in &work {
			let mut o = o.clone();
			if i > 0 && i < 4 && g.r.chance(1, 3) {
				o.a = g.r.below(g.p.actors);
			}
			if doubling && i > 6 {
				o.rep = 1 << (i - 6);
			}
			g.p.ops.push(o);
		}
		g.p.ops.push(Op::new(0, K::Measure));
	}
	g.p.style = g.style();
	if let Style::Rare { den, .. } = &mut g.p.style {
		*den = 200;
	}
	if broad && g.p.actors == 1 {
		g.p.style = Style::OpGrain;
	}
}

fn c13(g: &mut G) {
	g.p.actors = g.r.range(1, 3);
	g.p.clock_mode = g.r.below(3) as u8;
	g.p.env_mode = g.r.below(3) as u8;
	g.p.names = g.r.chance(2, 3);
	g.p.stacks = (0..g.p.actors).map(|_| [8 << 20, 16 << 20, 64 << 20, 512 << 20][g.r.below(4)]).collect();
	let words = g.r.range(1, 6);
	let mut bufs = vec![];
	for _ in 0..g.r.range(1, 3) {
		let mut t = g.any_text(words);
		if g.r.chance(1, 3) {
			t = text::respell(&mut g.r, &t);
		}
		bufs.push(g.buf(&t));
	}
	let actors: Vec<usize> = (0..g.p.actors).collect();
	let mut seqs = vec![];
	for a in 0..g.p.actors {
		let mut v = vec![];
		for _ in 0..g.r.range(2, 6) {
			let b = *g.r.pick(&bufs);
			v.push(g.whole(a, b));
		}
		seqs.push(v);
	}
	let b = *g.r.pick(&bufs);
	let n = g.r.range(2, 8);
	let v = if g.r.chance(1, 2) { g.dec_ops(b, &actors, n, true) } else { g.lex_ops(b, &actors, n, true) };
	seqs.push(v);
	if g.r.chance(1, 3) {
		// enough calls for chance to show
		let mut o = Op::new(*g.r.pick(&actors), K::Bulk).s2([9, 9, 0, 3, 7][g.r.below(5)]);
		o.b = g.r.below(40);
		o.n = 400;
		o.rep = g.r.range(1, 3) as u32;
		seqs.push(vec![o]);
	}
	g.merge(seqs);
	g.p.style = g.style();
	if g.r.chance(1, 6) {
		g.p.level = 5;
	}
}

fn c14(g: &mut G, thorough: bool) {
	g.p.actors = [1, 2][g.r.weighted(&[3, 1])];
	let words = g.r.range(2, 6);
	let mut bufs = vec![];
	for _ in 0..4 {
		let t = g.any_text(words);
		bufs.push(g.buf(&t));
	}
	// The histories: `s2` kind, `b` seed, `n` calls; repeated with `rep` in one process.
	let long = g.p.idx % 4 == 0;
	let n = if long { 3000 } else { [200, 700, 2000][g.r.below(3)] };
	let kinds = if long { 1 } else { g.r.range(1, 3) };
	for _ in 0..kinds {
		let kind = if long { [8, 10, 9, 11, 2, 0, 7, 1][(g.p.idx / 4 % 8) as usize] } else { [0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11][g.r.below(13)] };
		let mut o = Op::new(g.r.below(g.p.actors), K::Bulk).s2(kind);
		o.b = g.r.below(if thorough { 1 << 20 } else { 1 << 16 });
		o.n = n / kinds as u64;
		let heavy = matches!(kind, 4);
		if heavy {
			o.n = o.n.min(300);
		}
		let per = match kind {
			// beyond what 16 bits count
			0 | 1 | 2 | 10 | 11 => 67_000,
			9 => 22_000,
			3 => 20_000,
			4 => 400,
			7 => 30_000,
			_ => 12_000,
		};
		if kind == 8 {
			o.n = if long { 70_000 * if thorough { 2 } else { 1 } } else { [5000, 20_000][g.r.below(2)] };
		}
		o.rep = if kind == 8 {
			1
		} else if long { (per * if thorough { 3 } else { 1 } / o.n).max(1) as u32 } else { g.r.range(1, 4) as u32 };
		g.push(o);
		for _ in 0..2 {
			let b = *g.r.pick(&bufs);
			let a = g.r.below(g.p.actors);
			let o = g.whole(a, b);
			g.push(o);
		}
	}
	// ordinary calls, some of them many times over, some failing
	for _ in 0..g.r.range(1, 3) {
		let b = *g.r.pick(&bufs);
		let a = g.r.below(g.p.actors);
		let mut o = g.whole(a, b);
		o.rep = [1, 8, 60][g.r.below(3)];
		if g.r.chance(1, 3) {
			o.fault = abort_fault(g, o.k);
		}
		g.push(o);
	}
	for a in 0..g.p.actors {
		for &b in &bufs {
			g.push(Op::new(a, K::Full).b(b));
		}
	}
	g.p.style = Style::OpGrain;
	if g.p.actors > 1 && g.r.chance(1, 2) {
		g.p.style = Style::Random { mean: 200_000 };
	}
}

fn c15(g: &mut G) {
	g.p.actors = [1, 2, 3, 4, 5, g.r.range(6, 16)][g.r.weighted(&[4, 6, 6, 8, 4, 1])];
	let words = g.r.range(1, 6);
	let mut bufs = vec![];
	for _ in 0..g.r.range(1, 3) {
		let t = g.any_text(words);
		bufs.push(g.buf(&t));
	}
	let actors: Vec<usize> = (0..g.p.actors).collect();
	let reenter = g.p.actors == 1 || g.r.chance(1, 3);
	if reenter {
		g.p.level = 5;
	} else {
		g.p.check_steps = true;
	}
	let mut seqs = vec![];
	for a in 0..g.p.actors {
		let mut v = vec![];
		for _ in 0..g.r.range(1, 4) {
			let b = *g.r.pick(&bufs);
			let mut o = g.whole(a, b);
			if reenter && g.r.chance(2, 3) {
				let k = if o.k == K::Full && g.r.chance(1, 2) { FK::VisitReenter } else { FK::LogReenter };
				let mut f = g.fault(k);
				f.b = *g.r.pick(&bufs);
				o.fault = Some(f);
			}
			v.push(o);
		}
		seqs.push(v);
	}
	if g.r.chance(1, 2) {
		let b = *g.r.pick(&bufs);
		let n = g.r.range(2, 8);
		let v = if g.r.chance(1, 2) { g.dec_ops(b, &actors, n, true) } else { g.lex_ops(b, &actors, n, true) };
		seqs.push(v);
	}
	if g.r.chance(1, 2) {
		let (ar, tr) = (g.slot(), g.slot());
		let b = *g.r.pick(&bufs);
		let mut v = vec![Op::new(0, K::ArenaNew).s(ar), Op::new(0, K::Parse).s(ar).s2(tr).b(b)];
		for _ in 0..g.r.range(2, 5) {
			let a = *g.r.pick(&actors);
			v.push(Op::new(a, K::Walk).s(tr).n(g.r.below(3) as u64));
		}
		seqs.push(v);
	}
	g.merge(seqs);
	g.p.strict_stall = true;
	g.p.style = if g.p.actors > 1 && g.r.chance(3, 4) {
		if g.r.chance(1, 4) {
			g.hot(true)
		} else {
			{
				let mean = [500, 20_000, 1_000_000][g.r.below(3)];
				g.stall(mean)
			}
		}
	} else {
		g.style()
	};
}
