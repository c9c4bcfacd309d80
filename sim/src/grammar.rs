//! Random texts derived from a transcription of the grammar (`data/grammar.txt`), so that every kind
//! of node, list and error position is met. Only a generator: what such a text means is decided by
//! the oracles, never here.
use crate::prng::Rng;
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone)]
struct Item {
	rule: Option<usize>,
	name: String,
	suffix: u8,
}
struct Grammar {
	alts: Vec<Vec<Vec<Item>>>,
	least: Vec<u32>,
	least_alt: Vec<Vec<u32>>,
	fallback: Vec<Vec<bool>>,
	top: usize,
	frees: usize,
	words: BTreeMap<String, Vec<String>>,
	classes: Vec<String>,
}

fn load() -> Grammar {
	let src = include_str!("../data/grammar.txt");
	let lines: Vec<(&str, &str)> = src.lines().filter(|l| !l.starts_with('#')).filter_map(|l| l.split_once(" = ")).collect();
	let index: BTreeMap<&str, usize> = lines.iter().enumerate().map(|(i, (n, _))| (*n, i)).collect();
	let mut words: BTreeMap<String, Vec<String>> = BTreeMap::new();
	let mut classes = vec![];
	for l in include_str!("../data/words.txt").lines() {
		let mut it = l.split(' ');
		let k = it.next().unwrap().to_string();
		classes.push(k.clone());
		words.insert(k, it.map(String::from).collect());
	}
	let alts: Vec<Vec<Vec<Item>>> = lines
		.iter()
		.map(|(n, body)| {
			body.split(" | ")
				.map(|a| {
					a.split_whitespace()
						.filter(|t| *t != "@" && *t != "~")
						.map(|t| {
							let (name, suffix) = match t.as_bytes()[t.len() - 1] {
								c @ (b'?' | b'*' | b'+') => (&t[..t.len() - 1], c),
								_ => (t, b' '),
							};
							let rule = index.get(name).copied();
							assert!(rule.is_some() || name.starts_with('!') || words.contains_key(name), "grammar: {n}: unknown {name}");
							Item { rule, name: name.to_string(), suffix }
						})
						.collect()
				})
				.collect()
		})
		.collect();
	let fallback: Vec<Vec<bool>> = lines.iter().map(|(_, body)| body.split(" | ").map(|a| !a.trim_start().starts_with("~ ")).collect()).collect();
	// least derivation height of every rule
	let mut least = vec![1000u32; alts.len()];
	let mut least_alt: Vec<Vec<u32>> = alts.iter().map(|a| vec![1000; a.len()]).collect();
	loop {
		let mut changed = false;
		for (i, a) in alts.iter().enumerate() {
			for (j, seq) in a.iter().enumerate() {
				let h = seq.iter().filter(|t| t.suffix == b' ' || t.suffix == b'+').map(|t| t.rule.map_or(0, |r| least[r])).max().unwrap_or(0) + 1;
				if h < least_alt[i][j] {
					least_alt[i][j] = h;
					changed = true;
				}
				if fallback[i][j] && h < least[i] {
					least[i] = h;
					changed = true;
				}
			}
		}
		if !changed {
			break;
		}
	}
	let top = index["top"];
	let frees = index["F"];
	Grammar { alts, least, least_alt, fallback, top, frees, words, classes }
}

fn grammar() -> &'static Grammar {
	static G: OnceLock<Grammar> = OnceLock::new();
	G.get_or_init(load)
}

struct Gen<'a> {
	g: &'static Grammar,
	r: &'a mut Rng,
	out: Vec<String>,
	max: usize,
	experimental: bool,
	/// Expansions still to make before the part being sought, per rule; None once it is in.
	goal: Option<Goal>,
}
/// A part of the grammar to bring in: an item of an alternative of a rule.
#[derive(Clone)]
struct Goal {
	at: (usize, usize, usize),
	dist: Vec<u32>,
}
impl Goal {
	/// The items of the alternatives of all rules, in an order of its own.
	fn nth(g: &Grammar, which: usize) -> Option<Goal> {
		let mut all = vec![];
		for (i, a) in g.alts.iter().enumerate() {
			for (j, seq) in a.iter().enumerate() {
				all.extend((0..seq.len()).map(|k| (i, j, k)));
			}
		}
		let at = all[which.wrapping_mul(613) % all.len()];
		let mut dist = vec![u32::MAX; g.alts.len()];
		dist[at.0] = 0;
		loop {
			let mut changed = false;
			for (i, a) in g.alts.iter().enumerate() {
				let d = a.iter().flatten().filter_map(|t| t.rule).map(|x| dist[x].saturating_add(1)).min().unwrap_or(u32::MAX);
				if d < dist[i] {
					dist[i] = d;
					changed = true;
				}
			}
			if !changed {
				break;
			}
		}
		(dist[g.top] != u32::MAX).then_some(Goal { at, dist })
	}
}
impl Gen<'_> {
	/// The way towards the goal from a rule: alternative, item, and whether that is the goal itself.
	fn way(&mut self, rule: usize) -> Option<(usize, usize, bool)> {
		let goal = self.goal.as_ref()?;
		let d = goal.dist[rule];
		if d == u32::MAX {
			return None;
		}
		if d == 0 {
			return Some((goal.at.1, goal.at.2, true));
		}
		let mut c = vec![];
		for (j, seq) in self.g.alts[rule].iter().enumerate() {
			for (k, t) in seq.iter().enumerate() {
				if t.rule.map_or(false, |x| goal.dist[x] < d) {
					c.push((j, k));
				}
			}
		}
		let (j, k) = c[self.r.below(c.len())];
		Some((j, k, false))
	}
	fn word(&mut self, class: &str) {
		if self.r.chance(1, 60) {
			self.out.push(self.r.pick(&["ba'e", "za'e"]).to_string());
		}
		let star = format!("{class}*");
		let list = match self.g.words.get(&star) {
			Some(l) if self.experimental && self.r.chance(1, 3) => l,
			_ => &self.g.words[class],
		};
		let w = list[self.r.below(list.len())].clone();
		self.out.push(w);
		if self.r.chance(1, 40) {
			let w = *self.r.pick(&["ui", "nai", "cai", "y", "fu'e ui", "da'o", "ia"]);
			self.out.push(w.to_string());
		}
	}
	fn item(&mut self, t: &Item, depth: u32, must: bool) {
		let full = self.out.len() >= self.max;
		let n = if must && t.suffix != b' ' { 1 + usize::from(t.suffix != b'?' && self.r.chance(1, 3)) } else { match t.suffix {
			b' ' => 1,
			b'?' => usize::from(!full && self.r.chance(1, 4)),
			s => {
				let mut n = usize::from(s == b'+');
				while !full && n < 4 && self.r.chance(1, 5) {
					n += 1;
				}
				n
			}
		} };
		for _ in 0..n {
			match t.rule {
				Some(rule) => self.rule(rule, depth.saturating_sub(1)),
				None if t.name == "!zoi" => {
					let d = *self.r.pick(&["gy", "kuot", "x"]);
					let b = *self.r.pick(&["", "hello", "hello world", "na mi", "a . b", "zoi"]);
					self.out.push(format!("zoi {d} {b} {d}").replace("  ", " "));
				}
				None => self.word(&t.name),
			}
		}
	}
	fn rule(&mut self, rule: usize, depth: u32) {
		if let Some((j, k, there)) = self.way(rule) {
			let goal = self.goal.take();
			let g = self.g;
			for (x, t) in g.alts[rule][j].iter().enumerate() {
				if x == k && !there {
					self.goal = goal.clone();
				}
				self.item(t, depth, x == k);
			}
			return;
		}
		if rule == self.g.frees && (self.out.len() >= self.max || depth < 10) {
			return;
		}
		let alts = &self.g.alts[rule];
		let full = self.out.len() >= self.max;
		let j = if full || depth <= self.g.least[rule] {
			let m = self.g.least[rule];
			let c: Vec<usize> = (0..alts.len()).filter(|j| self.g.fallback[rule][*j] && self.g.least_alt[rule][*j] == m).collect();
			c[self.r.below(c.len())]
		} else {
			let c: Vec<usize> = (0..alts.len()).filter(|j| self.g.least_alt[rule][*j] <= depth).collect();
			c[self.r.below(c.len())]
		};
		let g = self.g;
		for t in &g.alts[rule][j] {
			self.item(t, depth, false);
		}
	}
}

/// A text of very roughly `max` words at most; usually grammatical.
pub fn derive(r: &mut Rng, max: usize) -> String {
	let goal = if r.chance(3, 5) { Goal::nth(grammar(), r.below(1 << 20)) } else { None };
	towards(r, max, goal)
}
/// The same with a part of the grammar in it, given by number; all are met when `which` counts up.
pub fn derive_with(r: &mut Rng, max: usize, which: usize) -> String {
	let goal = Goal::nth(grammar(), which);
	towards(r, max, goal)
}
fn towards(r: &mut Rng, max: usize, goal: Option<Goal>) -> String {
	let g = grammar();
	let depth = r.range(70, 140) as u32;
	let mut best: Option<String> = None;
	for _ in 0..12 {
		let experimental = r.chance(1, 2);
		let cap = if goal.is_some() { r.range(1, 3) } else { r.range(2, max.max(3) * 2 / 3 + 1) };
		let mut w = Gen { g, r, out: vec![], max: cap, experimental, goal: goal.clone() };
		w.rule(g.top, depth);
		let n = w.out.len();
		if n == 0 {
			continue;
		}
		let s = w.out.join(" ");
		if s.split(' ').count() <= max {
			return s;
		}
		if best.as_ref().map_or(true, |b| b.len() > s.len()) {
			best = Some(s);
		}
	}
	best.unwrap_or_else(|| "mi klama".to_string())
}

/// A word of any class, every class alike.
pub fn any_word(r: &mut Rng) -> String {
	let g = grammar();
	let l = &g.words[&g.classes[r.below(g.classes.len())]];
	l[r.below(l.len())].clone()
}
/// A word recognised by its form and not from a list.
pub fn content_word(r: &mut Rng) -> String {
	let g = grammar();
	let l = &g.words[["Lujvo", "Fuhivla", "Gismu", "Cmevla"][r.weighted(&[4, 4, 2, 1])]];
	l[r.below(l.len())].clone()
}
