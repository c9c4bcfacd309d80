//! The sequential reading of a text, written independently of the library: pieces between pauses,
//! the words each piece has on its own (from the library, alone in a fresh process), and what
//! ordinary and raw pulls and the quoting words make of them.
use crate::text::is_sep;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sp(pub usize, pub usize);
impl Sp {
	pub fn show(self) -> String {
		format!("{}..{}", self.0, self.1)
	}
}
pub fn show(s: Option<Sp>) -> String {
	s.map_or("-".into(), Sp::show)
}

/// Pieces of the text: the stretches between separators, empty ones included.
pub fn pieces(t: &str) -> Vec<Sp> {
	let mut v = vec![];
	let mut a = 0;
	for (i, c) in t.char_indices() {
		if is_sep(c) {
			v.push(Sp(a, i));
			a = i + 1;
		}
	}
	v.push(Sp(a, t.len()));
	v
}
/// Pieces that an ordinary pull passes over.
pub fn skipped(s: &str) -> bool {
	s.chars().all(|c| c == ',')
}

/// A text with the words of each of its pieces.
pub struct Reading {
	pub text: String,
	pub pieces: Vec<(Sp, Vec<Sp>)>,
}
impl Reading {
	/// `alone` gives the words of a piece as a text of its own.
	pub fn new(text: &str, mut alone: impl FnMut(&str) -> Option<Vec<Sp>>) -> Option<Reading> {
		let mut v = vec![];
		for p in pieces(text) {
			let s = &text[p.0..p.1];
			let w = if skipped(s) { vec![] } else { alone(s)?.into_iter().map(|w| Sp(w.0 + p.0, w.1 + p.0)).collect() };
			v.push((p, w));
		}
		Some(Reading { text: text.to_string(), pieces: v })
	}
	/// What the words of the whole text must satisfy whatever the morphology: text order, inside
	/// the text, and nothing between them but pauses and commas.
	pub fn words_sound(&self) -> Option<String> {
		let mut at = 0;
		for (p, ws) in &self.pieces {
			for w in ws {
				if w.0 < at || w.1 <= w.0 || w.1 > p.1 || w.0 < p.0 {
					return Some(format!("word {} is out of order or outside its piece {}", w.show(), p.show()));
				}
				if !self.text.is_char_boundary(w.0) || !self.text.is_char_boundary(w.1) {
					return Some(format!("word {} splits a character", w.show()));
				}
				if self.text[at..w.0].chars().any(|c| c != ',' && !is_sep(c)) {
					return Some(format!("text between {} and {} is in no word", at, w.0));
				}
				at = w.1;
			}
		}
		if self.text[at..].chars().any(|c| c != ',' && !is_sep(c)) {
			return Some(format!("text after {at} is in no word"));
		}
		None
	}
}

/// A word stream over a reading.
#[derive(Clone)]
pub struct Stream {
	piece: usize, // next piece to open
	open: Option<(usize, usize)>, // piece being read, next word in it
}
impl Stream {
	pub fn new() -> Stream {
		Stream { piece: 0, open: None }
	}
	pub fn next(&mut self, r: &Reading) -> Option<Sp> {
		loop {
			if let Some((p, w)) = self.open {
				if w < r.pieces[p].1.len() {
					self.open = Some((p, w + 1));
					return Some(r.pieces[p].1[w]);
				}
				self.open = None;
			}
			if self.piece >= r.pieces.len() {
				return None;
			}
			self.open = Some((self.piece, 0));
			self.piece += 1;
		}
	}
	pub fn raw(&mut self, r: &Reading) -> Option<Sp> {
		if let Some((p, w)) = self.open.take() {
			if w < r.pieces[p].1.len() {
				return Some(Sp(r.pieces[p].1[w].0, r.pieces[p].0 .1));
			}
		}
		if self.piece >= r.pieces.len() {
			return None;
		}
		self.piece += 1;
		Some(r.pieces[self.piece - 1].0)
	}
	pub fn remaining(&self, r: &Reading) -> usize {
		let here = self.open.map_or(0, |(p, w)| r.pieces[p].1.len() - w);
		here + r.pieces[self.piece..].iter().map(|p| p.1.len()).sum::<usize>()
	}
}

fn same_delimiter(a: &str, b: &str) -> bool {
	let f = |s: &str| s.chars().filter(|c| *c != ',').collect::<String>();
	f(a) == f(b)
}

/// The token stream of a reading, as rendered items. `class` names the class of a word alone.
pub fn lex(r: &Reading, mut class: impl FnMut(&str) -> Option<String>) -> Option<Vec<String>> {
	let t = |s: Sp| &r.text[s.0..s.1];
	let tok = |c: &str, s: Sp| format!("{c}@{}", s.show());
	let mut st = Stream::new();
	let mut out = vec![];
	while let Some(w) = st.next(r) {
		let c = class(t(w))?;
		match c.trim_end_matches('*') {
			"Zoi" | "Muhoi" | "Sohehai" => {
				let parts = if c.trim_end_matches('*') == "Sohehai" { 2 } else { 1 };
				let Some(mut delim) = st.next(r) else {
					out.push(format!("ERR missing-separator initiator={}", w.show()));
					return Some(out);
				};
				out.push(tok(&c, w));
				for part in 0..parts {
					let mut body: Option<Sp> = None;
					let end = loop {
						let Some(p) = st.raw(r) else {
							out.push(format!("ERR unclosed initiator={} delimiter={}", w.show(), delim.show()));
							return Some(out);
						};
						if same_delimiter(t(p), t(delim)) {
							break p;
						}
						body = Some(Sp(body.map_or(p.0, |b| b.0), p.1));
					};
					if part == 0 {
						out.push(tok("ZoiDelimiter", delim));
					}
					if let Some(b) = body {
						out.push(tok("AnyText", b));
					}
					out.push(tok("ZoiDelimiter", end));
					delim = end;
				}
			}
			"Mehoi" | "Zohoi" | "Dohoi" => {
				out.push(tok(&c, w));
				let Some(p) = st.raw(r) else {
					out.push(format!("ERR pause-quote-eof initiator={}", w.show()));
					return Some(out);
				};
				out.push(tok("AnyText", p));
			}
			"Faho" | "Fahoho" => {
				out.push(tok(&c, w));
				return Some(out);
			}
			_ => out.push(tok(&c, w)),
		}
	}
	Some(out)
}
