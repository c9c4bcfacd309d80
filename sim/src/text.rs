//! Texts: a corpus of short grammatical sentences plus generators biased to what the properties
//! depend on (quotes, pauses, commas, empty pieces, run-together words, near-identical words).
use crate::prng::Rng;

pub static SENTENCES: &str = include_str!("../data/sentences.txt");
pub static CMAVO: &str = include_str!("../data/cmavo.txt");

pub fn sentences() -> Vec<&'static str> {
	SENTENCES.lines().filter(|l| !l.is_empty()).collect()
}
pub static EXPERIMENTAL: &str = include_str!("../data/experimental.txt");
/// Sentences with experimental words in them.
pub fn experimental() -> Vec<&'static str> {
	EXPERIMENTAL.lines().filter(|l| !l.is_empty()).collect()
}
pub fn cmavo() -> Vec<&'static str> {
	CMAVO.lines().filter(|l| !l.is_empty()).collect()
}

pub const COMMON: [&str; 56] = [
	"mi", "do", "ko'a", "ti", "le", "lo", "la", "cu", "ku", "nu", "kei", "i", "ni'o", "je", "bo", "ke", "ke'e", "na", "se", "te", "be", "bei",
	"be'o", "poi", "noi", "ku'o", "pa", "re", "ci", "boi", "ui", "nai", "pu", "ca", "ba", "bai", "lu", "li'u", "to", "toi", "sei", "se'u", "zo",
	"da'o", "y", "bu", "by", "cy", "si", "fa", "fe", "vau", "goi", "ge'u", "coi", "doi",
];
pub const BRIVLA: [&str; 22] = [
	"klama", "broda", "brode", "brodi", "brodo", "brodu", "gerku", "barda", "prami", "djuno", "tcidu", "nanmu", "cmalu", "jbobau", "blanu",
	"citka", "mlatu", "tavla", "cusku", "zdani", "xamgu", "sutra",
];
pub const CMEVLA: [&str; 18] = [
	"djan", "alis", "lojban", "djan,djan", "romas", "tcarlz", "xant", "bab", "an", "klamas", "brodas", "mis", "meris", "tam", "ilmen", "sneturfahin", "z", "m,r",
];
pub const QUOTE1: [&str; 4] = ["zoi", "la'o", "mu'oi", "zoi"];
pub const QUOTE2: [&str; 1] = ["so'e'ai"];
pub const QUOTEP: [&str; 5] = ["me'oi", "zo'oi", "la'oi", "ra'oi", "do'oi"];
pub const DELIMS: [&str; 8] = ["gy", "kuot", "gy", "x", "ly", "djan", "do", "ky"];
pub const FOREIGN: [&str; 20] = ["GY", "Gy", "I\u{307}", "KUOT", "\u{131}", "DJAN", "hello", "world", "gyx", "g,y", "na", "jai", "caf\u{e9}", "\u{1f600}", "x", ",", "zoi", "fa'o", "kuo,t", "I"];
pub const COMPOUND: [&str; 12] = [
	"minajimpe", "lenu", "lemiklama", "mibroda", "ko'anajimpe", "iseki'ubo", "paremu", "lekuku", "mizoi", "mime'oi", "lenuseklama", "docoi",
];
const SEPS: [&str; 8] = [" ", " ", " ", " ", ".", "  ", "\n", ". "];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
	/// Grammatical sentences (possibly joined by i).
	Grammar,
	/// Anything.
	Soup,
	/// Quote-rich.
	Quotes,
	/// Pieces, commas, empties, run-together words.
	Pieces,
	/// Mostly names: nearly free to process.
	Cheap,
}

fn sep(r: &mut Rng) -> &'static str {
	SEPS[r.below(SEPS.len())]
}
/// A random cmevla of 2..=10 letters.
pub fn name(r: &mut Rng) -> String {
	let c = b"bcdfgklmnprstvxz";
	let v = b"aeiou";
	let mut s = String::new();
	for _ in 0..r.range(0, 3) {
		s.push(c[r.below(c.len())] as char);
		s.push(v[r.below(5)] as char);
	}
	if !s.is_empty() {
		s.push(c[r.below(c.len())] as char);
	}
	s.push(v[r.below(5)] as char);
	s.push(c[r.below(c.len())] as char);
	s
}
/// A gismu-shaped word of five letters differing from others in few places.
pub fn gismu(r: &mut Rng) -> String {
	let a = ["br", "bl", "kl", "pl", "ml", "sp", "st", "tc"];
	let mut s = a[r.below(a.len())].to_string();
	s.push(['a', 'o', 'i'][r.below(3)]);
	s.push(['d', 'm', 'n', 'r'][r.below(4)]);
	s.push(['a', 'e', 'i', 'o', 'u'][r.below(5)]);
	s
}

pub fn word(r: &mut Rng) -> String {
	match r.weighted(&[10, 4, 4, 4, 2, 1, 1, 5, 3]) {
		8 => crate::grammar::content_word(r),
		7 => crate::grammar::any_word(r),
		0 => COMMON[r.below(COMMON.len())].to_string(),
		1 => {
			let v = cmavo();
			v[r.below(v.len())].to_string()
		}
		2 => BRIVLA[r.below(BRIVLA.len())].to_string(),
		3 => CMEVLA[r.below(CMEVLA.len())].to_string(),
		4 => COMPOUND[r.below(COMPOUND.len())].to_string(),
		5 => name(r),
		_ => gismu(r),
	}
}

fn commas(r: &mut Rng, w: &str) -> String {
	let mut o = String::new();
	for c in w.chars() {
		if r.chance(1, 5) {
			o.push(',');
		}
		o.push(c);
	}
	if r.chance(1, 3) {
		o.push(',');
	}
	o
}

/// Something that is nearly the delimiter.
fn near(r: &mut Rng, d: &str) -> String {
	match r.below(6) {
		0 => d.to_uppercase(),
		1 => {
			let mut c = d.chars();
			c.next().map_or(String::new(), |f| f.to_uppercase().chain(c).collect())
		}
		2 => d[..d.len() - 1].to_string(),
		3 => format!("{d}{}", r.pick(&["y", "n", "'", "\u{301}", "\u{200b}"])),
		4 => format!("{}{d}", r.pick(&["'", "l", "\u{feff}", "-"])),
		_ => d.replace('y', "i").replace('o', "a").replace('x', "s"),
	}
}

pub fn quote(r: &mut Rng) -> String {
	let lead = if r.chance(1, 4) { *r.pick(&["mi", "lo", "ta"]) } else { "" };
	match r.weighted(&[6, 3, 5]) {
		0 | 1 if r.chance(1, 30) => {
			// the initiator and nothing else
			format!("{}{}", lead, r.pick(&QUOTE1))
		}
		k @ (0 | 1) => {
			let d = *r.pick(&DELIMS);
			let mut s = format!("{}{}{}{}", lead, if k == 0 { *r.pick(&QUOTE1) } else { QUOTE2[0] }, sep(r), d);
			let parts = if k == 0 { 1 } else { 2 };
			for _ in 0..parts {
				for _ in 0..r.range(0, 3) {
					s.push_str(sep(r));
					if r.chance(1, 6) {
						s.push_str(&near(r, d));
					} else if r.chance(2, 3) {
						s.push_str(r.pick(&FOREIGN));
					} else {
						s.push_str(&word(r));
					}
				}
				if r.chance(9, 10) {
					s.push_str(sep(r));
					let dd = if r.chance(1, 5) { commas(r, d) } else { d.to_string() };
					s.push_str(&dd);
				}
			}
			s
		}
		_ => {
			let mut s = format!("{}{}", lead, r.pick(&QUOTEP));
			if r.chance(9, 10) {
				s.push_str(sep(r));
			}
			if r.chance(8, 10) {
				s.push_str(r.pick(&FOREIGN));
			}
			s
		}
	}
}

/// Other ways of writing the same letters: stressed vowels and syllables in capitals, the two
/// other forms of the apostrophe.
/// The same words with capitals and the other forms of the apostrophe.
pub fn respell(r: &mut Rng, s: &str) -> String {
	let style = r.below(5);
	if style == 4 {
		return s.to_uppercase();
	}
	let mut o = String::new();
	let mut loud = false;
	for c in s.chars() {
		if is_sep(c) {
			loud = style == 1 && r.chance(1, 3);
		}
		match c {
			'\'' if style == 3 && r.chance(1, 2) => o.push(if r.chance(1, 2) { 'h' } else { '\u{2019}' }),
			'a' | 'e' | 'i' | 'o' | 'u' if style == 0 && r.chance(1, 4) => o.push(c.to_ascii_uppercase()),
			c if loud || style == 2 && r.chance(1, 5) => o.push(c.to_ascii_uppercase()),
			c => o.push(c),
		}
	}
	o
}

pub fn text(r: &mut Rng, p: Profile, max_words: usize) -> String {
	let s = plain_text(r, p, max_words);
	if r.chance(1, 10) {
		respell(r, &s)
	} else {
		s
	}
}
fn plain_text(r: &mut Rng, p: Profile, max_words: usize) -> String {
	let n = r.range(1, max_words.max(1));
	match p {
		Profile::Grammar => {
			let v = sentences();
			let e = experimental();
			let mut s = if r.chance(1, 2) { crate::grammar::derive(r, max_words.max(2)) } else { String::new() };
			while s.is_empty() || r.chance(1, 3) {
				let t = if r.chance(1, 3) { e[r.below(e.len())] } else { v[r.below(v.len())] };
				let have = s.split(' ').count();
				if !s.is_empty() && have + t.split(' ').count() > max_words {
					break;
				}
				if t.split(' ').count() > max_words.max(3) {
					continue;
				}
				if !s.is_empty() {
					s.push_str(" i ");
				}
				s.push_str(t);
			}
			if r.chance(1, 6) {
				// a near-miss: usually ungrammatical
				let w: Vec<&str> = s.split(' ').collect();
				let k = r.below(w.len() + 1);
				let mut w: Vec<String> = w.into_iter().map(String::from).collect();
				w.insert(k, (*r.pick(&["ku", "be'o", "kei", "le", "cu", "bo"])).to_string());
				s = w.join(" ");
			}
			s
		}
		Profile::Cheap => {
			let mut s = String::new();
			for i in 0..n {
				if i > 0 {
					s.push_str(sep(r));
				}
				if r.chance(1, 4) {
					s.push_str(&name(r));
				} else {
					s.push_str(r.pick(&["djan", "alis", "romas", "bab", "an", "mis", "tam", "ilmen", "xant"]));
				}
			}
			s
		}
		_ => {
			let mut s = String::new();
			if r.chance(1, 6) {
				s.push_str(r.pick(&[" ", ".", "..", ", ", ",", "\n "]));
			}
			let mut i = 0;
			while i < n {
				let w = match p {
					Profile::Quotes => match r.weighted(&[5, 5, 1]) {
						0 => {
							i += 2;
							quote(r)
						}
						1 => word(r),
						_ => "fa'o".to_string(),
					},
					Profile::Pieces => match r.weighted(&[4, 4, 2, 2, 1, 1]) {
						0 => word(r),
						1 => (*r.pick(&COMPOUND)).to_string(),
						2 => {
							let w = word(r);
							commas(r, &w)
						}
						3 => (*r.pick(&["", ",", ",,", "", ".", "!?"])).to_string(),
						4 => (*r.pick(&FOREIGN)).to_string(),
						_ => {
							let mut s = String::new();
							for _ in 0..r.range(2, 5) {
								s.push_str(r.pick(&COMMON));
							}
							s
						}
					},
					_ => match r.weighted(&[14, 1, 1]) {
						0 => word(r),
						1 => {
							i += 2;
							quote(r)
						}
						_ => (*r.pick(&FOREIGN)).to_string(),
					},
				};
				s.push_str(&w);
				i += 1;
				if i < n || r.chance(1, 3) {
					s.push_str(sep(r));
				}
			}
			s
		}
	}
}

/// The same text with every piece replaced by another of the same length where possible.
pub fn same_length_variant(r: &mut Rng, s: &str) -> String {
	let mut o = String::new();
	let mut w = String::new();
	for c in s.chars().chain(std::iter::once('\0')) {
		if c == '\0' || " .\n\t\r?!".contains(c) {
			if !w.is_empty() {
				o.push_str(&swap(r, &w));
				w.clear();
			}
			if c != '\0' {
				o.push(c);
			}
		} else {
			w.push(c);
		}
	}
	if o.len() == s.len() {
		o
	} else {
		s.to_string()
	}
}
fn swap(r: &mut Rng, w: &str) -> String {
	if r.chance(1, 4) {
		return w.to_string();
	}
	let mut pool: Vec<&str> = vec![];
	pool.extend(COMMON.iter().filter(|x| x.len() == w.len() && **x != w));
	pool.extend(BRIVLA.iter().filter(|x| x.len() == w.len() && **x != w));
	pool.extend(CMEVLA.iter().filter(|x| x.len() == w.len() && **x != w));
	pool.extend(COMPOUND.iter().filter(|x| x.len() == w.len() && **x != w));
	pool.extend(["me'oi", "zoi", "fa'o", "mu'oi"].iter().filter(|x| x.len() == w.len() && **x != w));
	if pool.is_empty() {
		// rotate vowels
		return w
			.chars()
			.map(|c| match c {
				'a' => 'e',
				'e' => 'i',
				'i' => 'o',
				'o' => 'u',
				'u' => 'a',
				c => c,
			})
			.collect();
	}
	pool[r.below(pool.len())].to_string()
}

/// Replace some words of a text by others (for shrinking and near-identical histories).
pub fn is_sep(c: char) -> bool {
	".\t\n\r?! ".contains(c)
}
