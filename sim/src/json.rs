//! A small JSON value: enough for plans, evidence and replay files.
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
	Null,
	Bool(bool),
	Num(f64),
	Int(i64),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>),
}

impl J {
	pub fn s(x: impl Into<String>) -> J {
		J::Str(x.into())
	}
	pub fn obj(x: Vec<(&str, J)>) -> J {
		J::Obj(x.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
	}
	pub fn get(&self, k: &str) -> Option<&J> {
		match self {
			J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
			_ => None,
		}
	}
	pub fn int(&self, k: &str) -> i64 {
		match self.get(k) {
			Some(J::Int(i)) => *i,
			Some(J::Num(f)) => *f as i64,
			Some(J::Bool(b)) => i64::from(*b),
			_ => 0,
		}
	}
	pub fn str(&self, k: &str) -> &str {
		match self.get(k) {
			Some(J::Str(s)) => s,
			_ => "",
		}
	}
	pub fn arr(&self, k: &str) -> &[J] {
		match self.get(k) {
			Some(J::Arr(s)) => s,
			_ => &[],
		}
	}
	pub fn as_int(&self) -> i64 {
		match self {
			J::Int(i) => *i,
			J::Num(f) => *f as i64,
			_ => 0,
		}
	}
	pub fn as_str(&self) -> &str {
		match self {
			J::Str(s) => s,
			_ => "",
		}
	}
	pub fn render(&self) -> String {
		let mut o = String::new();
		self.write(&mut o, None, 0);
		o
	}
	pub fn pretty(&self) -> String {
		let mut o = String::new();
		self.write(&mut o, Some(4), 0);
		o.push('\n');
		o
	}
	fn write(&self, o: &mut String, depth: Option<usize>, level: usize) {
		let nl = |o: &mut String, l: usize| {
			o.push('\n');
			for _ in 0..l {
				o.push(' ');
			}
		};
		match self {
			J::Null => o.push_str("null"),
			J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
			J::Num(f) => write!(o, "{:.3}", f).unwrap(),
			J::Int(i) => write!(o, "{}", i).unwrap(),
			J::Str(s) => quote(s, o),
			J::Arr(v) => {
				let multi = depth.map_or(false, |d| level < d && v.len() > 1 && v.iter().any(|x| matches!(x, J::Obj(_) | J::Arr(_) | J::Str(_))));
				o.push('[');
				for (i, x) in v.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					if multi {
						nl(o, level + 1);
					}
					x.write(o, if level + 1 < 2 { depth } else { None }, level + 1);
				}
				if multi {
					nl(o, level);
				}
				o.push(']');
			}
			J::Obj(v) => {
				let multi = depth.map_or(false, |d| level < d);
				o.push('{');
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 {
						o.push(',');
					}
					if multi {
						nl(o, level + 1);
					}
					quote(k, o);
					o.push(':');
					x.write(o, depth, level + 1);
				}
				if multi {
					nl(o, level);
				}
				o.push('}');
			}
		}
	}
	pub fn parse(s: &str) -> Option<J> {
		let b = s.as_bytes();
		let mut i = 0;
		let v = val(b, &mut i)?;
		ws(b, &mut i);
		(i == b.len()).then_some(v)
	}
}

fn quote(s: &str, o: &mut String) {
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\t' => o.push_str("\\t"),
			'\r' => o.push_str("\\r"),
			c if (c as u32) < 0x20 || c == '\u{7f}' => write!(o, "\\u{:04x}", c as u32).unwrap(),
			c => o.push(c),
		}
	}
	o.push('"');
}
fn ws(b: &[u8], i: &mut usize) {
	while *i < b.len() && b[*i].is_ascii_whitespace() {
		*i += 1;
	}
}
fn val(b: &[u8], i: &mut usize) -> Option<J> {
	ws(b, i);
	match *b.get(*i)? {
		b'{' => {
			*i += 1;
			let mut v = vec![];
			ws(b, i);
			if b.get(*i) == Some(&b'}') {
				*i += 1;
				return Some(J::Obj(v));
			}
			loop {
				ws(b, i);
				let J::Str(k) = val(b, i)? else { return None };
				ws(b, i);
				if *b.get(*i)? != b':' {
					return None;
				}
				*i += 1;
				v.push((k, val(b, i)?));
				ws(b, i);
				match *b.get(*i)? {
					b',' => *i += 1,
					b'}' => {
						*i += 1;
						return Some(J::Obj(v));
					}
					_ => return None,
				}
			}
		}
		b'[' => {
			*i += 1;
			let mut v = vec![];
			ws(b, i);
			if b.get(*i) == Some(&b']') {
				*i += 1;
				return Some(J::Arr(v));
			}
			loop {
				v.push(val(b, i)?);
				ws(b, i);
				match *b.get(*i)? {
					b',' => *i += 1,
					b']' => {
						*i += 1;
						return Some(J::Arr(v));
					}
					_ => return None,
				}
			}
		}
		b'"' => {
			*i += 1;
			let mut s: Vec<u8> = vec![];
			loop {
				match *b.get(*i)? {
					b'"' => {
						*i += 1;
						return Some(J::Str(String::from_utf8(s).ok()?));
					}
					b'\\' => {
						*i += 1;
						let c = *b.get(*i)?;
						*i += 1;
						match c {
							b'n' => s.push(b'\n'),
							b't' => s.push(b'\t'),
							b'r' => s.push(b'\r'),
							b'u' => {
								let h = std::str::from_utf8(b.get(*i..*i + 4)?).ok()?;
								*i += 4;
								let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
								s.extend_from_slice(c.to_string().as_bytes());
							}
							c => s.push(c),
						}
					}
					c => {
						s.push(c);
						*i += 1;
					}
				}
			}
		}
		b't' => {
			*i += 4;
			Some(J::Bool(true))
		}
		b'f' => {
			*i += 5;
			Some(J::Bool(false))
		}
		b'n' => {
			*i += 4;
			Some(J::Null)
		}
		_ => {
			let st = *i;
			while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
				*i += 1;
			}
			let t = std::str::from_utf8(&b[st..*i]).ok()?;
			if let Ok(n) = t.parse::<i64>() {
				Some(J::Int(n))
			} else {
				t.parse().ok().map(J::Num)
			}
		}
	}
}

pub fn counts(m: &BTreeMap<String, u64>) -> J {
	J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())
}
