//! Executes plans: performs each operation against the real library, collects what it returned and
//! judges it against the expectation computed beforehand.
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};

use sneturfahi::decompose::Decomposer;
use sneturfahi::lex::{Error as LexError, Token};
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::{Arena, Cst, Span};

use crate::plan::{Op, Plan, FK, K};
use crate::prng::{hash_bytes, Rng, FNV};
use crate::rt::{self, outside, probe, set_in_lib, tick};

pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

// ---------------------------------------------------------------- expectations and references

/// What one operation did when it was run alone in a fresh process.
#[derive(Clone, Debug, Default)]
pub struct SoloOp {
	pub out: String,
	pub steps: u64,
	pub allocs: u64,
	pub logs: u64,
	pub visits: u64,
	pub trace: Vec<u64>,
	pub raw: Vec<u8>,
	/// Allocations that stand for the places that allocate.
	pub picks: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Want {
	Exact(String),
	/// A size hint that must admit this number of remaining items.
	Hint(usize),
	/// Judged by the operation itself.
	Any,
}
#[derive(Clone, Debug)]
pub struct Expect {
	pub want: Want,
	/// Transcript to compare with (None: do not compare).
	pub trace: Option<Vec<u64>>,
	pub steps: u64,
	pub allocs: u64,
	pub logs: u64,
	pub visits: u64,
	pub raw: Vec<u8>,
	pub picks: Vec<u64>,
	/// Text of the full token list for truncation operations.
	pub aux: String,
	/// Words of the text used by a re-entrant call.
	pub nested: String,
	/// Steps of that call.
	pub nested_steps: u64,
	pub bulk: Vec<u64>,
}
impl Expect {
	pub fn any() -> Expect {
		Expect {
			want: Want::Any,
			trace: None,
			steps: 0,
			allocs: 0,
			logs: 0,
			visits: 0,
			raw: vec![],
			picks: vec![],
			aux: String::new(),
			nested: String::new(),
			nested_steps: 0,
			bulk: vec![],
		}
	}
}

// ---------------------------------------------------------------- values

/// A stream has no more items than its text has bytes, and perhaps an error.
fn another(n: &mut usize, op: usize) {
	*n += 1;
	let w = w();
	if *n > 64 && !w.solo && *n > 64 + w.plan.texts.iter().map(String::len).max().unwrap_or(0) {
		rt::violation(op as u32, &format!("{}: does not end: {n} items so far", describe(w, op)));
	}
}

trait LexIter {
	fn next(&mut self) -> Option<Result<Token, LexError>>;
	fn nth(&mut self, n: usize) -> Option<Result<Token, LexError>>;
	fn size_hint(&self) -> (usize, Option<usize>);
	fn count(self: Box<Self>) -> usize;
	fn rest(self: Box<Self>, f: &mut dyn FnMut(Result<Token, LexError>));
}
impl<I: Iterator<Item = Result<Token, LexError>>> LexIter for I {
	fn next(&mut self) -> Option<Result<Token, LexError>> {
		Iterator::next(self)
	}
	fn nth(&mut self, n: usize) -> Option<Result<Token, LexError>> {
		Iterator::nth(self, n)
	}
	fn size_hint(&self) -> (usize, Option<usize>) {
		Iterator::size_hint(self)
	}
	fn count(self: Box<Self>) -> usize {
		Iterator::count(*self)
	}
	fn rest(self: Box<Self>, f: &mut dyn FnMut(Result<Token, LexError>)) {
		Iterator::for_each(*self, |x| f(x));
	}
}

struct Reader {
	text: &'static str,
	delivered: usize,
	durable: (usize, Vec<String>, bool),
	volatile: (usize, Vec<String>, bool),
}

enum Slot {
	Empty,
	/// An aborted stream or failed parse: later operations on it are skipped.
	Dead,
	Dec(Decomposer<'static>, i32),
	Lex(Box<dyn LexIter>, i32),
	Arena(Box<Arena>, usize),
	Cst(&'static Cst<'static>, &'static [Token]),
	NoTree(String),
	Reader(Box<Reader>),
}

pub struct World {
	pub plan: &'static Plan,
	pub texts_at: Vec<usize>,
	pub deps: Vec<Vec<u32>>,
	pub done: Vec<AtomicBool>,
	bufs: Vec<(usize, usize)>, // address, capacity
	lens: UnsafeCell<Vec<usize>>,
	slots: Vec<UnsafeCell<Slot>>,
	pub exp: Vec<Expect>,
	solo: bool,
	pub outs: UnsafeCell<Vec<SoloOp>>,
	measures: UnsafeCell<Vec<i64>>,
	cst_arena: UnsafeCell<BTreeMap<usize, usize>>,
	seen_addr: UnsafeCell<BTreeMap<(usize, usize), u64>>,
	stalled_done: UnsafeCell<u64>,
}
pub static mut W: *const World = std::ptr::null();
pub fn w() -> &'static World {
	unsafe { &*W }
}

const TEXT_BASE: usize = 0x6000_0000_0000;
const TEXT_SIZE: usize = 64 << 20;
pub fn map_text() {
	let p = unsafe { rt::raw::mmap_fixed(TEXT_BASE, TEXT_SIZE) };
	assert_eq!(p, TEXT_BASE, "cannot map the text area");
}
/// Token slices given to parses live at fixed addresses, one area per tree slot and per thread, so
/// that later slices reuse the addresses of earlier ones.
const TOKEN_BASE: usize = 0x6100_0000_0000;
const TOKEN_AREA: usize = 1 << 18;
const TOKEN_AREAS: usize = 256;
/// Texts and token slices across address boundaries.
const EDGE_BASE: usize = 0x6200_0000_0000;
const TOKEN_EDGE_BASE: usize = 0x6400_0000_0000;
static mut EDGES_MAPPED: [bool; TOKEN_AREAS] = [false; TOKEN_AREAS];
pub fn map_tokens() {
	let p = unsafe { rt::raw::mmap_fixed(TOKEN_BASE, TOKEN_AREA * TOKEN_AREAS) };
	assert_eq!(p, TOKEN_BASE, "cannot map the token area");
}
fn place_tokens(v: Vec<Token>, area: usize) -> &'static [Token] {
	let size = std::mem::size_of_val(&v[..]);
	if area >= TOKEN_AREAS || size > TOKEN_AREA {
		return Box::leak(v.into_boxed_slice());
	}
	let mut p = (TOKEN_BASE + area * TOKEN_AREA) as *mut Token;
	if w().plan.token_edges {
		let edge = TOKEN_EDGE_BASE + area * (1 << 32);
		unsafe {
			if !EDGES_MAPPED[area] {
				EDGES_MAPPED[area] = true;
				assert_eq!(rt::raw::mmap_fixed(edge - TOKEN_AREA, 2 * TOKEN_AREA), edge - TOKEN_AREA, "cannot map a token area");
			}
		}
		p = (edge - v.len() / 2 * std::mem::size_of::<Token>()) as *mut Token;
	}
	unsafe {
		std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
		std::slice::from_raw_parts(p, v.len())
	}
}
static JUNK: [&[u8]; 4] = [b"\0", b"mi klama zoi gy lo gerku ", b". .!? ", b"\xff\xc3\xe2\x82"];

impl World {
	pub fn new(plan: &'static Plan, exp: Vec<Expect>, solo: bool) -> World {
		let mut at = TEXT_BASE + 4096;
		let mut bufs = vec![];
		let mut lens = vec![];
		for (i, b) in plan.bufs.iter().enumerate() {
			let mut cap = plan.texts[b.text].len();
			for o in &plan.ops {
				if o.k == K::BufSet && o.b == i {
					cap = cap.max(plan.texts[o.n as usize].len());
				}
			}
			let (before, addr, after, end);
			if b.edge == 0 {
				at = (at + 63) & !63;
				before = at;
				addr = before + 64 + b.off;
				after = addr + cap;
				end = after + 64;
				at = end;
				assert!(at < TEXT_BASE + TEXT_SIZE, "text area exhausted");
			} else {
				let edge = EDGE_BASE + (i + 1) * (1 << 33) + [0, 1 << 31, 3 << 16][b.off % 3];
				addr = edge - (b.edge - 1).min(cap);
				(before, after, end) = (addr - 64, addr + cap, addr + cap + 64);
				let p = before & !4095;
				let n = end - p;
				assert_eq!(unsafe { rt::raw::mmap_fixed(p, n) }, p, "cannot map a text");
			}
			if b.junk > 0 {
				let j = JUNK[(b.junk as usize).min(3)];
				for p in (before..addr).chain(after..end) {
					unsafe { *(p as *mut u8) = j[p % j.len()] };
				}
			}
			let t = plan.texts[b.text].as_bytes();
			unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), addr as *mut u8, t.len()) };
			bufs.push((addr, cap));
			lens.push(t.len());
		}
		let n = plan.ops.iter().map(|o| o.s.max(o.s2) + 1).max().unwrap_or(0);
		World {
			plan,
			texts_at: plan.texts_at(),
			deps: plan.deps(),
			done: plan.ops.iter().map(|_| AtomicBool::new(false)).collect(),
			bufs,
			lens: UnsafeCell::new(lens),
			slots: (0..n).map(|_| UnsafeCell::new(Slot::Empty)).collect(),
			exp,
			solo,
			outs: UnsafeCell::new(vec![]),
			measures: UnsafeCell::new(vec![]),
			cst_arena: UnsafeCell::new(BTreeMap::new()),
			seen_addr: UnsafeCell::new(BTreeMap::new()),
			stalled_done: UnsafeCell::new(0),
		}
	}
	#[allow(clippy::mut_from_ref)]
	fn slot(&self, s: usize) -> &mut Slot {
		unsafe { &mut *self.slots[s].get() }
	}
	pub fn text(&self, b: usize) -> &'static str {
		let (addr, _) = self.bufs[b];
		let len = unsafe { (&*self.lens.get())[b] };
		unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(addr as *const u8, len)) }
	}
}
pub fn deps_met(op: u32) -> bool {
	let w = w();
	w.deps[op as usize].iter().all(|d| w.done[*d as usize].load(Ordering::SeqCst))
}

// ---------------------------------------------------------------- aborts

pub struct Injected;
#[derive(Debug)]
pub enum Ab {
	Injected,
	Panic(String),
}
static mut PANIC_MSG: [Option<String>; rt::MAXA] = [const { None }; rt::MAXA];

pub fn install_hooks() {
	std::panic::set_hook(Box::new(|info| {
		outside(|| {
			let a = rt::actor();
			let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
				(*s).to_string()
			} else if let Some(s) = info.payload().downcast_ref::<String>() {
				s.clone()
			} else {
				"?".to_string()
			};
			let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
			if a >= 0 {
				unsafe { PANIC_MSG[a as usize] = Some(format!("{m} at {loc}")) };
			} else {
				eprintln!("panic: {m} at {loc}");
			}
		});
	}));
	std::alloc::set_alloc_error_hook(|_| {
		// what a program with an unwinding allocation-error hook does
		outside(|| resume_unwind(Box::new(Injected)));
	});
}

/// Make a library call: allocations go to the simulated heap, unwinding is caught.
fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Ab> {
	let save = set_in_lib(true);
	let r = catch_unwind(AssertUnwindSafe(f));
	set_in_lib(save);
	r.map_err(|p| {
		let inj = p.is::<Injected>();
		drop(p);
		if inj {
			Ab::Injected
		} else {
			Ab::Panic(unsafe { (*std::ptr::addr_of_mut!(PANIC_MSG))[rt::actor().max(0) as usize].take() }.unwrap_or_default())
		}
	})
}
fn inlib<R>(f: impl FnOnce() -> R) -> R {
	struct Back(bool);
	impl Drop for Back {
		fn drop(&mut self) {
			set_in_lib(self.0);
		}
	}
	let _b = Back(set_in_lib(true));
	f()
}

// ---------------------------------------------------------------- log sink and visitor seams

#[derive(Default)]
struct Seam {
	nest: u32,
	logs: u64,
	visits: u64,
	want: bool,
	trace: Vec<u64>,
	log_panic: Option<u64>,
	log_reenter: Option<u64>,
	log_level: Option<(u64, u8)>,
	visit_panic: Option<u64>,
	visit_reenter: Option<u64>,
	b: usize,
	op: usize,
	fired: bool,
}
static mut SEAMS: [Option<Box<Seam>>; rt::MAXA] = [const { None }; rt::MAXA];
fn seam() -> &'static mut Seam {
	let a = rt::actor().max(0) as usize;
	unsafe { (*std::ptr::addr_of_mut!(SEAMS))[a].get_or_insert_with(|| Box::new(Seam::default())) }
}

struct HashW(u64);
impl std::fmt::Write for HashW {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		self.0 = hash_bytes(self.0, s.as_bytes());
		Ok(())
	}
}
pub struct Sink;
pub static SINK: Sink = Sink;
impl log::Log for Sink {
	fn enabled(&self, _: &log::Metadata<'_>) -> bool {
		true
	}
	fn flush(&self) {}
	fn log(&self, r: &log::Record<'_>) {
		if rt::actor() < 0 {
			return;
		}
		outside(|| {
			let s = seam();
			if s.nest > 0 {
				return;
			}
			tick(rt::SITE_LOG);
			let s = seam();
			if s.want {
				let mut h = HashW(hash_bytes(FNV, &[r.level() as u8]));
				let _ = h.write_fmt(*r.args());
				s.trace.push(h.0);
			}
			let k = s.logs;
			s.logs += 1;
			if let Some((at, l)) = s.log_level {
				if at == k {
					s.fired = true;
					rt::fired(rt::F_LOGLEVEL);
					set_level(l);
				}
			}
			if s.log_reenter == Some(k) {
				s.fired = true;
				rt::fired(rt::F_LOGREENTER);
				nested(s);
			}
			if s.log_panic == Some(k) {
				s.fired = true;
				rt::fired(rt::F_LOGPANIC);
				resume_unwind(Box::new(Injected));
			}
		});
	}
}
/// How often tracing was switched, and where it stands.
static mut LEVEL: (u64, u8) = (0, 0);
pub fn set_level(l: u8) {
	use log::LevelFilter as F;
	unsafe { LEVEL = (LEVEL.0 + 1, l.min(5)) };
	log::set_max_level([F::Off, F::Error, F::Warn, F::Info, F::Debug, F::Trace][l.min(5) as usize]);
}
/// What is called from inside a callback, by the text.
pub fn nested_kind(t: &str) -> K {
	[K::Words, K::Tokens, K::Full, K::Full, K::Class][t.len() % 5]
}
/// A library call made from inside a callback of another one.
fn nested(s: &mut Seam) {
	s.nest += 1;
	probe(rt::P_NESTED_CALL);
	let b = s.b;
	let op = s.op;
	let oom = std::mem::replace(&mut rt::act().oom_at, -1);
	let t = w().text(b);
	let r = match nested_kind(t) {
		K::Tokens => tokens(t).map(|(v, e)| render_tokens(&v, &e)),
		K::Full => full(t, 0),
		K::Class => class(t),
		_ => words(t),
	};
	// and the tree being read once more, from its root
	let o = &w().plan.ops[op];
	let tree = if o.k == K::Walk && r.is_ok() { Some(w().slot(o.s)) } else { None };
	let again = match tree {
		Some(Slot::Cst(c, toks)) => Some(snapshot(c.root(), t.len() as u64 % 3, Some(toks))),
		_ => None,
	};
	rt::act().oom_at = oom;
	let s = seam();
	s.nest -= 1;
	if let (Some(Ok(x)), Want::Exact(y)) = (&again, &w().exp[op].want) {
		if format!("OK\n{x}") != *y {
			rt::violation(op as u32, &format!("a traversal nested in another of the same tree reads\n{x}alone it reads\n{y}"));
		}
	}
	let r = match again {
		Some(Err(e)) => Err(e),
		_ => r,
	};
	match r {
		Ok(o) if o == w().exp[op].nested => {}
		Ok(o) => rt::violation(op as u32, &format!("re-entrant call on {:?} returned {o}, alone it returns {}", w().text(b), w().exp[op].nested)),
		Err(Ab::Panic(m)) => rt::violation(op as u32, &format!("re-entrant call on {:?} panicked: {m}", w().text(b))),
		Err(Ab::Injected) => resume_unwind(Box::new(Injected)),
	}
}
fn visit() {
	tick(rt::SITE_VISIT);
	let s = seam();
	if s.nest > 0 {
		return;
	}
	let k = s.visits;
	s.visits += 1;
	if s.visit_reenter == Some(k) {
		s.fired = true;
		rt::fired(rt::F_VISITREENTER);
		nested(s);
	}
	if s.visit_panic == Some(k) {
		s.fired = true;
		rt::fired(rt::F_VISITPANIC);
		resume_unwind(Box::new(Injected));
	}
}

// ---------------------------------------------------------------- rendering

pub fn span(s: Span) -> String {
	format!("{}..{}", s.start, s.end)
}
fn opt_span(s: Option<Span>) -> String {
	s.map_or("-".into(), span)
}
pub fn token(t: &Token) -> String {
	format!("{:?}{}@{}..{}", t.selmaho, if t.experimental { "*" } else { "" }, t.span.start, t.span.end)
}
pub fn lex_error(e: &LexError, shift: u32) -> String {
	let sp = |s: &Span| format!("{}..{}", s.start + shift, s.end + shift);
	#[allow(unreachable_patterns)]
	match e {
		LexError::DelimitedQuoteMissingSeparator { initiator_span } => format!("ERR missing-separator initiator={}", sp(initiator_span)),
		LexError::DelimitedQuoteUnclosed { initiator_span, starting_delimiter_span } => {
			format!("ERR unclosed initiator={} delimiter={}", sp(initiator_span), sp(starting_delimiter_span))
		}
		LexError::PauseDelimitedQuoteEof { initiator_span } => format!("ERR pause-quote-eof initiator={}", sp(initiator_span)),
		e => format!("ERR {e:?}"),
	}
}
fn item(x: &Result<Token, LexError>) -> String {
	match x {
		Ok(t) => token(t),
		Err(e) => lex_error(e, 0),
	}
}
fn opt_item(x: Option<Result<Token, LexError>>) -> String {
	x.map_or("-".into(), |x| item(&x))
}

// ---------------------------------------------------------------- whole calls

/// All words, as a space-separated list of spans.
pub fn words(t: &'static str) -> Result<String, Ab> {
	let mut o = String::new();
	lib(|| {
		for s in sneturfahi::decompose(t) {
			outside(|| write!(o, "{} ", span(s)).unwrap());
		}
	})?;
	Ok(o)
}
pub fn tokens(t: &'static str) -> Result<(Vec<Token>, Option<LexError>), Ab> {
	let mut v = vec![];
	let mut e = None;
	lib(|| {
		for x in sneturfahi::lex(t) {
			outside(|| match x {
				Ok(t) => v.push(t),
				Err(x) => e = Some(x),
			});
			if e.is_some() {
				break;
			}
		}
	})?;
	Ok((v, e))
}
pub fn render_tokens(v: &[Token], e: &Option<LexError>) -> String {
	let mut o = String::new();
	for t in v {
		o.push_str(&token(t));
		o.push('\n');
	}
	if let Some(e) = e {
		o.push_str(&lex_error(e, 0));
		o.push('\n');
	}
	o
}
fn class(t: &'static str) -> Result<String, Ab> {
	lib(|| sneturfahi::lex::Selmaho::classify(t)).map(|(s, e)| format!("{s:?}{}", if e { "*" } else { "" }))
}

/// Depth-first reading of a tree. Traversal styles: 0 nested callbacks, 1 children collected first,
/// 2 an extra counting pass; 3 to 5 the same, with each node asked about itself only after its
/// children have been read.
struct Walker<'t> {
	out: Vec<String>,
	style: u64,
	leaves: Vec<(u32, u32, String, bool)>,
	problems: Vec<String>,
	_t: std::marker::PhantomData<&'t ()>,
}
impl<'t> Walker<'t> {
	fn node(&mut self, n: &'t dyn TreeNode, depth: usize) {
		let ask = || inlib(|| (n.name(), n.experimental(), n.start_location(), n.end_location()));
		let before = if self.style < 3 { Some(ask()) } else { None };
		let line = self.out.len();
		self.out.push(String::new());
		let first = self.leaves.len();
		let mut kids = 0;
		if self.style % 3 == 2 {
			let mut n2 = 0;
			inlib(|| n.for_each_child(&mut |_| outside(|| n2 += 1)));
		}
		if self.style % 3 == 1 {
			let mut v: Vec<&'t dyn TreeNode> = vec![];
			inlib(|| {
				n.for_each_child(&mut |c| {
					outside(|| {
						visit();
						v.push(c);
					});
				})
			});
			kids = v.len();
			for c in v {
				self.node(c, depth + 1);
			}
		} else {
			inlib(|| {
				n.for_each_child(&mut |c| {
					outside(|| {
						kids += 1;
						visit();
						self.node(c, depth + 1);
					});
				})
			});
		}
		let (name, exp, st, en) = before.unwrap_or_else(ask);
		self.out[line] = match (st, en) {
			(Some(s), Some(e)) => format!("{:depth$}{name}{} {s}..{e}\n", "", if exp { "*" } else { "" }),
			_ => format!("{:depth$}{name}{} {st:?}..{en:?}\n", "", if exp { "*" } else { "" }),
		};
		if kids == 0 {
			if let (Some(s), Some(e)) = (st, en) {
				self.leaves.push((s, e, name.to_string(), exp));
			}
		}
		let mine = &self.leaves[first..];
		let want = (mine.first().map(|x| x.0), mine.last().map(|x| x.1), mine.iter().any(|x| x.3));
		if want != (st, en, exp) && self.problems.len() < 3 {
			self.problems.push(format!("node {name} reports extent {st:?}..{en:?} experimental {exp}, its leaves say {:?}..{:?} {}", want.0, want.1, want.2));
		}
	}
}
/// Reads the tree and checks it against the tokens it was made from.
fn snapshot(root: &'static dyn TreeNode, style: u64, toks: Option<&[Token]>) -> Result<String, Ab> {
	let mut wk = Walker { out: vec![], style, leaves: vec![], problems: vec![], _t: std::marker::PhantomData };
	lib(|| outside(|| wk.node(root, 0)))?;
	if let Some(toks) = toks {
		let want: Vec<(u32, u32, String, bool)> = toks
			.iter()
			.enumerate()
			.map(|(i, t)| {
				// the grammar has names of its own for the parts of a quote
				let name = match (format!("{:?}", t.selmaho).as_str(), wk.leaves.get(i)) {
					("ZoiDelimiter" | "AnyText", Some(l)) => l.2.clone(),
					_ => t.selmaho.as_repr().to_string(),
				};
				(t.span.start, t.span.end, name, t.experimental)
			})
			.collect();
		if wk.leaves != want {
			let i = wk.leaves.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(wk.leaves.len().min(want.len()));
			wk.problems.push(format!("leaves differ from tokens at {i}: {:?} instead of {:?}", wk.leaves.get(i), want.get(i)));
		}
	}
	for p in wk.problems {
		wk.out.push(format!("INCOMPLETE: {p}\n"));
	}
	Ok(wk.out.concat())
}

fn parse_into(toks: &'static [Token], arena: &'static Arena) -> Result<Result<&'static Cst<'static>, String>, Ab> {
	let mut out = Err(String::new());
	lib(|| {
		let r = Cst::parse(toks, arena);
		match r {
			Ok(c) => {
				let c = outside(|| &*Box::leak(Box::new(c)));
				out = Ok(c);
			}
			Err(e) => {
				let loc = toks.len() - e.location.len();
				let inside = e.location.is_empty() || {
					let a = e.location.as_ptr() as usize;
					let b = toks.as_ptr() as usize;
					a >= b && a + std::mem::size_of_val(e.location) == b + std::mem::size_of_val(toks)
				};
				out = Err(outside(|| format!("ERR at {loc}/{} {}{:?}", toks.len(), if inside { "" } else { "(location outside the input) " }, e.error)));
				drop(e);
			}
		}
	})?;
	Ok(out)
}
/// Lex, parse in a fresh arena, read the tree, drop everything.
fn full(t: &'static str, style: u64) -> Result<String, Ab> {
	let (v, e) = tokens(t)?;
	if e.is_some() {
		probe(rt::P_LEX_ERR);
		return Ok(format!("LEXERR {}", render_tokens(&v, &e)));
	}
	let area = rt::actor().max(0) as usize;
	let toks: &'static [Token] = place_tokens(v, if seam().nest > 0 { TOKEN_AREAS - 1 - area } else { area });
	let arena = lib(|| Box::new(Arena::new()))?;
	let ap = Box::into_raw(arena);
	let ar: &'static Arena = unsafe { &*ap };
	let r = match parse_into(toks, ar) {
		Ok(Ok(c)) => {
			probe(rt::P_PARSE_OK);
			snapshot(c.root(), style, Some(toks)).map(|s| format!("OK\n{s}"))
		}
		Ok(Err(e)) => {
			probe(rt::P_PARSE_ERR);
			Ok(e)
		}
		Err(e) => Err(e),
	};
	unsafe {
		lib(|| drop(Box::from_raw(ap)))?;
	}
	r
}

pub fn tokens_from_raw(raw: &[u8]) -> Vec<Token> {
	let n = raw.len() / std::mem::size_of::<Token>();
	let mut v: Vec<Token> = Vec::with_capacity(n);
	unsafe {
		std::ptr::copy_nonoverlapping(raw.as_ptr(), v.as_mut_ptr().cast::<u8>(), n * std::mem::size_of::<Token>());
		v.set_len(n);
	}
	v
}
fn raw_tokens(v: &[Token]) -> Vec<u8> {
	unsafe { std::slice::from_raw_parts(v.as_ptr().cast::<u8>(), std::mem::size_of_val(v)).to_vec() }
}

// ---------------------------------------------------------------- truncation

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
	pub sel: String,
	pub s: u32,
	pub e: u32,
	pub err: bool,
}
pub fn parse_items(s: &str) -> Vec<Item> {
	s.lines()
		.map(|l| {
			if let Some(r) = l.strip_prefix("ERR ") {
				let mut it = Item { sel: l.to_string(), s: 0, e: 0, err: true };
				if let Some(p) = r.find("initiator=") {
					let q = &r[p + 10..];
					let q = q.split(' ').next().unwrap();
					if let Some((a, b)) = q.split_once("..") {
						it.s = a.parse().unwrap();
						it.e = b.parse().unwrap();
					}
				}
				it
			} else {
				let (a, b) = l.rsplit_once('@').unwrap();
				let (s, e) = b.split_once("..").unwrap();
				Item { sel: a.to_string(), s: s.parse().unwrap(), e: e.parse().unwrap(), err: false }
			}
		})
		.collect()
}
/// Number of quote tokens that complete the quote an initiator starts (delimiters+texts are counted by the caller).
fn quote_kind(sel: &str) -> u8 {
	match sel.trim_end_matches('*') {
		"Zoi" | "Muhoi" => 1,
		"Sohehai" => 2,
		"Mehoi" | "Zohoi" | "Dohoi" => 3,
		_ => 0,
	}
}
/// Splits items into groups (a quote stays whole); the flag says whether the group is complete.
pub fn groups(v: &[Item]) -> Vec<(std::ops::Range<usize>, bool)> {
	let mut out = vec![];
	let mut i = 0;
	while i < v.len() {
		if v[i].err {
			out.push((i..i + 1, false));
			i += 1;
			continue;
		}
		let kind = quote_kind(&v[i].sel);
		let start = i;
		i += 1;
		let mut ok = true;
		match kind {
			1 | 2 => {
				let mut delims = 0;
				while delims < kind + 1 && i < v.len() && !v[i].err && (v[i].sel == "ZoiDelimiter" || v[i].sel == "AnyText") {
					if v[i].sel == "ZoiDelimiter" {
						delims += 1;
					}
					i += 1;
				}
				ok = delims == kind + 1;
			}
			3 => {
				ok = i < v.len() && v[i].sel == "AnyText";
				if ok {
					i += 1;
				}
			}
			_ => {}
		}
		if !ok && i < v.len() && v[i].err {
			// the error belongs to the open quote
			i += 1;
		}
		out.push((start..i, ok));
	}
	out
}
fn sep_at_or_after(t: &str, from: usize) -> Option<usize> {
	t.as_bytes()[from..].iter().position(|b| b".\t\n\r?! ".contains(b)).map(|p| p + from)
}
/// How many leading items of `v` are settled given the last pause, and where a reader may resume.
fn settled(t: &str, v: &[Item]) -> (usize, usize, bool) {
	let g = groups(v);
	let (mut n, mut at, mut ended) = (0, 0, false);
	for (i, (r, ok)) in g.iter().enumerate() {
		if !ok {
			break;
		}
		let last = &v[r.end - 1];
		let Some(p) = sep_at_or_after(t, last.e as usize) else { break };
		let next_inside = g.get(i + 1).map_or(false, |(q, _)| (v[q.start].s as usize) <= p);
		if !next_inside {
			n = r.end;
			at = p + 1;
			ended = matches!(last.sel.trim_end_matches('*'), "Faho" | "Fahoho");
		}
	}
	(n, at, ended)
}
fn lex_items(t: &'static str, shift: u32) -> Result<Vec<Item>, Ab> {
	let (v, e) = tokens(t)?;
	let mut v = parse_items(&render_tokens(&v, &None));
	for i in &mut v {
		i.s += shift;
		i.e += shift;
	}
	if let Some(e) = e {
		v.extend(parse_items(&lex_error(&e, shift)));
	}
	Ok(v)
}
fn show(v: &[Item]) -> String {
	v.iter().map(|i| if i.err { i.sel.clone() } else { format!("{}@{}..{}", i.sel, i.s, i.e) }).collect::<Vec<_>>().join("\n")
}
/// The truncation relation between the items of a text and of its prefix of length `k`.
fn check_cut(t: &str, k: usize, f: &[Item], c: &[Item]) -> Option<String> {
	let Some(p) = t.as_bytes()[..k].iter().rposition(|b| b".\t\n\r?! ".contains(b)) else {
		return None;
	};
	let fg = groups(f);
	let mut n = 0;
	let mut open: Option<&Item> = None;
	for (r, ok) in &fg {
		let last = &f[r.end - 1];
		if *ok && last.e as usize <= p {
			n = r.end;
			continue;
		}
		let init = &f[r.start];
		if (init.err || quote_kind(&init.sel) > 0) && init.e as usize <= p {
			open = Some(init);
		}
		break;
	}
	for i in 0..n {
		if c.get(i) != f.get(i) {
			return Some(format!(
				"token {i} ends before the last pause ahead of the cut at {k} but changed: whole text gives {}, the cut text gives {}",
				show(&f[i..=i]),
				c.get(i).map_or("nothing".into(), |x| show(std::slice::from_ref(x)))
			));
		}
	}
	if let Some(init) = open {
		rt::probe(rt::P_CUT_IN_QUOTE);
		let named = c.iter().any(|x| x.err && x.s == init.s && x.e == init.e);
		let cg = groups(c);
		// the piece the cut leaves at the end may happen to be what ends the quote
		let plain = |x: &Item| t[x.s as usize..x.e as usize].replace(',', "");
		let finished_last = cg.iter().any(|(r, ok)| {
			*ok && c[r.start].s == init.s
				&& c[r.start].e == init.e
				&& c[r.end - 1].e as usize > p
				&& (c[r.end - 1].sel != "ZoiDelimiter" || plain(&c[r.end - 1]) == plain(&c[r.start + 1]))
		});
		if !named && !finished_last {
			return Some(format!("the quote opened at {}..{} is open at the cut at {k}, but the cut text gives\n{}", init.s, init.e, show(c)));
		}
	}
	None
}

fn pump(r: &mut Reader, end: bool) -> Result<(), Ab> {
	if r.volatile.2 {
		return Ok(());
	}
	let avail = match std::str::from_utf8(&r.text.as_bytes()[..r.delivered]) {
		Ok(s) => s,
		Err(e) => &r.text[..e.valid_up_to()],
	};
	let ck = r.volatile.0;
	if avail.len() < ck {
		return Ok(());
	}
	let tail: &'static str = &avail[ck..];
	if ck > 0 {
		probe(rt::P_CHECKPOINT_RESUME);
	}
	let v = lex_items(tail, 0)?;
	let (n, at, ended) = if end { (v.len(), tail.len(), true) } else { settled(tail, &v) };
	for i in &v[..n] {
		r.volatile.1.push(if i.err {
			shift_err(&i.sel, ck as u32)
		} else {
			format!("{}@{}..{}", i.sel, i.s + ck as u32, i.e + ck as u32)
		});
	}
	r.volatile.0 += at;
	r.volatile.2 = ended;
	Ok(())
}
fn shift_err(s: &str, by: u32) -> String {
	s.split(' ')
		.map(|w| {
			if let Some((k, v)) = w.split_once('=') {
				if let Some((a, b)) = v.split_once("..") {
					if let (Ok(a), Ok(b)) = (a.parse::<u32>(), b.parse::<u32>()) {
						return format!("{k}={}..{}", a + by, b + by);
					}
				}
			}
			w.to_string()
		})
		.collect::<Vec<_>>()
		.join(" ")
}

// ---------------------------------------------------------------- long histories

pub fn bulk_text(kind: u64, seed: u64, i: u64) -> String {
	let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(i));
	let c = b"bcdfgjklmnprstvxz";
	let v = ["a", "e", "i", "o", "u", "ai", "au", "ei", "oi"];
	match kind {
		7 => {
			// a few grammatical and nearly grammatical sentences over and over
			let v = crate::text::sentences();
			let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(i % BULK_CYCLE));
			loop {
				let t = v[r.below(v.len())];
				let n = t.split(' ').count();
				if n <= 6 {
					let keep = if r.chance(1, 3) { n - 1 } else { n };
					return t.split(' ').take(keep).collect::<Vec<_>>().join(" ");
				}
			}
		}
		10 => {
			// next to nothing to parse
			let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(i % BULK_CYCLE));
			["", "i", "ui", "fa'o", "ku", "be", "co", "zo", "mi", "ni'o", "y", "klama ku", "do", "i ui", "lo'u le'u", "na"][r.below(16)].into()
		}
		11 => {
			// next to nothing to lex, errors included
			let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(i % BULK_CYCLE));
			["", " ", "mi", "zoi", "zoi gy", "zoi gy gy", "zoi gy a gy", "zo'oi", "zo'oi a", "fa'o a", "fa'o", "zoi gy a", ".", "a,", "klama", "so'e'ai"][r.below(16)].into()
		}
		0 => {
			// cmavo-shaped words
			let mut s = String::new();
			if r.chance(5, 6) {
				s.push(c[r.below(c.len())] as char);
			}
			s.push_str(v[r.below(9)]);
			for _ in 0..r.below(3) {
				s.push('\'');
				s.push_str(v[r.below(9)]);
			}
			s
		}
		1 => crate::text::name(&mut r),
		9 => {
			// words of every form
			match r.below(6) {
				0 => crate::text::name(&mut r),
				1 => crate::text::gismu(&mut r),
				2 => crate::grammar::content_word(&mut r),
				3 => crate::grammar::any_word(&mut r),
				4 => {
					// made of gismu-like parts
					let a = crate::text::gismu(&mut r);
					let b = crate::text::gismu(&mut r);
					format!("{}y{b}", &a[..4])
				}
				_ => crate::text::word(&mut r),
			}
		}
		8 if i % BULK_SAMPLE == 0 || i % BULK_SAMPLE == BULK_SAMPLE - 1 => {
			// among them words of every form, each twice; the second call is judged
			let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add((i + 1) / BULK_SAMPLE));
			if r.chance(1, 2) { crate::grammar::any_word(&mut r) } else { crate::text::gismu(&mut r) }
		}
		8 => {
			// words all different: names that spell out a number, in an order of its own
			let mut x = seed.wrapping_mul(1_000_003).wrapping_add(i.wrapping_mul(0x9e37_79b1)) & 0xfff_ffff;
			let mut s = String::new();
			while s.is_empty() || x > 0 {
				s.push(c[x as usize % 16] as char);
				x /= 16;
				s.push_str(["a", "e", "i", "o"][x as usize % 4]);
				x /= 4;
			}
			s.push('n');
			s
		}
		2 | 3 => {
			let mut s = String::new();
			for _ in 0..r.range(1, 6) {
				s.push_str(&crate::text::name(&mut r));
				s.push(' ');
			}
			s
		}
		4 => {
			let mut s = crate::text::name(&mut r);
			s.push(' ');
			s.push_str(["mi", "do", "lo", "ku", "i", "zo", "me'oi", "zoi"][r.below(8)]);
			s
		}
		_ => {
			let mut s = "la ".to_string();
			for _ in 0..r.range(1, 4) {
				s.push_str(&crate::text::name(&mut r));
				s.push(' ');
			}
			s
		}
	}
}
/// Histories of kind 7 repeat this many calls.
pub const BULK_CYCLE: u64 = 24;
/// After how many calls a long history starts over.
pub fn bulk_period(kind: u64) -> u64 {
	if matches!(kind, 7 | 10 | 11) { BULK_CYCLE } else { u64::MAX }
}
/// In histories of kind 8 (words all different) every so many results are compared.
pub const BULK_SAMPLE: u64 = 151;
/// One call of a long history; its result as a hash.
pub fn bulk_call(kind: u64, t: &'static str, toks: &'static [Token]) -> Result<u64, Ab> {
	let o = match kind {
		0 | 1 | 8 | 9 => class(t)?,
		2 => words(t)?,
		3 | 4 | 11 => {
			let (v, e) = tokens(t)?;
			render_tokens(&v, &e)
		}
		_ => {
			// parse of a token list that differs in spans each time
			let arena = lib(|| Box::new(Arena::new()))?;
			let ap = Box::into_raw(arena);
			let r = match parse_into(toks, unsafe { &*ap })? {
				Ok(c) if kind != 7 => snapshot(c.root(), 0, Some(toks))?,
				Ok(_) => "OK".into(),
				Err(e) => e,
			};
			lib(|| drop(unsafe { Box::from_raw(ap) }))?;
			r
		}
	};
	Ok(hash_bytes(FNV, o.as_bytes()))
}
pub fn bulk_tokens(t: &str) -> Vec<Token> {
	// "la name name ..." without calling the library
	let mut v = vec![];
	let mut at = 0u32;
	for (i, w) in t.split(' ').filter(|w| !w.is_empty()).enumerate() {
		v.push(Token {
			selmaho: if i == 0 { sneturfahi::lex::Selmaho::La } else { sneturfahi::lex::Selmaho::Cmevla },
			span: Span { start: at, end: at + w.len() as u32 },
			experimental: false,
		});
		at += w.len() as u32 + 1;
	}
	v
}
fn leak(s: String) -> &'static str {
	Box::leak(s.into_boxed_str())
}

fn cycle(t: &'static str, variant: u64) -> Result<(), Ab> {
	match variant {
		0 | 1 => {
			let mut it = lib(|| sneturfahi::decompose(t))?;
			let n = if variant == 0 { 1 + t.len() / 8 } else { usize::MAX };
			let r = lib(|| {
				let mut k = 0;
				while k < n && Iterator::next(&mut it).is_some() {
					k += 1;
				}
				if n != usize::MAX {
					it.next_no_decomposition();
				}
			});
			if r.is_ok() && variant == 0 {
				let c = lib(|| it.clone());
				drop(it);
				drop(c?);
			}
			r
		}
		2 | 3 => {
			let mut it = lib(|| sneturfahi::lex(t))?;
			let n = if variant == 2 { 1 + t.len() / 8 } else { usize::MAX };
			lib(|| {
				let mut k = 0;
				while k < n && Iterator::next(&mut it).is_some() {
					k += 1;
				}
			})
		}
		4 => full(t, 0).map(drop),
		5 => {
			// tokens collected by the library's caller in one go, several parses in one arena
			let v = lib(|| sneturfahi::lex(t).collect::<Result<Vec<_>, _>>())?;
			if let Ok(v) = v {
				let half = v.len() / 2;
				let r = lib(|| {
					let arena = Arena::new();
					let a = Cst::parse(&v, &arena).is_ok();
					let b = Cst::parse(&v[..half], &arena).is_ok();
					let c = Cst::parse(&v[half..], &arena).is_ok();
					(a, b, c)
				});
				drop(v);
				r?;
			}
			Ok(())
		}
		_ => class(t).map(drop),
	}
}

// ---------------------------------------------------------------- one operation

enum Out {
	Text(String),
	Hint(usize, Option<usize>),
	None,
	Skipped,
}

fn do_op(w: &'static World, i: usize, o: &Op) -> Result<Out, Ab> {
	let me = rt::actor();
	macro_rules! dead {
		() => {
			if matches!(w.slot(o.s), Slot::Dead | Slot::Empty) {
				probe(rt::P_SKIPPED_DEAD);
				return Ok(Out::Skipped);
			}
		};
	}
	macro_rules! dec {
		($it:ident => $e:expr) => {{
			dead!();
			let Slot::Dec($it, owner) = w.slot(o.s) else { rt::harness_error("slot is not a word stream") };
			if *owner != me {
				rt::fired(rt::F_MIGRATE);
				*owner = me;
			}
			let r = lib(|| $e);
			if r.is_err() {
				*w.slot(o.s) = Slot::Dead;
			}
			r?
		}};
	}
	macro_rules! lexs {
		($it:ident => $e:expr) => {{
			dead!();
			let Slot::Lex($it, owner) = w.slot(o.s) else { rt::harness_error("slot is not a token stream") };
			if *owner != me {
				rt::fired(rt::F_MIGRATE);
				*owner = me;
			}
			let r = lib(|| $e);
			if r.is_err() {
				*w.slot(o.s) = Slot::Dead;
			}
			r?
		}};
	}
	let note_addr = |t: &'static str| {
		if !w.solo {
			let m = unsafe { &mut *w.seen_addr.get() };
			let h = hash_bytes(FNV, t.as_bytes());
			if m.insert((t.as_ptr() as usize, t.len()), h).map_or(false, |x| x != h) {
				probe(rt::P_SAME_ADDR_NEW_TEXT);
			}
		}
	};
	let txt = |s: String| Ok(Out::Text(s));
	match o.k {
		K::Words => {
			note_addr(w.text(o.b));
			txt(words(w.text(o.b))?)
		}
		K::Tokens => {
			note_addr(w.text(o.b));
			let (v, e) = tokens(w.text(o.b))?;
			if w.solo {
				unsafe { (*w.outs.get()).last_mut().unwrap().raw = raw_tokens(&v) };
			}
			txt(render_tokens(&v, &e))
		}
		K::Class => {
			note_addr(w.text(o.b));
			txt(class(w.text(o.b))?)
		}
		K::Full => {
			note_addr(w.text(o.b));
			txt(full(w.text(o.b), o.n)?)
		}
		K::DecNew => {
			note_addr(w.text(o.b));
			let t = w.text(o.b);
			let it = lib(|| sneturfahi::decompose(t))?;
			*w.slot(o.s) = Slot::Dec(it, me);
			Ok(Out::None)
		}
		K::DecNext => txt(opt_span(dec!(it => it.next()))),
		K::DecRaw => {
			let r = dec!(it => it.next_no_decomposition());
			if let Some(s) = r {
				if s.start == s.end {
					probe(rt::P_RAW_EMPTY);
				} else if s.start > 0 && !crate::text::is_sep(w.text(o.b).as_bytes().get(s.start as usize - 1).map_or(' ', |b| *b as char)) {
					probe(rt::P_RAW_MIDCHUNK);
				}
			}
			txt(opt_span(r))
		}
		K::DecNth => txt(opt_span(dec!(it => it.nth(o.n as usize)))),
		K::DecHint => {
			let (a, b) = dec!(it => it.size_hint());
			if a > 0 {
				probe(rt::P_HINT_NONZERO);
			}
			Ok(Out::Hint(a, b))
		}
		K::DecClone => {
			let c = dec!(it => it.clone());
			*w.slot(o.s2) = Slot::Dec(c, me);
			Ok(Out::None)
		}
		K::DecPeekAll => {
			// what printing a stream does: read a clone to the end
			let mut s = String::new();
			dec!(it => for x in it.clone() { outside(|| write!(s, "{} ", span(x)).unwrap()) });
			txt(s)
		}
		K::DecCount | K::DecLast | K::DecRest => {
			dead!();
			let Slot::Dec(it, owner) = std::mem::replace(w.slot(o.s), Slot::Dead) else { rt::harness_error("slot is not a word stream") };
			if owner != me {
				rt::fired(rt::F_MIGRATE);
			}
			let mut s = String::new();
			match o.k {
				K::DecCount => s = lib(|| it.count())?.to_string(),
				K::DecLast => s = opt_span(lib(|| it.last())?),
				_ => {
					let mut n = 0;
					lib(|| {
						it.for_each(|x| {
							outside(|| {
								another(&mut n, i);
								write!(s, "{} ", span(x)).unwrap();
							})
						})
					})?;
				}
			}
			txt(s)
		}
		K::DecDrop => {
			dead!();
			rt::fired(rt::F_ABANDON);
			let it = std::mem::replace(w.slot(o.s), Slot::Empty);
			lib(|| drop(it))?;
			Ok(Out::None)
		}
		K::LexNew => {
			note_addr(w.text(o.b));
			let t = w.text(o.b);
			let it = lib(|| sneturfahi::lex(t))?;
			let b: Box<dyn LexIter> = Box::new(it);
			*w.slot(o.s) = Slot::Lex(b, me);
			Ok(Out::None)
		}
		K::LexNext => {
			let r = lexs!(it => it.next());
			if let Some(Ok(t)) = &r {
				if format!("{:?}", t.selmaho) == "ZoiDelimiter" {
					probe(rt::P_QUOTE_TOKENS);
				}
			}
			if matches!(r, Some(Err(_))) {
				probe(rt::P_LEX_ERR);
			}
			if r.is_none() {
				probe(rt::P_PULL_AFTER_END);
			}
			txt(opt_item(r))
		}
		K::LexNth => txt(opt_item(lexs!(it => it.nth(o.n as usize)))),
		K::LexHint => {
			let (a, b) = lexs!(it => it.size_hint());
			Ok(Out::Hint(a, b))
		}
		K::LexCount | K::LexRest => {
			dead!();
			let Slot::Lex(it, owner) = std::mem::replace(w.slot(o.s), Slot::Dead) else { rt::harness_error("slot is not a token stream") };
			if owner != me {
				rt::fired(rt::F_MIGRATE);
			}
			let mut s = String::new();
			if o.k == K::LexCount {
				s = lib(|| it.count())?.to_string();
			} else {
				let mut n = 0;
				lib(|| {
					it.rest(&mut |x| {
						outside(|| {
							another(&mut n, i);
							s.push_str(&(item(&x) + "\n"));
						})
					})
				})?;
			}
			txt(s)
		}
		K::LexDrop => {
			dead!();
			rt::fired(rt::F_ABANDON);
			let it = std::mem::replace(w.slot(o.s), Slot::Empty);
			lib(|| drop(it))?;
			Ok(Out::None)
		}
		K::ArenaNew | K::ArenaDrop => {
			// trees of the arena go first
			for (c, a) in unsafe { &*w.cst_arena.get() } {
				if *a == o.s {
					*w.slot(*c) = Slot::Empty;
				}
			}
			let old = std::mem::replace(w.slot(o.s), Slot::Empty);
			lib(|| drop(old))?;
			if o.k == K::ArenaNew {
				let a = lib(|| Box::new(Arena::new()))?;
				*w.slot(o.s) = Slot::Arena(a, 0);
			}
			Ok(Out::None)
		}
		K::ArenaBytes => {
			let Slot::Arena(a, last) = w.slot(o.s) else { return Ok(Out::Skipped) };
			let n = lib(|| a.allocated_bytes())?;
			if n < *last {
				rt::violation(i as u32, &format!("the arena's reported size went from {last} down to {n}"));
			}
			*last = n;
			Ok(Out::None)
		}
		K::Fill => {
			let Slot::Arena(a, last) = w.slot(o.s) else { return Ok(Out::Skipped) };
			let ar: &'static Arena = unsafe { &*std::ptr::from_ref(&**a) };
			for j in 0..o.n {
				let names = 1 + (j * 7 + o.b as u64) % if o.s2 == 1 { 300 } else { 6 };
				let mut t = "la".to_string();
				for x in 0..names {
					t.push_str([" a", " nan", " djan", " alis"][((x + j) % 4) as usize]);
				}
				let v = bulk_tokens(if j % 5 == 4 { "la" } else { &t });
				let toks = place_tokens(v, rt::actor().max(0) as usize);
				let r = parse_into(toks, ar)?;
				if r.is_ok() == (j % 5 == 4) {
					rt::violation(i as u32, &format!("parse {j} in the same arena of {} token(s) la, cmevla, cmevla, ...: {:?}", toks.len(), r.err()));
				}
				probe(rt::P_BULK_CALLS);
				let n = lib(|| ar.allocated_bytes())?;
				if n < *last {
					rt::violation(i as u32, &format!("the arena's reported size went from {last} down to {n}"));
				}
				*last = n;
			}
			Ok(Out::None)
		}
		K::Parse => {
			let v = if w.solo {
				let (v, e) = tokens(w.text(o.b))?;
				if e.is_some() {
					probe(rt::P_LEX_ERR);
					return txt("LEXERR".into());
				}
				unsafe { (*w.outs.get()).last_mut().unwrap().raw = raw_tokens(&v) };
				rt::rebase();
				seam().logs = 0;
				rt::act().allocs = 0;
				rt::alloc_sites_reset();
				seam().trace.clear();
				v
			} else {
				if matches!(&w.exp[i].want, Want::Exact(s) if s == "LEXERR") {
					unsafe { (*w.cst_arena.get()).insert(o.s2, o.s) };
					*w.slot(o.s2) = Slot::NoTree("LEXERR".into());
					return txt("LEXERR".into());
				}
				tokens_from_raw(&w.exp[i].raw)
			};
			unsafe { (*w.cst_arena.get()).insert(o.s2, o.s) };
			*w.slot(o.s2) = Slot::Dead;
			let Slot::Arena(a, _) = w.slot(o.s) else { return Ok(Out::Skipped) };
			let toks: &'static [Token] = place_tokens(v, rt::MAXA + o.s2);
			let ar: &'static Arena = unsafe { &*std::ptr::from_ref(&**a) };
			match parse_into(toks, ar)? {
				Ok(c) => {
					probe(rt::P_PARSE_OK);
					if o.n == 1 {
						// the first reading is left to others
						*w.slot(o.s2) = Slot::Cst(c, toks);
						return txt("OK unread".into());
					}
					let s = snapshot(c.root(), 0, Some(toks))?;
					*w.slot(o.s2) = Slot::Cst(c, toks);
					txt(format!("OK\n{s}"))
				}
				Err(e) => {
					probe(rt::P_PARSE_ERR);
					*w.slot(o.s2) = Slot::NoTree(e.clone());
					txt(e)
				}
			}
		}
		K::Walk => match w.slot(o.s) {
			Slot::Cst(c, toks) => {
				probe(rt::P_TREE_REREAD);
				let s = snapshot(c.root(), o.n, Some(toks))?;
				txt(format!("OK\n{s}"))
			}
			Slot::NoTree(e) => txt(e.clone()),
			_ => Ok(Out::Skipped),
		},
		K::BufSet => {
			let t = w.plan.texts[o.n as usize].as_bytes();
			// streams reading the buffer end here
			for (j, p) in w.plan.ops[..i].iter().enumerate() {
				if p.b == o.b && matches!(p.k, K::DecNew | K::LexNew | K::RdNew | K::DecClone) && w.done[j].load(Ordering::SeqCst) {
					let s = if p.k == K::DecClone { p.s2 } else { p.s };
					if matches!(w.slot(s), Slot::Dec(..) | Slot::Lex(..) | Slot::Reader(_)) {
						*w.slot(s) = Slot::Dead;
					}
				}
			}
			rt::fired(rt::F_REWRITE);
			unsafe {
				std::ptr::copy_nonoverlapping(t.as_ptr(), w.bufs[o.b].0 as *mut u8, t.len());
				(&mut *w.lens.get())[o.b] = t.len();
			}
			Ok(Out::None)
		}
		K::Level => {
			rt::fired(rt::F_LOGLEVEL);
			set_level(o.n as u8);
			Ok(Out::None)
		}
		K::Cut => {
			let t = w.text(o.b);
			let mut k = (o.n as usize).min(t.len());
			while !t.is_char_boundary(k) {
				k -= 1;
			}
			rt::fired(rt::F_CUT);
			let c = lex_items(&t[..k], 0)?;
			let f = parse_items(&w.exp[i].aux);
			if let Some(m) = check_cut(t, k, &f, &c) {
				rt::violation(i as u32, &format!("truncating {t:?}: {m}"));
			}
			Ok(Out::None)
		}
		K::Resume => {
			let t = w.text(o.b);
			let f = parse_items(&w.exp[i].aux);
			// every settled boundary of the whole text; the n-th is used
			let g = groups(&f);
			let mut at = vec![(0usize, 0usize)];
			for (x, (r, ok)) in g.iter().enumerate() {
				let last = &f[r.end - 1];
				if !ok || matches!(last.sel.trim_end_matches('*'), "Faho" | "Fahoho") {
					break;
				}
				let Some(p) = sep_at_or_after(t, last.e as usize) else { break };
				if !g.get(x + 1).map_or(false, |(q, _)| (f[q.start].s as usize) <= p) {
					at.push((r.end, p + 1));
				}
			}
			let (n, pos) = at[o.n as usize % at.len()];
			probe(rt::P_CHECKPOINT_RESUME);
			let c = lex_items(&t[pos..], pos as u32)?;
			if c != f[n..] {
				rt::violation(
					i as u32,
					&format!("resuming {t:?} at the pause boundary {pos} gives\n{}\ninstead of the rest of the whole text's tokens\n{}", show(&c), show(&f[n..])),
				);
			}
			Ok(Out::None)
		}
		K::RdNew => {
			*w.slot(o.s) = Slot::Reader(Box::new(Reader {
				text: w.text(o.b),
				delivered: 0,
				durable: (0, vec![], false),
				volatile: (0, vec![], false),
			}));
			Ok(Out::None)
		}
		K::RdFeed | K::RdPump | K::RdCrash | K::RdEnd => {
			dead!();
			let Slot::Reader(r) = w.slot(o.s) else { rt::harness_error("slot is not a reader") };
			match o.k {
				K::RdFeed => {
					rt::fired(rt::F_FRAGMENT);
					r.delivered = (r.delivered + o.n as usize).min(r.text.len());
				}
				K::RdCrash => {
					rt::fired(rt::F_CRASH);
					r.volatile = r.durable.clone();
					if r.delivered > r.volatile.0 {
						rt::fired(rt::F_REDELIVER);
					}
					r.delivered = r.volatile.0;
				}
				K::RdPump => {
					if let Err(e) = pump(r, false) {
						// dying in the middle of a pump: only durable state survives
						r.volatile = r.durable.clone();
						r.delivered = r.volatile.0;
						return Err(e);
					}
					if o.n & 1 == 0 {
						r.durable = r.volatile.clone();
					}
				}
				_ => {
					r.delivered = r.text.len();
					pump(r, true)?;
					let mut s = r.volatile.1.join("\n");
					if !s.is_empty() {
						s.push('\n');
					}
					return txt(s);
				}
			}
			Ok(Out::None)
		}
		K::Bulk => {
			let (kind, seed) = (o.s2 as u64, o.b as u64);
			let mut cycle: Vec<Vec<Token>> = vec![];
			for j in 0..o.n {
				let t = bulk_text(kind, seed, j);
				let toks = match kind {
					7 | 10 => {
						let x = (j % BULK_CYCLE) as usize;
						if x >= cycle.len() {
							let (v, e) = tokens(leak(t.clone()))?;
							cycle.push(if e.is_some() { vec![] } else { v });
						}
						cycle[x].clone()
					}
					5 | 6 => bulk_tokens(&t),
					_ => vec![],
				};
				let (tp, kp) = (Box::into_raw(t.into_boxed_str()), Box::into_raw(toks.into_boxed_slice()));
				let r = bulk_call(kind, unsafe { &*tp }, unsafe { &*kp });
				probe(rt::P_BULK_CALLS);
				let h = r?;
				let expected = match kind {
					8 if j % BULK_SAMPLE != 0 => None,
					8 => w.exp[i].bulk.get((j / BULK_SAMPLE) as usize),
					_ => w.exp[i].bulk.get(j as usize),
				};
				if expected.map_or(false, |x| *x != h) {
					rt::violation(i as u32, &format!("call {j} of a long history (kind {kind}, text {:?}) differs from the same call in a fresh process", unsafe { &*tp }));
				}
				unsafe {
					drop(Box::from_raw(tp));
					drop(Box::from_raw(kp));
				}
			}
			Ok(Out::None)
		}
		K::Cycle => {
			cycle(w.text(o.b), o.n)?;
			Ok(Out::None)
		}
		K::Measure => {
			let live = unsafe { (*std::ptr::addr_of!(crate::heap::HEAP)).live };
			probe(rt::P_CYCLES);
			unsafe { (*w.measures.get()).push(live) };
			Ok(Out::None)
		}
	}
}

pub fn leak_verdict(m: &[i64]) -> Option<String> {
	let n = m.len();
	if n >= 8 && m[n - 4..].windows(2).all(|p| p[1] > p[0]) {
		return Some(format!("memory held by the library after everything was dropped grows with every repetition of the same work: {m:?} bytes"));
	}
	None
}

fn describe(w: &World, i: usize) -> String {
	let o = &w.plan.ops[i];
	let mut s = format!("{} (operation {i}, thread {})", o.k.name(), o.a);
	if matches!(o.k, K::Words | K::Tokens | K::Class | K::Full | K::Parse | K::DecNew | K::LexNew | K::Cut | K::Resume | K::Cycle) {
		let _ = write!(s, " on {:?}", w.text(o.b));
	} else if o.k.is_dec() || o.k.is_lex() || o.k.is_rd() {
		let _ = write!(s, " on stream {}", o.s);
	}
	s
}

fn check(w: &'static World, i: usize, r: Result<Out, Ab>, after_abort: bool) {
	let e = &w.exp[i];
	let s = seam();
	let a = rt::act();
	let f = s.fired || a.fault_fired;
	match r {
		Err(Ab::Injected) => {
			probe(rt::P_ABORTED);
			rt::event(&[b'A', i as u8]);
			if !f {
				rt::violation(i as u32, &format!("{}: aborted although no fault was delivered to it", describe(w, i)));
			}
		}
		Err(Ab::Panic(m)) => {
			if f && a.fault_fired {
				// the call reported the failed allocation by a panic of its own
				probe(rt::P_ABORTED);
				return;
			}
			rt::violation(i as u32, &format!("{}: panicked: {m}", describe(w, i)));
		}
		Ok(out) => {
			if a.fault_fired {
				probe(rt::P_OOM_SURVIVED);
			}
			if after_abort {
				probe(rt::P_OK_AFTER_ABORT);
			}
			match (&out, &e.want) {
				(Out::None, Want::Exact(m)) if m.starts_with("UNSOUND") => {
					rt::violation(i as u32, &format!("{}: {m}", describe(w, i)));
				}
				(Out::Skipped | Out::None, _) | (_, Want::Any) => {}
				(Out::Hint(lo, hi), Want::Exact(x)) => {
					let t = format!("hint {lo} {hi:?}");
					rt::event(t.as_bytes());
					if t != *x {
						rt::violation(i as u32, &format!("{}: returned {t}, expected {x}", describe(w, i)));
					}
				}
				(Out::Text(t), Want::Exact(x)) => {
					rt::event(t.as_bytes());
					if t.contains("INCOMPLETE") && w.plan.prop == "C06" {
						rt::violation(i as u32, &format!("{}: the tree does not match its tokens:\n{t}", describe(w, i)));
					}
					if t != x {
						rt::violation(i as u32, &format!("{}: returned\n{}\nexpected\n{}", describe(w, i), clip(t, x), clip(x, t)));
					}
				}
				(Out::Hint(lo, hi), Want::Hint(n)) => {
					rt::event(&[b'H', *lo as u8]);
					if lo > n || hi.map_or(false, |h| h < *n) {
						rt::violation(i as u32, &format!("{}: size hint ({lo}, {hi:?}) but {n} items remain", describe(w, i)));
					}
				}
				_ => rt::harness_error("expectation of the wrong kind"),
			}
			if w.plan.check_steps && !s.fired && !f && e.steps > 0 && !matches!(out, Out::Skipped) {
				let own = rt::my_op_steps();
				if own > e.steps * 2 + 5000 {
					rt::violation(i as u32, &format!("{}: took {own} steps, alone it takes {}", describe(w, i), e.steps));
				}
				if rt::any_stalled() {
					probe(rt::P_DONE_WHILE_STALLED);
				}
			}
		}
	}
}
/// Keep messages short: from shortly before the first difference.
fn clip(s: &str, other: &str) -> String {
	if s.len() <= 600 {
		return s.to_string();
	}
	let d = s.bytes().zip(other.bytes()).position(|(a, b)| a != b).unwrap_or(s.len().min(other.len()));
	let mut a = d.saturating_sub(150);
	while !s.is_char_boundary(a) {
		a -= 1;
	}
	let mut b = (d + 300).min(s.len());
	while !s.is_char_boundary(b) {
		b -= 1;
	}
	format!("...{}...", &s[a..b])
}
fn check_trace(w: &'static World, i: usize, aborted: bool, skipped: bool, before: (u64, u8)) {
	let e = &w.exp[i];
	let s = seam();
	let Some(x) = &e.trace else { return };
	if skipped {
		return;
	}
	let changing = before != unsafe { LEVEL };
	probe(rt::P_TRACE_CHECKED);
	let got = &s.trace;
	if !changing && before.1 == 0 {
		if !got.is_empty() {
			rt::violation(i as u32, &format!("{}: emitted {} trace records while tracing was off", describe(w, i), got.len()));
		}
	} else if changing || before.1 < 5 {
		// a subsequence of the transcript of the lone call
		let mut it = x.iter();
		for (n, g) in got.iter().enumerate() {
			if !it.any(|y| y == g) {
				rt::violation(i as u32, &format!("{}: trace record {n} is not one the call emits alone (in this order)", describe(w, i)));
			}
		}
	} else {
		let n = got.iter().zip(x).take_while(|(a, b)| a == b).count();
		if n < got.len() {
			rt::violation(i as u32, &format!("{}: trace record {n} of {} differs from the lone call's ({} records)", describe(w, i), got.len(), x.len()));
		}
		if !aborted && got.len() != x.len() {
			rt::violation(i as u32, &format!("{}: emitted {} trace records, alone it emits {}", describe(w, i), got.len(), x.len()));
		}
	}
}

static mut ABORTED: [bool; rt::MAXA] = [false; rt::MAXA];

pub fn exec(i: usize) {
	let w = w();
	let o = &w.plan.ops[i];
	rt::op_begin(i as u32, w.plan.fresh_counts);
	for rep in 0..o.rep.max(1) {
		if rep > 0 {
			rt::rebase();
		}
		let s = seam();
		s.nest = 0;
		s.logs = 0;
		s.visits = 0;
		s.trace.clear();
		s.want = w.solo || w.exp[i].trace.is_some();
		s.log_panic = None;
		s.log_reenter = None;
		s.log_level = None;
		s.visit_panic = None;
		s.visit_reenter = None;
		s.op = i;
		s.fired = false;
		let a = rt::act();
		a.oom_at = -1;
		a.oom_sticky = false;
		a.oom_min = 0;
		a.allocs = 0;
		a.fault_fired = false;
		if let (Some(f), false) = (&o.fault, w.solo) {
			let k = f.k + u64::from(rep) * f.stride;
			s.b = f.b;
			match f.kind {
				FK::Oom { min, sticky } => {
					a.oom_at = k as i64;
					a.oom_min = min;
					a.oom_sticky = sticky;
				}
				FK::LogPanic => s.log_panic = Some(k),
				FK::LogReenter => s.log_reenter = Some(k),
				FK::LogLevel(l) => s.log_level = Some((k, l)),
				FK::VisitPanic => s.visit_panic = Some(k),
				FK::VisitReenter => s.visit_reenter = Some(k),
			}
		}
		if w.solo {
			unsafe { (*w.outs.get()).push(SoloOp::default()) };
			rt::alloc_sites_reset();
		}
		let level = unsafe { LEVEL };
		let r = do_op(w, i, o);
		rt::act().oom_at = -1;
		let me = rt::actor().max(0) as usize;
		if w.solo {
			let s = seam();
			let so = unsafe { (*w.outs.get()).last_mut().unwrap() };
			so.steps = rt::my_op_steps();
			so.allocs = rt::act().allocs;
			so.picks = rt::alloc_picks();
			so.logs = s.logs;
			so.visits = s.visits;
			so.trace = std::mem::take(&mut s.trace);
			so.out = match r {
				Ok(Out::Text(t)) => t,
				Ok(Out::Hint(a, b)) => format!("hint {a} {b:?}"),
				Ok(Out::None) => String::new(),
				Ok(Out::Skipped) => "skipped".into(),
				Err(Ab::Panic(m)) => format!("PANIC {m}"),
				Err(Ab::Injected) => "INJECTED".into(),
			};
			continue;
		}
		let aborted = r.is_err();
		let skipped = matches!(r, Ok(Out::Skipped));
		let after = unsafe { ABORTED[me] };
		check(w, i, r, after);
		check_trace(w, i, aborted, skipped, level);
		unsafe { ABORTED[me] |= aborted };
	}
	w.done[i].store(true, Ordering::SeqCst);
	rt::event(&(i as u32).to_le_bytes());
	rt::sh().ops_done += 1;
	if !w.solo && rt::any_stalled() {
		unsafe { *w.stalled_done.get() += 1 };
	}
}

pub fn body(a: usize) {
	let n = w().plan.ops.len();
	for i in 0..n {
		if w().plan.ops[i].a == a {
			exec(i);
		}
	}
}

/// Drop what is left, judge what can only be judged at the end.
pub fn finish() {
	let w = w();
	let m = unsafe { &*w.measures.get() };
	if let Some(s) = leak_verdict(m) {
		rt::violation(w.plan.ops.len().saturating_sub(1) as u32, &s);
	}
	let mut h = FNV;
	for x in m {
		h = hash_bytes(h, &x.to_le_bytes());
	}
	rt::event(&h.to_le_bytes());
}
pub fn bulk_one(kind: u64, seed: u64, j: u64) -> Result<u64, Ab> {
	let t = leak(bulk_text(kind, seed, j));
	let toks = match kind {
		7 | 10 => {
			let (v, e) = tokens(t)?;
			if e.is_some() {
				vec![]
			} else {
				v
			}
		}
		5 | 6 => bulk_tokens(t),
		_ => vec![],
	};
	bulk_call(kind, t, Box::leak(toks.into_boxed_slice()))
}
