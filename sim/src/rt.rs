//! The simulator core: virtual scheduling of real threads (one runs at a time, the scheduler picks
//! which), at yield points that include every basic block of the library; interposed blocking,
//! time, randomness and environment calls; fault triggers.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

use crate::prng::{hash_bytes, Rng, FNV};

pub const MAXA: usize = 16;
pub const SITE_ALLOC: u32 = 65001;
pub const SITE_FREE: u32 = 65002;
pub const SITE_LOG: u32 = 65003;
pub const SITE_OP: u32 = 65004;
pub const SITE_VISIT: u32 = 65005;
pub const SITE_FUTEX: u32 = 65006;
pub const SITE_TIME: u32 = 65007;
pub const SITE_WAITDEP: u32 = 65008;
pub const SITE_ATOMIC: u32 = 65010;

pub mod raw {
	use std::arch::asm;
	pub unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
		let r;
		asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
			lateout("rcx") _, lateout("r11") _, options(nostack));
		r
	}
	pub unsafe fn mmap_fixed(addr: usize, len: usize) -> usize {
		// PROT_READ|WRITE, MAP_PRIVATE|ANONYMOUS|NORESERVE|FIXED_NOREPLACE
		sys(9, addr as i64, len as i64, 3, 0x2 | 0x20 | 0x4000 | 0x10_0000, -1, 0) as usize
	}
	pub unsafe fn mmap_shared(len: usize) -> usize {
		sys(9, 0, len as i64, 3, 0x1 | 0x20, -1, 0) as usize
	}
	pub fn exit(code: i32) -> ! {
		unsafe {
			sys(231, i64::from(code), 0, 0, 0, 0, 0);
		}
		unreachable!()
	}
	pub fn fork() -> i64 {
		extern "C" {
			fn fork() -> i32;
		}
		i64::from(unsafe { fork() })
	}
	/// Returns (pid, status).
	pub fn wait(pid: i64, nohang: bool) -> (i64, i32) {
		let mut st = 0i32;
		loop {
			let r = unsafe { sys(61, pid, std::ptr::addr_of_mut!(st) as i64, i64::from(nohang), 0, 0, 0) };
			if r != -4 {
				return (r, st);
			}
		}
	}
	pub fn kill(pid: i64) {
		unsafe { sys(62, pid, 9, 0, 0, 0, 0) };
	}
	pub fn alarm(s: i64) {
		unsafe { sys(37, s, 0, 0, 0, 0, 0) };
	}
	/// Ends the process when the code under test has taken no step for `s` seconds (a call stuck
	/// where the simulator sees nothing). Slow progress is left alone: the step budget bounds it.
	pub fn watch(s: i64) {
		extern "C" {
			fn signal(n: i32, f: usize) -> usize;
		}
		static mut SEEN: (u64, u64) = (u64::MAX, 0);
		static mut EVERY: i64 = 0;
		extern "C" fn tick(_: i32) {
			unsafe {
				let now = (super::STEPS, (*super::SH).switches + (*super::SH).ops_done);
				if now == SEEN {
					super::violation((*super::SH).op, "the run did not finish: a call neither returns nor takes steps");
				}
				SEEN = now;
				alarm(EVERY);
			}
		}
		unsafe {
			SEEN = (u64::MAX, 0);
			EVERY = s;
			signal(14, tick as *const () as usize);
		}
		alarm(s);
	}
	pub fn monotonic() -> f64 {
		let mut t = [0i64; 2];
		unsafe { sys(228, 1, t.as_mut_ptr() as i64, 0, 0, 0, 0) };
		t[0] as f64 + t[1] as f64 * 1e-9
	}
}

// ---------------------------------------------------------------- shared memory with the parent

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
	/// Operation the switching thread was in (`OP_*` for none).
	pub op: u32,
	/// Steps it had taken within that operation.
	pub own: u64,
	pub to: u32,
}
pub const OP_START: u32 = 0xffff_ffff;
pub const OP_FINISH: u32 = 0xfffe_0000;

pub const MAXDEC: usize = 1 << 18;
pub const NFIRED: usize = 40;
pub const DATA: usize = 24 << 20;

#[repr(C)]
pub struct Shared {
	/// 0 running, 1 held, 2 violation, 3 out of budget (solo only), 4 harness error.
	pub status: u32,
	pub op: u32,
	pub steps: u64,
	pub switches: u64,
	pub sched_hash: u64,
	pub event_hash: u64,
	pub state_hash: u64,
	pub ops_done: u64,
	pub sim_ns: u64,
	pub live: i64,
	pub ndec: u32,
	pub msg_len: u32,
	pub fired: [u32; NFIRED],
	pub probes: [u32; NFIRED],
	pub data_len: u64,
	pub msg: [u8; 16384],
	pub dec: [Dec; MAXDEC],
	pub data: [u8; DATA],
	// accumulated over runs
	pub cov: [u8; 65536],
	pub pairs: [u8; 1 << 18],
}
pub static mut SH: *mut Shared = std::ptr::null_mut();
pub fn sh() -> &'static mut Shared {
	unsafe { &mut *SH }
}
impl Shared {
	pub fn reset(&mut self) {
		self.status = 0;
		self.op = 0;
		self.steps = 0;
		self.switches = 0;
		self.sched_hash = FNV;
		self.event_hash = FNV;
		self.state_hash = 0;
		self.ops_done = 0;
		self.sim_ns = 0;
		self.live = 0;
		self.ndec = 0;
		self.msg_len = 0;
		self.fired = [0; NFIRED];
		self.probes = [0; NFIRED];
		self.data_len = 0;
	}
	pub fn message(&self) -> String {
		String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
	}
}

pub const F_OOM: usize = 0;
pub const F_OOM_MIN: usize = 1;
pub const F_LOGPANIC: usize = 2;
pub const F_LOGREENTER: usize = 3;
pub const F_LOGLEVEL: usize = 4;
pub const F_VISITPANIC: usize = 5;
pub const F_VISITREENTER: usize = 6;
pub const F_STALL: usize = 7;
pub const F_SPURIOUS: usize = 8;
pub const F_CLOCK: usize = 9;
pub const F_RANDOM: usize = 10;
pub const F_GETENV: usize = 11;
pub const F_REWRITE: usize = 12;
pub const F_CRASH: usize = 13;
pub const F_CUT: usize = 14;
pub const F_ABANDON: usize = 15;
pub const F_MIGRATE: usize = 16;
pub const F_FRAGMENT: usize = 17;
pub const F_FUTEXWAIT: usize = 18;
pub const F_FUTEXWAKE: usize = 19;
pub const F_REDELIVER: usize = 20;
pub const F_SLEEP: usize = 21;
pub const F_PROCESS: usize = 22;
pub const FNAMES: [&str; 23] = [
	"allocation_failed", "allocations_above_size_failed", "log_sink_panicked", "log_sink_reentered_library", "log_level_switched",
	"visitor_panicked", "visitor_reentered", "caller_suspended", "spurious_wakeup", "clock_queried", "random_source_queried",
	"environment_queried", "buffer_rewritten_in_place", "reader_crashed_and_restarted", "text_cut", "stream_abandoned",
	"stream_migrated_between_threads", "fragment_delivered", "futex_wait", "futex_wake", "fragment_redelivered", "sleep_requested",
	"process_facts_queried",
];
pub fn fired(f: usize) {
	sh().fired[f] += 1;
}
pub const P_ABORTED: usize = 0;
pub const P_OOM_SURVIVED: usize = 1;
pub const P_OK_AFTER_ABORT: usize = 2;
pub const P_PARSE_OK: usize = 3;
pub const P_PARSE_ERR: usize = 4;
pub const P_LEX_ERR: usize = 5;
pub const P_RAW_MIDCHUNK: usize = 6;
pub const P_RAW_EMPTY: usize = 7;
pub const P_HINT_NONZERO: usize = 8;
pub const P_PULL_AFTER_END: usize = 9;
pub const P_SWITCH_IN_LIB: usize = 10;
pub const P_QUOTE_TOKENS: usize = 11;
pub const P_TREE_REREAD: usize = 12;
pub const P_NESTED_CALL: usize = 13;
pub const P_CUT_IN_QUOTE: usize = 14;
pub const P_SKIPPED_DEAD: usize = 15;
pub const P_SAME_ADDR_NEW_TEXT: usize = 16;
pub const P_TRACE_CHECKED: usize = 17;
pub const P_DONE_WHILE_STALLED: usize = 18;
pub const P_CHECKPOINT_RESUME: usize = 19;
pub const P_BULK_CALLS: usize = 20;
pub const P_CYCLES: usize = 21;
pub const P_HOT: usize = 22;
pub const PNAMES: [&str; 23] = [
	"calls_aborted", "allocation_failure_survived_by_fallback", "calls_checked_after_an_abort", "parses_ok", "parses_rejected",
	"lexing_errors", "raw_pull_inside_piece", "raw_pull_of_empty_piece", "size_hint_with_words_left", "pulls_after_end",
	"switches_inside_library_calls", "quote_tokens", "trees_reread", "nested_calls", "cuts_inside_a_quote", "ops_on_aborted_stream_skipped",
	"same_address_different_text", "trace_transcripts_compared", "calls_completed_while_another_was_suspended", "resumes_from_checkpoint",
	"bulk_history_calls", "memory_cycles_measured", "meeting_points_passed",
];
pub fn probe(p: usize) {
	sh().probes[p] += 1;
}

// ---------------------------------------------------------------- per-thread flags

thread_local! {
	static INLIB: Cell<bool> = const { Cell::new(false) };
	static ACTOR: Cell<i32> = const { Cell::new(-1) };
}
pub fn in_lib() -> bool {
	INLIB.with(Cell::get)
}
pub fn set_in_lib(v: bool) -> bool {
	INLIB.with(|c| c.replace(v))
}
pub fn actor() -> i32 {
	ACTOR.with(Cell::get)
}
pub fn set_actor(a: i32) {
	ACTOR.with(|c| c.set(a));
}
/// Run harness code from inside a library call.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
	struct Back(bool);
	impl Drop for Back {
		fn drop(&mut self) {
			set_in_lib(self.0);
		}
	}
	let _b = Back(set_in_lib(false));
	f()
}

// ---------------------------------------------------------------- scheduler state

#[derive(Clone, Debug, PartialEq)]
pub enum Style {
	/// Switch at exponentially distributed distances.
	Random { mean: u64 },
	/// Switch (with probability 1/den) at the first `limit` visits of each basic block per call.
	Rare { limit: u8, den: u32 },
	/// Priorities with `points` random priority drops.
	Pct { points: u32, span: u64 },
	/// Switch only between operations.
	OpGrain,
	/// Switch (with probability 1/den) where threads meet: at atomic writes of the library and at
	/// atomic reads of what it has written; elsewhere at exponentially distributed distances. With
	/// `stall`, that many threads are suspended at such a switch until everyone else is done.
	Hot { den: u32, mean: u64, stall: u32 },
	/// Suspend these threads after so many of their own steps until everyone else is done. In a
	/// `convoy` the others stop when they come to the place where the first one did.
	Stall { victims: Vec<(u32, u64)>, mean: u64, convoy: bool },
	Replay,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
	Unused,
	Ready,
	WaitDep(u32),
	Futex(usize, u64), // address, wake-up time (u64::MAX none)
	Sleep(u64),
	Exiting,
	Done,
}

pub struct Act {
	st: St,
	go: AtomicU32,
	own_total: u64,
	resumed: u64,
	op: u32,
	op_base: u64,
	step_base: u64,
	stalled: bool,
	was_stalled: bool,
	timed_out: bool,
	/// Consecutive yields with hardly a step between them.
	spins: u32,
	last_yield: u64,
	prio: u64,
	last_site: u32,
	// fault triggers for the current call
	pub oom_at: i64,
	pub oom_min: usize,
	pub oom_sticky: bool,
	pub allocs: u64,
	pub fault_fired: bool,
}
impl Act {
	const fn new() -> Act {
		Act {
			st: St::Unused,
			go: AtomicU32::new(0),
			own_total: 0,
			resumed: 0,
			op: OP_START,
			op_base: 0,
			step_base: 0,
			stalled: false,
			was_stalled: false,
			timed_out: false,
			spins: 0,
			last_yield: 0,
			prio: 0,
			last_site: 0,
			oom_at: -1,
			oom_min: 0,
			oom_sticky: false,
			allocs: 0,
			fault_fired: false,
		}
	}
}

pub struct Rt {
	active: bool,
	n: usize,
	pub cur: usize,
	pub acts: [Act; MAXA],
	ctl: AtomicU32,
	rng: Rng,
	style: Style,
	replay: Vec<Vec<(u64, u32)>>, // per op: (own, to)
	limit: u64,
	livelock: u32,
	deps_met: fn(u32) -> bool,
	strict_stall: bool,
	stalls: u32,
	pct_points: Vec<u64>,
	pub clock_ns: u64,
	pub clock_mode: u8,
	pub env_mode: u8,
	pub env_rng: Rng,
	env_seed: u64,
	spurious: u32,
	atomic_limit: u32,
	in_sched: bool,
}

pub static mut STEPS: u64 = 0;
pub static mut NEXT: u64 = u64::MAX;
static mut RARE: u8 = 0;
static mut CNT: [u8; 65536] = [0; 65536];
static mut NGUARD: u32 = 0;
pub static mut RT: *mut Rt = std::ptr::null_mut();

pub fn rt() -> &'static mut Rt {
	unsafe { &mut *RT }
}
pub fn steps() -> u64 {
	unsafe { STEPS }
}
pub fn guards() -> u32 {
	unsafe { NGUARD }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
	let id = *g;
	LASTB = id;
	STEPS += 1;
	let c = CNT[id as usize];
	if c <= RARE {
		if rare(id) {
			slow(id);
			return;
		}
	}
	if STEPS >= NEXT || id == CONVOY {
		slow(id);
	}
}
/// The block at which threads are to be stopped, once it is known.
static mut CONVOY: u32 = u32::MAX;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
	while s < e {
		if *s == 0 {
			NGUARD += 1;
			*s = NGUARD.min(64999);
		}
		s = s.add(1);
	}
}
/// First visits of a block: record coverage and, in the rare-site style, consider a switch.
#[cold]
unsafe fn rare(id: u32) -> bool {
	let c = CNT[id as usize];
	CNT[id as usize] = c + 1;
	if SH.is_null() {
		return false;
	}
	(*SH).cov[id as usize] = 1;
	if RT.is_null() {
		return false;
	}
	if let Style::Rare { den, .. } = rt().style {
		return RARE > 0 && rt().active && (*SH).switches < 40_000 && rt().rng.below(den as usize) == 0;
	}
	false
}
pub fn tick(site: u32) {
	unsafe {
		STEPS += 1;
		if STEPS >= NEXT {
			slow(site);
		}
	}
}

/// An atomic operation of the library on this address. Addresses used rarely are where threads meet:
/// in the `Rare` style the first few uses of each are likely switch points.
pub fn atomic_site(addr: usize, write: bool) {
	unsafe {
		STEPS += 1;
		if HOT > 0 {
			let h = &mut (*std::ptr::addr_of_mut!(WRITTEN))[hash_addr(addr)];
			if write || *h {
				*h |= write;
				if !RT.is_null() && rt().active {
					sh().probes[P_HOT] += 1;
					if thin(1) <= 64 && rt().rng.below(HOT as usize * thin(1) as usize) == 0 {
						HOT_NOW = true;
						slow(SITE_ATOMIC);
						HOT_NOW = false;
						return;
					}
				}
			}
		}
		let c = &mut (*std::ptr::addr_of_mut!(ACNT))[(addr.wrapping_sub(std::ptr::addr_of!(STEPS) as usize) >> 1) % 4096];
		if *c < 255 {
			*c += 1;
			if !SH.is_null() && !RT.is_null() && rt().active && (*c as u32) <= rt().atomic_limit && rt().rng.below(2) == 0 {
				slow(SITE_ATOMIC);
				return;
			}
		}
		if STEPS >= NEXT {
			slow(SITE_ATOMIC);
		}
	}
}
static mut ACNT: [u8; 4096] = [0; 4096];
/// In the `Hot` style: the inverse of the probability of a switch at a meeting point.
static mut HOT: u32 = 0;
static mut HOT_NOW: bool = false;
/// Which addresses (hashed) the library has written atomically in this run.
static mut WRITTEN: [bool; 4096] = [false; 4096];
fn hash_addr(a: usize) -> usize {
	(a ^ a >> 12 ^ a >> 24) % 4096
}

pub fn violation(op: u32, msg: &str) -> ! {
	let s = sh();
	if s.status == 0 {
		s.status = 2;
		s.op = op;
		let b = msg.as_bytes();
		let mut n = b.len().min(s.msg.len());
		while !msg.is_char_boundary(n) {
			n -= 1;
		}
		s.msg[..n].copy_from_slice(&b[..n]);
		s.msg_len = n as u32;
	}
	finish_counters();
	raw::exit(0)
}
pub fn harness_error(msg: &str) -> ! {
	let s = sh();
	s.status = 4;
	let b = msg.as_bytes();
	let n = b.len().min(s.msg.len());
	s.msg[..n].copy_from_slice(&b[..n]);
	s.msg_len = n as u32;
	raw::exit(0)
}
pub fn finish_counters() {
	let s = sh();
	s.steps = steps();
	unsafe {
		if !RT.is_null() {
			s.sim_ns = rt().now_ns();
		}
	}
	s.live = unsafe { (*std::ptr::addr_of!(crate::heap::HEAP)).live };
}
pub fn event(b: &[u8]) {
	sh().event_hash = hash_bytes(sh().event_hash, b);
}

impl Rt {
	pub fn now_ns(&self) -> u64 {
		// one step is ten simulated nanoseconds
		self.clock_ns + steps() * 10
	}
	fn own(&self, a: usize) -> u64 {
		self.acts[a].own_total + if a == self.cur { steps() - self.acts[a].resumed } else { 0 }
	}
	/// Steps taken by the actor inside its current operation.
	pub fn op_own(&self, a: usize) -> u64 {
		self.own(a) - self.acts[a].op_base
	}
	fn runnable(&self, a: usize) -> bool {
		let x = &self.acts[a];
		if x.stalled {
			return false;
		}
		match x.st {
			St::Ready => true,
			St::WaitDep(op) => (self.deps_met)(op),
			St::Sleep(t) => self.now_ns() >= t,
			St::Futex(_, t) => t != u64::MAX && self.now_ns() >= t,
			_ => false,
		}
	}
	fn candidates(&mut self) -> ([usize; MAXA], usize) {
		loop {
			let mut v = [0; MAXA];
			let mut n = 0;
			for a in 0..self.n {
				if self.runnable(a) {
					v[n] = a;
					n += 1;
				}
			}
			if n > 0 {
				return (v, n);
			}
			// nobody can run: who could still be made runnable?
			let any_stalled = (0..self.n).any(|a| self.acts[a].stalled);
			let any_blocked = (0..self.n).find(|&a| matches!(self.acts[a].st, St::Futex(_, u64::MAX)));
			let earliest = (0..self.n)
				.filter_map(|a| match self.acts[a].st {
					St::Sleep(t) => Some(t),
					St::Futex(_, t) if t != u64::MAX => Some(t),
					_ => None,
				})
				.min();
			if let Some(t) = earliest {
				let now = self.now_ns();
				self.clock_ns += t - now;
				continue;
			}
			if any_stalled {
				if self.strict_stall {
					if let Some(b) = any_blocked {
						violation(self.acts[b].op, "a caller is blocked waiting for a caller that is suspended inside the library");
					}
				}
				for a in 0..self.n {
					self.acts[a].stalled = false;
				}
				continue;
			}
			if let Some(b) = any_blocked {
				violation(self.acts[b].op, "deadlock: every remaining caller is blocked inside the library");
			}
			return (v, 0);
		}
	}
	fn choose(&mut self, cur: Option<usize>, op: u32, own: u64) -> Option<usize> {
		let (v, n) = self.candidates();
		if n == 0 {
			return None;
		}
		let c = &v[..n];
		let cur_ok = cur.filter(|x| c.contains(x));
		let t = match self.style.clone() {
			Style::Replay => {
				let hit = match self.replay_list(op) {
					Some(l) => at(l, own).map(|x| (x & 0x7f) as usize),
					None => None,
				};
				match hit {
					Some(t) if c.contains(&t) => t,
					_ => match cur_ok {
						// who spins lets the others have a turn
						Some(x) if self.acts[x].spins >= 64 && self.acts[x].spins % 64 == 0 => *c.iter().find(|t| **t > x).unwrap_or(&c[0]),
						Some(x) => x,
						None => c[0],
					},
				}
			}
			Style::Pct { .. } => {
				if let Some(x) = cur_ok {
					// reaching a change point drops the current thread's priority
					let s = steps();
					if self.pct_points.last().map_or(false, |p| *p <= s) {
						while self.pct_points.last().map_or(false, |p| *p <= s) {
							self.pct_points.pop();
						}
						self.acts[x].prio = self.pct_points.len() as u64;
					} else if s - self.acts[x].resumed >= 3_000_000 {
						self.acts[x].prio = self.rng.below(1000) as u64;
					}
				}
				*c.iter().max_by_key(|a| self.acts[**a].prio).unwrap()
			}
			_ => c[self.rng.below(n)],
		};
		Some(t)
	}
	fn replay_list(&self, op: u32) -> Option<&Vec<(u64, u32)>> {
		let i = if op == OP_START {
			0
		} else if op >= OP_FINISH {
			1 + (op - OP_FINISH) as usize
		} else {
			1 + MAXA + op as usize
		};
		self.replay.get(i)
	}
	/// Distance to the next voluntary decision of the thread now running.
	fn plan_next(&mut self) {
		let s = steps();
		let cur = self.cur;
		let next = match self.style.clone() {
			Style::Random { mean } | Style::Hot { mean, .. } => s + self.rng.geometric(thin(mean)),
			Style::Rare { .. } | Style::OpGrain => u64::MAX,
			Style::Pct { .. } => self.pct_points.last().copied().unwrap_or(u64::MAX).min(s + 3_000_000),
			Style::Stall { victims, mean, .. } => {
				let rnd = s + self.rng.geometric(thin(mean));
				match victims.iter().find(|v| v.0 as usize == cur) {
					Some((_, at)) if !self.acts[cur].was_stalled => rnd.min(s + at.saturating_sub(self.own(cur)).max(1)),
					_ => rnd,
				}
			}
			Style::Replay => {
				let op = self.acts[cur].op;
				let own = self.op_own(cur);
				self.replay_list(op)
					.and_then(|l| l.get(l.partition_point(|x| x.0 <= own)).map(|x| x.0))
					.map_or(u64::MAX, |o| s + (o - own))
			}
		};
		unsafe { NEXT = next.min(self.limit) };
	}
	fn record(&mut self, op: u32, own: u64, to: usize) {
		let s = sh();
		if (s.ndec as usize) < MAXDEC {
			s.dec[s.ndec as usize] = Dec { op, own, to: to as u32 };
			s.ndec += 1;
		}
	}
	fn hand_over(&mut self, from: Option<usize>, to: usize, site: u32) {
		let now = steps();
		if let Some(f) = from {
			let r = self.acts[f].resumed;
			self.acts[f].own_total += now - r;
			self.acts[f].last_site = site;
		}
		self.cur = to;
		let s = sh();
		s.switches += 1;
		let from_id = from.map_or(99, |x| x as u32);
		let mut b = [0u8; 12];
		b[0..4].copy_from_slice(&site.to_le_bytes());
		b[4..8].copy_from_slice(&(from_id * 16 + to as u32).to_le_bytes());
		b[8..12].copy_from_slice(&self.acts[to].last_site.to_le_bytes());
		s.sched_hash = hash_bytes(s.sched_hash, &b);
		let pair = (hash_bytes(FNV, &[&b[0..4], &b[8..12]].concat()) >> 20) as usize % s.pairs.len();
		s.pairs[pair] = 1;
		if site < 65000 {
			s.probes[P_SWITCH_IN_LIB] += 1;
		}
		let x = &mut self.acts[to];
		match x.st {
			St::WaitDep(_) | St::Sleep(_) => x.st = St::Ready,
			St::Futex(..) => {
				x.st = St::Ready;
				x.timed_out = true;
			}
			_ => {}
		}
		x.resumed = now;
		self.plan_next();
		wake(&self.acts[to].go);
	}
	/// The running actor yields. When all that can run do nothing else, they wait for someone suspended.
	fn spin(&mut self, me: usize) {
		let own = self.own(me);
		let x = &mut self.acts[me];
		if own - x.last_yield < 500 {
			x.spins += 1;
		} else {
			x.spins = 0;
			self.livelock = 0;
		}
		let x = &mut self.acts[me];
		x.last_yield = own;
		if x.spins < 2000 {
			return;
		}
		if matches!(self.style, Style::Pct { .. }) {
			self.acts[me].prio = self.rng.below(1000) as u64;
		}
		let all = (0..self.n).all(|a| !self.runnable(a) || (self.acts[a].spins >= 2000 && self.own(a) - self.acts[a].last_yield < 500));
		if all && (0..self.n).any(|a| self.acts[a].stalled) {
			if self.strict_stall {
				violation(self.acts[me].op, "a caller spins, waiting for a caller that is suspended inside the library");
			}
			for a in 0..self.n {
				self.acts[a].stalled = false;
				self.acts[a].spins = 0;
			}
		} else if all && !(0..self.n).any(|a| matches!(self.acts[a].st, St::Sleep(_)) || matches!(self.acts[a].st, St::Futex(_, t) if t != u64::MAX)) {
			for a in 0..self.n {
				self.acts[a].spins = 0;
			}
			self.livelock += 1;
			if self.livelock >= 5 {
				violation(self.acts[me].op, "livelock: every remaining caller spins inside the library, waiting for another");
			}
		}
	}
	/// A decision by the running actor `a`; `a` may be unable to continue (`forced`).
	fn decide(&mut self, a: usize, site: u32, forced: bool) {
		let op = self.acts[a].op;
		let own = self.op_own(a);
		if steps() >= self.limit {
			violation(op, "no progress: the step budget of the run (many times what the calls need alone) is exhausted");
		}
		let stall = match &self.style {
			Style::Stall { victims, convoy, .. } => {
				let mine = !forced && victims.iter().find(|v| v.0 as usize == a).map_or(false, |v| self.own(a) >= v.1 || *convoy);
				let (place, hit) = unsafe { (CONVOY, LASTB) };
				let (own, at) = (self.own(a), victims.iter().find(|v| v.0 as usize == a).map_or(u64::MAX, |v| v.1));
				let stop = mine && if place != u32::MAX { site == place } else { own >= at };
				if stop && *convoy && place == u32::MAX && site < 65000 {
					unsafe { CONVOY = hit };
				}
				stop
			}
			Style::Hot { stall, .. } => (unsafe { HOT_NOW }) && !forced && self.stalls < *stall && self.rng.below(4) == 0,
			_ => false,
		};
		if stall && !self.acts[a].was_stalled {
			self.stalls += 1;
			self.acts[a].was_stalled = true;
			self.acts[a].stalled = true;
			if self.n > 1 {
				fired(F_STALL);
			}
		}
		if self.style == Style::Replay && !self.acts[a].stalled {
			// a suspension is recorded as a decision with bit 7 set
			if self.replay_list(op).map_or(false, |l| at(l, own).map_or(false, |t| t & 0x80 != 0)) {
				self.acts[a].stalled = true;
				if self.n > 1 {
					fired(F_STALL);
				}
			}
		}
		let Some(t) = self.choose(Some(a), op, own) else {
			harness_error("no runnable actor in decide");
		};
		if t == a {
			if let St::WaitDep(_) | St::Sleep(_) = self.acts[a].st {
				self.acts[a].st = St::Ready;
			}
			if let St::Futex(..) = self.acts[a].st {
				self.acts[a].st = St::Ready;
				self.acts[a].timed_out = true;
			}
			self.plan_next();
			return;
		}
		let mark = if self.acts[a].stalled { 0x80 } else { 0 };
		self.record(op, own, t | mark);
		self.hand_over(Some(a), t, site);
		sleep_on(&self.acts[a].go);
	}
}

/// The first of the recorded decisions (sorted) of an operation at its step `own`.
fn at(l: &[(u64, u32)], own: u64) -> Option<u32> {
	l.get(l.partition_point(|x| x.0 < own)).filter(|x| x.0 == own).map(|x| x.1)
}

/// Switches become rarer as a run gets long, so that its cost stays bounded.
fn thin(mean: u64) -> u64 {
	mean << (sh().switches / 6000).min(20)
}
fn wake(w: &AtomicU32) {
	w.store(1, Ordering::SeqCst);
	unsafe { raw::sys(202, w.as_ptr() as i64, 129, 1, 0, 0, 0) };
}
fn sleep_on(w: &AtomicU32) {
	while w.swap(0, Ordering::SeqCst) == 0 {
		unsafe { raw::sys(202, w.as_ptr() as i64, 128, 0, 0, 0, 0) };
	}
}

#[cold]
fn slow(site: u32) {
	unsafe {
		if RT.is_null() {
			NEXT = u64::MAX;
			return;
		}
	}
	let r = rt();
	let a = actor();
	if a < 0 || r.in_sched {
		return;
	}
	if !r.active {
		if steps() >= r.limit {
			// solo run over budget
			sh().status = 3;
			finish_counters();
			raw::exit(0);
		}
		unsafe { NEXT = r.limit };
		return;
	}
	let a = a as usize;
	if r.acts[a].st == St::Exiting || a != r.cur {
		return;
	}
	let save = set_in_lib(false);
	r.decide(a, site, false);
	set_in_lib(save);
}

// ---------------------------------------------------------------- running

pub struct Config {
	pub actors: usize,
	pub seed: u64,
	pub style: Style,
	pub decisions: Vec<Dec>,
	pub nops: usize,
	pub limit: u64,
	pub deps_met: fn(u32) -> bool,
	pub strict_stall: bool,
	pub clock_mode: u8,
	pub env_mode: u8,
	pub spurious: u32,
	pub stacks: Vec<usize>,
	pub names: Vec<Option<String>>,
}

pub fn install(c: &Config) {
	let mut rng = Rng::new(c.seed ^ 0x5ced);
	let mut replay = vec![];
	if c.style == Style::Replay {
		replay = vec![vec![]; 1 + MAXA + c.nops];
		for d in &c.decisions {
			let i = if d.op == OP_START {
				0
			} else if d.op >= OP_FINISH {
				1 + (d.op - OP_FINISH) as usize
			} else {
				1 + MAXA + d.op as usize
			};
			if i < replay.len() {
				replay[i].push((d.own, d.to));
			}
		}
		for l in &mut replay {
			l.sort_by_key(|x| x.0);
		}
	}
	let mut pct_points = vec![];
	if let Style::Pct { points, span } = c.style {
		for _ in 0..points {
			// log-uniform: early points matter as much as late ones
			let e = rng.below(1000) as f64 / 1000.0 * (span.max(2) as f64).ln();
			pct_points.push(if rng.chance(1, 2) { e.exp() as u64 } else { rng.below(span.max(2) as usize) as u64 });
		}
		pct_points.sort_unstable_by(|a, b| b.cmp(a));
	}
	let mut acts = [const { Act::new() }; MAXA];
	for a in &mut acts {
		a.prio = 1000 + rng.below(1 << 30) as u64;
	}
	let r = Box::new(Rt {
		active: false,
		n: c.actors,
		cur: 0,
		acts,
		ctl: AtomicU32::new(0),
		env_rng: Rng::new(c.seed ^ 0xe27),
		env_seed: hash_bytes(c.seed, b"environment") >> 8,
		rng,
		style: c.style.clone(),
		replay,
		limit: c.limit,
		livelock: 0,
		deps_met: c.deps_met,
		strict_stall: c.strict_stall,
		stalls: 0,
		pct_points,
		clock_ns: 1_700_000_000_000_000_000,
		clock_mode: c.clock_mode,
		env_mode: c.env_mode,
		spurious: c.spurious,
		atomic_limit: match c.style {
			Style::Rare { limit, .. } => u32::from(limit) * 4,
			_ => 0,
		},
		in_sched: false,
	});
	if c.env_mode > 0 {
		draw_environment(r.env_seed);
	}
	unsafe {
		RT = Box::into_raw(r);
		STEPS = 0;
		CONVOY = u32::MAX;
		RARE = match c.style {
			Style::Rare { limit, .. } => limit,
			_ => 0,
		};
		*std::ptr::addr_of_mut!(CNT) = [0; 65536];
		*std::ptr::addr_of_mut!(WRITTEN) = [false; 4096];
		HOT = match c.style {
			Style::Hot { den, .. } => den,
			_ => 0,
		};
		NEXT = c.limit;
	}
}

/// Single-threaded use (reference runs): no scheduling, only the step budget.
pub fn install_solo(limit: u64, clock_mode: u8) {
	install(&Config {
		actors: 1,
		seed: 1,
		style: Style::OpGrain,
		decisions: vec![],
		nops: 0,
		limit,
		deps_met: |_| true,
		strict_stall: false,
		clock_mode,
		env_mode: 0,
		spurious: 0,
		stacks: vec![],
		names: vec![],
	});
	set_actor(0);
}

/// Run one body per actor to completion under the scheduler.
pub fn run_actors(c: &Config, body: fn(usize)) {
	let r = rt();
	r.active = true;
	let mut handles = vec![];
	for a in 0..c.actors {
		r.acts[a].st = St::Ready;
		let mut b = std::thread::Builder::new().stack_size(c.stacks.get(a).copied().unwrap_or(64 << 20));
		if let Some(Some(n)) = c.names.get(a) {
			b = b.name(n.clone());
		}
		handles.push(Some(
			b.spawn(move || {
				set_actor(a as i32);
				sleep_on(&rt().acts[a].go);
				body(a);
				let r = rt();
				r.acts[a].st = St::Exiting;
				r.acts[a].own_total = r.own(a);
				// thread-local destructors run after this, before the controller goes on
				wake(&r.ctl);
			})
			.unwrap_or_else(|e| harness_error(&format!("cannot start a thread: {e}"))),
		));
	}
	let mut last = OP_START;
	loop {
		let t = match r.choose(None, last, 0) {
			Some(t) => t,
			None => {
				if (0..r.n).all(|a| r.acts[a].st == St::Done) {
					break;
				}
				harness_error("stuck");
			}
		};
		r.record(last, 0, t);
		r.hand_over(None, t, 65009);
		sleep_on(&r.ctl);
		let f = r.cur;
		handles[f].take().unwrap().join().ok();
		r.acts[f].st = St::Done;
		last = OP_FINISH + f as u32;
	}
	r.active = false;
}

/// Called by an actor before operation `op`: waits for its dependencies and starts its step count.
pub fn op_begin(op: u32, fresh_counts: bool) {
	let r = rt();
	let a = actor() as usize;
	if !r.active {
		r.acts[a].op = op;
		r.acts[a].op_base = r.own(a);
		r.acts[a].step_base = r.own(a);
		return;
	}
	r.acts[a].op = op;
	r.acts[a].op_base = r.own(a);
	if !(r.deps_met)(op) {
		r.acts[a].st = St::WaitDep(op);
		r.decide(a, SITE_WAITDEP, true);
		r.acts[a].st = St::Ready;
	}
	unsafe {
		STEPS += 1;
		if fresh_counts && RARE > 0 {
			*std::ptr::addr_of_mut!(CNT) = [0; 65536];
			*std::ptr::addr_of_mut!(ACNT) = [0; 4096];
		}
	}
	r.decide(a, SITE_OP, false);
	rebase();
}

/// Own steps of the current actor inside the current operation.
pub fn my_op_steps() -> u64 {
	let r = rt();
	let a = actor().max(0) as usize;
	r.own(a) - r.acts[a].step_base
}
/// Restart the step count of the current call (one repetition of an operation).
pub fn rebase() {
	let r = rt();
	let a = actor().max(0) as usize;
	let own = r.own(a);
	r.acts[a].step_base = own;
}
pub fn any_stalled() -> bool {
	let r = rt();
	(0..r.n).any(|a| r.acts[a].stalled)
}

// ---------------------------------------------------------------- fault triggers

pub fn act() -> &'static mut Act {
	&mut rt().acts[actor().max(0) as usize]
}
/// The library block entered last.
static mut LASTB: u32 = 0;
#[derive(Clone, Copy)]
struct AllocSite {
	epoch: u32,
	seen: u32,
	first: u64,
	some: u64,
	last: u64,
}
static mut ASITES: [AllocSite; 65536] = [AllocSite { epoch: 0, seen: 0, first: 0, some: 0, last: 0 }; 65536];
static mut AEPOCH: u32 = 0;
/// Start collecting allocation sites (lone calls only).
pub fn alloc_sites_reset() {
	unsafe { AEPOCH += 1 };
}
fn note_alloc(k: u64) {
	unsafe {
		if AEPOCH == 0 {
			return;
		}
		let s = &mut (*std::ptr::addr_of_mut!(ASITES))[LASTB as usize % 65536];
		if s.epoch != AEPOCH {
			*s = AllocSite { epoch: AEPOCH, seen: 0, first: k, some: k, last: k };
		}
		s.seen += 1;
		s.last = k;
		// a sample that does not depend on anything but the count
		if (u64::from(s.seen).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 32) % u64::from(s.seen) == 0 {
			s.some = k;
		}
	}
}
/// Which allocations of the call (by number) stand for the places that allocate.
pub fn alloc_picks() -> Vec<u64> {
	let mut v = vec![];
	unsafe {
		for s in &*std::ptr::addr_of!(ASITES) {
			if AEPOCH > 0 && s.epoch == AEPOCH {
				v.extend([s.first, s.some, s.last]);
			}
		}
	}
	v.sort_unstable();
	v.dedup();
	v
}
pub fn alloc_fails(size: usize) -> bool {
	unsafe {
		if RT.is_null() {
			return false;
		}
	}
	if actor() < 0 {
		return false;
	}
	let a = act();
	a.allocs += 1;
	note_alloc(a.allocs - 1);
	if a.oom_at < 0 || size < a.oom_min {
		return false;
	}
	if a.oom_at > 0 {
		a.oom_at -= 1;
		return false;
	}
	if !a.oom_sticky {
		a.oom_at = -1;
	}
	a.fault_fired = true;
	fired(if a.oom_sticky { F_OOM_MIN } else { F_OOM });
	true
}

// ---------------------------------------------------------------- interposed C library functions

const EAGAIN: i32 = 11;
const EINTR: i32 = 4;
const ETIMEDOUT: i32 = 110;
extern "C" {
	fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: i64) -> i64 {
	if (-4095..0).contains(&r) {
		*__errno_location() = (-r) as i32;
		-1
	} else {
		r
	}
}
unsafe fn err(e: i32) -> i64 {
	*__errno_location() = e;
	-1
}

fn simulated() -> Option<usize> {
	unsafe {
		if RT.is_null() || !in_lib() {
			return None;
		}
	}
	let a = actor();
	(a >= 0 && rt().active && rt().cur == a as usize && rt().acts[a as usize].st == St::Ready).then_some(a as usize)
}
fn simulated_env() -> bool {
	unsafe { !RT.is_null() && in_lib() && actor() >= 0 }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
	if n == 202 {
		if let Some(me) = simulated() {
			let save = set_in_lib(false);
			let r = futex(me, a as usize, b as i32 & 0x7f, c as u32, d as *const [i64; 2], f as u32);
			set_in_lib(save);
			return r;
		}
	}
	if n == 318 && simulated_env() {
		return random_fill(a as *mut u8, b as usize) as i64;
	}
	ret(raw::sys(n, a, b, c, d, e, f))
}

unsafe fn futex(me: usize, addr: usize, cmd: i32, val: u32, ts: *const [i64; 2], _mask: u32) -> i64 {
	let r = rt();
	match cmd & !256 & 0x7f {
		0 | 9 => {
			fired(F_FUTEXWAIT);
			if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != val {
				return err(EAGAIN);
			}
			if r.spurious > 0 && r.rng.below(r.spurious as usize) == 0 {
				fired(F_SPURIOUS);
				STEPS += 1;
				r.decide(me, SITE_FUTEX, false);
				return err(EINTR);
			}
			let until = if ts.is_null() {
				u64::MAX
			} else if cmd & 0x7f == 9 {
				// absolute; the interposed clocks are what it was computed from
				((*ts)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64).max(r.now_ns() + 1)
			} else {
				r.now_ns() + (*ts)[0] as u64 * 1_000_000_000 + (*ts)[1] as u64
			};
			r.acts[me].st = St::Futex(addr, until);
			r.acts[me].timed_out = false;
			STEPS += 1;
			r.decide(me, SITE_FUTEX, true);
			if r.acts[me].timed_out {
				r.acts[me].timed_out = false;
				return err(ETIMEDOUT);
			}
			0
		}
		1 | 10 => {
			fired(F_FUTEXWAKE);
			let mut n = 0;
			let mut idx: Vec<usize> = (0..r.n).filter(|&x| matches!(r.acts[x].st, St::Futex(p, _) if p == addr)).collect();
			while n < val as i64 && !idx.is_empty() {
				let x = idx.remove(0);
				r.acts[x].st = St::Ready;
				n += 1;
			}
			STEPS += 1;
			r.decide(me, SITE_FUTEX, false);
			n
		}
		_ => err(38),
	}
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
	if let Some(me) = simulated() {
		let save = set_in_lib(false);
		STEPS += 1;
		rt().spin(me);
		rt().decide(me, SITE_FUTEX, false);
		set_in_lib(save);
		return 0;
	}
	raw::sys(24, 0, 0, 0, 0, 0, 0) as i32
}

unsafe fn sim_sleep(me: usize, req: *const [i64; 2], absolute: bool) {
	let save = set_in_lib(false);
	fired(F_SLEEP);
	let r = rt();
	let ns = (*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64;
	let until = if absolute { ns } else { r.now_ns() + ns };
	r.acts[me].st = St::Sleep(until);
	STEPS += 1;
	r.decide(me, SITE_TIME, true);
	set_in_lib(save);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
	if let Some(me) = simulated() {
		sim_sleep(me, req, false);
		return 0;
	}
	ret(raw::sys(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
	if let Some(me) = simulated() {
		sim_sleep(me, req, flags & 1 != 0);
		return 0;
	}
	-(raw::sys(230, i64::from(clk), i64::from(flags), req as i64, rem as i64, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
	if simulated_env() {
		let r = rt();
		fired(F_CLOCK);
		let mut t = r.now_ns();
		match r.clock_mode {
			0 => {}
			1 => {
				// large forward jumps, monotonic
				if r.env_rng.chance(1, 3) {
					r.clock_ns += r.env_rng.below(40_000_000) as u64 * 1_000_000_000;
				} else {
					r.clock_ns += r.env_rng.below(1 << 32) as u64;
				}
				t = r.now_ns();
			}
			_ => {
				// frozen monotonic clock
				t = 1_700_000_000_000_000_000;
			}
		}
		if (clk == 0 || clk == 5) && r.clock_mode != 0 {
			// the wall clock may be anything, backwards included
			t = r.env_rng.below(4_000_000_000) as u64 * 1_000_000_000;
		}
		*ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64];
		return 0;
	}
	ret(raw::sys(228, i64::from(clk), ts as i64, 0, 0, 0, 0)) as i32
}
unsafe fn random_fill(p: *mut u8, n: usize) -> isize {
	fired(F_RANDOM);
	let r = rt();
	for i in 0..n {
		*p.add(i) = match r.env_mode {
			0 => 0x42,
			_ => r.env_rng.u64() as u8,
		};
	}
	n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
	if simulated_env() {
		return random_fill(p, n);
	}
	if actor() >= 0 {
		// the simulator's own code must not draw on chance either
		std::ptr::write_bytes(p, 0x17, n);
		return n as isize;
	}
	ret(raw::sys(318, p as i64, n as i64, i64::from(flags), 0, 0, 0)) as isize
}
extern "C" {
	static mut environ: *const *const u8;
}
/// What programs look for in their environment, with values that are out of the ordinary somewhere.
static NAMES: [&str; 40] = [
	"LC_ALL", "LANG", "LC_CTYPE", "LC_COLLATE", "LC_MESSAGES", "LC_NUMERIC", "LC_TIME", "LANGUAGE", "HOME", "USER", "LOGNAME", "PATH", "TERM", "COLORTERM",
	"NO_COLOR", "CLICOLOR_FORCE", "DEBUG", "CI", "TZ", "TMPDIR", "PWD", "SHELL", "HOSTNAME", "EDITOR", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "COLUMNS", "LINES",
	"NUM_THREADS", "RAYON_NUM_THREADS", "MALLOC_ARENA_MAX", "VERBOSE", "LOG", "LOG_LEVEL", "STRICT", "POSIXLY_CORRECT", "LOJBAN", "SNETURFAHI", "SOURCE_DATE_EPOCH", "CARGO_PKG_VERSION",
];
static LOCALES: [&str; 10] = [
	"C", "en_US.UTF-8", "tr_TR.UTF-8", "az_AZ", "lt_LT.UTF-8", "de_DE.ISO-8859-1", "jbo", "ja_JP.eucJP", "el_GR", "",
];
static VALUES: [&str; 16] = ["1", "0", "", "true", "off", "trace", "debug", "never", "always", "xterm-256color", "dumb", "/nonexistent", "80", "4096", "-1", "\u{e9}"];
/// The environment of this run: NAME=VALUE strings and a terminator.
static mut ENVIRON: Vec<*const u8> = Vec::new();
fn draw_environment(seed: u64) {
	let mut r = Rng::new(seed);
	let mut v: Vec<*const u8> = vec![];
	// often one locale, as it is set in practice
	let one = r.chance(2, 3).then(|| *r.pick(&LOCALES));
	let skip = if r.chance(1, 2) { 1 } else { 4 };
	for n in NAMES {
		if r.chance(skip, 12) {
			continue;
		}
		let x = if n.starts_with("LA") || n.starts_with("LC") { one.unwrap_or_else(|| *r.pick(&LOCALES)) } else { *r.pick(&VALUES) };
		let s = format!("{n}={x}\0").into_bytes();
		v.push(Box::leak(s.into_boxed_slice()).as_ptr());
	}
	v.push(std::ptr::null());
	unsafe {
		let e = &mut *std::ptr::addr_of_mut!(ENVIRON);
		*e = v;
		environ = e.as_ptr();
	}
}
unsafe fn lookup(mut e: *const *const u8, n: &[u8]) -> *const u8 {
	while !e.is_null() && !(*e).is_null() {
		let s = std::ffi::CStr::from_ptr((*e).cast()).to_bytes();
		if s.len() > n.len() && s.starts_with(n) && s[n.len()] == b'=' {
			return (*e).add(n.len() + 1);
		}
		e = e.add(1);
	}
	std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
	let n = std::ffi::CStr::from_ptr(name.cast()).to_bytes();
	if simulated_env() && !n.starts_with(b"RUST_") {
		fired(F_GETENV);
		let r = rt();
		if r.env_mode == 0 {
			return std::ptr::null();
		}
		let p = lookup(environ, n);
		if p.is_null() && !NAMES.iter().any(|x| x.as_bytes() == n) {
			// a name of the library's own
			let h = hash_bytes(r.env_seed, n);
			if h % 3 > 0 {
				return OTHER[(h >> 8) as usize % OTHER.len()].as_ptr();
			}
		}
		return p;
	}
	lookup(environ, n)
}
static OTHER: [&[u8]; 9] = [b"1\0", b"0\0", b"trace\0", b"true\0", b"jbo_JB.UTF-8\0", b"C\0", b"/nonexistent\0", b"\0", b"17\0"];
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
	if simulated_env() {
		fired(F_PROCESS);
		return match rt().env_mode {
			0 => 2,
			_ => 2 + (rt().env_seed % 4_000_000) as i32,
		};
	}
	raw::sys(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, p: *mut u8) -> i32 {
	if simulated_env() {
		fired(F_PROCESS);
		// how many processors there are
		let k = match rt().env_mode {
			0 => 1,
			_ => [1, 2, 3, 64][rt().env_seed as usize % 4],
		};
		for i in 0..n {
			let left = (k as usize).saturating_sub(i * 8).min(8);
			*p.add(i) = ((1u32 << left) - 1) as u8;
		}
		return 0;
	}
	let r = raw::sys(204, i64::from(pid), n as i64, p as i64, 0, 0, 0);
	if r < 0 {
		return ret(r) as i32;
	}
	for i in r as usize..n {
		*p.add(i) = 0;
	}
	0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut u8, n: usize) -> *mut u8 {
	if simulated_env() {
		fired(F_PROCESS);
		let d: &[u8] = match rt().env_mode {
			0 => b"/\0",
			_ => [&b"/\0"[..], b"/home/jbo\0", b"/tmp/x y\0", b"\0"][rt().env_seed as usize % 4],
		};
		if d.len() < 2 {
			*__errno_location() = 2;
			return std::ptr::null_mut();
		}
		if p.is_null() || n < d.len() {
			*__errno_location() = 34;
			return std::ptr::null_mut();
		}
		std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
		return p;
	}
	let r = raw::sys(79, p as i64, n as i64, 0, 0, 0, 0);
	if r < 0 {
		ret(r);
		return std::ptr::null_mut();
	}
	p
}
