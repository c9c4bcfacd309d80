//! The allocator seam. Memory requested by the library under test (and only that) comes from a
//! fixed-address region managed here, so that placement, reuse, content and failure are decided by
//! the plan; everything else goes to the system allocator.
use std::alloc::{GlobalAlloc, Layout, System};

use crate::rt;

pub const BASE: usize = 0x5000_0000_0000;
/// Reserved; a run uses at most `SPAN` of it.
pub const SIZE: usize = 7 << 30;
const SPAN: usize = 2 << 30;
const NCLASS: usize = 96;
const HDR: usize = 32;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Policy {
	/// 0 newest block first, 1 oldest first, 2 never, 3 coin toss between reuse and fresh memory.
	pub reuse: u8,
	/// Random gaps between fresh blocks (varies alignment beyond 16 and distance).
	pub gap: bool,
	/// Byte that fresh and freed memory is filled with.
	pub fill: u8,
}
impl Policy {
	pub const CANON: Policy = Policy { reuse: 0, gap: false, fill: 0 };
}

pub struct Heap {
	pub ready: bool,
	pub policy: Policy,
	next: usize,
	begin: usize,
	head: [usize; NCLASS],
	tail: [usize; NCLASS],
	rng: u64,
	pub live: i64,
	pub blocks: i64,
	pub allocs: u64,
	pub peak: i64,
}
pub static mut HEAP: Heap = Heap {
	ready: false,
	policy: Policy::CANON,
	next: BASE,
	begin: BASE,
	head: [0; NCLASS],
	tail: [0; NCLASS],
	rng: 1,
	live: 0,
	blocks: 0,
	allocs: 0,
	peak: 0,
};

/// Map the region (once, before any fork; untouched pages cost nothing).
pub fn map() {
	unsafe {
		let p = rt::raw::mmap_fixed(BASE, SIZE);
		assert_eq!(p, BASE, "cannot map the simulated heap");
	}
}
pub fn start(policy: Policy, seed: u64) {
	unsafe {
		let h = &mut *std::ptr::addr_of_mut!(HEAP);
		h.policy = policy;
		h.rng = seed | 1;
		h.ready = true;
		if policy.gap {
			// near the start, or just before an address boundary
			let edge = [0, 0, 1 << 31, 1 << 32][rnd(h) as usize % 4];
			let x = (rnd(h) as usize % 4096) * 16;
			h.next = if edge == 0 { BASE + x } else { BASE + edge - x / 4 };
			h.begin = h.next;
		}
	}
}
fn rnd(h: &mut Heap) -> u64 {
	crate::prng::splitmix(&mut h.rng)
}

/// Class c holds blocks of `size_of_class(c)`: 32, 48, 64, 96, 128, 192, ...
fn class_of(size: usize) -> usize {
	let mut c = 0;
	while size_of_class(c) < size {
		c += 1;
	}
	c
}
fn size_of_class(c: usize) -> usize {
	if c % 2 == 0 {
		32 << (c / 2)
	} else {
		48 << (c / 2)
	}
}

unsafe fn take(h: &mut Heap, layout: Layout) -> *mut u8 {
	let c = class_of(layout.size().max(1));
	let reuse = match h.policy.reuse {
		2 => h.next > h.begin + SPAN / 2,
		3 => rnd(h) & 1 == 0,
		_ => true,
	};
	let align = layout.align().max(16);
	if reuse && h.head[c] != 0 && h.head[c] % align == 0 {
		let p = h.head[c];
		h.head[c] = *(p as *const usize);
		if h.head[c] == 0 {
			h.tail[c] = 0;
		}
		return p as *mut u8;
	}
	let mut p = h.next + HDR;
	if h.policy.gap {
		p += (rnd(h) as usize % 16) * 16;
	}
	p = (p + align - 1) & !(align - 1);
	let end = p + size_of_class(c);
	if end > h.begin + SPAN {
		return std::ptr::null_mut();
	}
	h.next = end;
	p as *mut u8
}
unsafe fn give(h: &mut Heap, p: usize, layout: Layout) {
	let c = class_of(layout.size().max(1));
	std::ptr::write_bytes(p as *mut u8, h.policy.fill ^ 0xff, layout.size().min(4096));
	*(p as *mut usize) = 0;
	if h.policy.reuse == 0 || h.head[c] == 0 || h.policy.reuse == 3 {
		*(p as *mut usize) = h.head[c];
		if h.head[c] == 0 {
			h.tail[c] = p;
		}
		h.head[c] = p;
	} else {
		*(h.tail[c] as *mut usize) = p;
		h.tail[c] = p;
	}
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if !rt::in_lib() || l.align() > 4096 {
			return System.alloc(l);
		}
		let h = &mut *std::ptr::addr_of_mut!(HEAP);
		if !h.ready {
			return System.alloc(l);
		}
		rt::tick(rt::SITE_ALLOC);
		if rt::alloc_fails(l.size()) {
			return std::ptr::null_mut();
		}
		let p = take(h, l);
		if !p.is_null() {
			h.live += l.size() as i64;
			h.blocks += 1;
			h.allocs += 1;
			h.peak = h.peak.max(h.live);
			std::ptr::write_bytes(p, h.policy.fill, l.size().min(4096));
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		let a = p as usize;
		if !(BASE..BASE + SIZE).contains(&a) {
			return System.dealloc(p, l);
		}
		rt::tick(rt::SITE_FREE);
		let h = &mut *std::ptr::addr_of_mut!(HEAP);
		h.live -= l.size() as i64;
		h.blocks -= 1;
		give(h, a, l);
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let p = self.alloc(l);
		if !p.is_null() {
			std::ptr::write_bytes(p, 0, l.size());
		}
		p
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
		let a = p as usize;
		if !(BASE..BASE + SIZE).contains(&a) && (!rt::in_lib() || !(*std::ptr::addr_of!(HEAP)).ready) {
			return System.realloc(p, l, new);
		}
		let nl = Layout::from_size_align_unchecked(new, l.align());
		let q = self.alloc(nl);
		if !q.is_null() {
			std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
			self.dealloc(p, l);
		}
		q
	}
}
