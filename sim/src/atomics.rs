//! Every atomic operation of the instrumented library arrives here: it is a preemption point, and
//! (one thread runs at a time) it is then performed sequentially consistently.
use std::sync::atomic::{fence, AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

use crate::rt::atomic_site;

macro_rules! family {
	($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
		#[no_mangle]
		pub unsafe extern "C" fn $load(p: *const $t, _: i32) -> $t {
			atomic_site(p as usize, false);
			(*(p as *const $a)).load(SeqCst)
		}
		#[no_mangle]
		pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
			atomic_site(p as usize, true);
			(*(p as *const $a)).store(v, SeqCst);
		}
		family!(@rmw $t, $a, $xchg, swap);
		family!(@rmw $t, $a, $add, fetch_add);
		family!(@rmw $t, $a, $sub, fetch_sub);
		family!(@rmw $t, $a, $and, fetch_and);
		family!(@rmw $t, $a, $or, fetch_or);
		family!(@rmw $t, $a, $xor, fetch_xor);
		family!(@rmw $t, $a, $nand, fetch_nand);
		#[no_mangle]
		pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
			atomic_site(p as usize, true);
			match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) {
				Ok(x) | Err(x) => x,
			}
		}
	};
	(@rmw $t:ty, $a:ty, $n:ident, $op:ident) => {
		#[no_mangle]
		pub unsafe extern "C" fn $n(p: *mut $t, v: $t, _: i32) -> $t {
			atomic_site(p as usize, true);
			(*(p as *const $a)).$op(v, SeqCst)
		}
	};
}
family!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
family!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
family!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
family!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
	atomic_site(0, false);
	fence(SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
