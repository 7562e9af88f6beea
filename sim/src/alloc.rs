//! Global allocator wrapper: per-thread accounting, and a limit above which
//! requests fail (a node with little memory).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[derive(Clone, Copy)]
pub struct Acct {
    pub armed: bool,
    pub cur: i64,
    pub peak: i64,
    pub largest: usize,
    pub limit: usize,
    pub total: i64,
    pub failed: u64,
    /// let requests above the limits through (within reason) and only count them
    pub soft: bool,
    /// first request above the limits
    pub over: usize,
    /// limits grow by this much for every byte received
    pub per: usize,
    pub received: usize,
}
thread_local! {
    static A: Cell<Acct> = const { Cell::new(Acct { armed: false, cur: 0, peak: 0, largest: 0, limit: usize::MAX, total: i64::MAX, failed: 0, soft: false, over: 0, per: 0, received: 0 }) };
}
pub struct SimAlloc;
#[inline]
fn on_alloc(size: usize) -> bool {
    A.try_with(|c| {
        let mut a = c.get();
        if !a.armed {
            return true;
        }
        if size > a.largest {
            a.largest = size;
        }
        if size > a.limit || a.cur.saturating_add(size as i64) > a.total {
            a.failed += 1;
            if a.over == 0 {
                a.over = size;
            }
            if !a.soft || size > 1 << 31 {
                c.set(a);
                return false;
            }
        }
        a.cur += size as i64;
        if a.cur > a.peak {
            a.peak = a.cur;
        }
        c.set(a);
        true
    })
    .unwrap_or(true)
}
#[inline]
fn on_free(size: usize) {
    let _ = A.try_with(|c| {
        let mut a = c.get();
        if a.armed {
            a.cur -= size as i64;
            c.set(a);
        }
    });
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !on_alloc(n) {
            return std::ptr::null_mut();
        }
        on_free(l.size());
        System.realloc(p, l, n)
    }
}
pub fn arm(limit: usize) {
    arm_total(limit, i64::MAX)
}
/// Single requests above `limit` fail, and so does everything above `total` at once.
pub fn arm_total(limit: usize, total: i64) {
    A.with(|c| c.set(Acct { armed: true, cur: 0, peak: 0, largest: 0, limit, total, failed: 0, soft: false, over: 0, per: 0, received: 0 }));
}
pub fn disarm() -> Acct {
    A.with(|c| {
        let mut a = c.get();
        a.armed = false;
        c.set(a);
        a
    })
}

/// Stops accounting until the guard goes (the simulator's own memory is not the node's).
pub struct Pause(bool);
pub fn pause() -> Pause {
    set_armed(false)
}
pub fn resume() -> Pause {
    set_armed(true)
}
fn set_armed(to: bool) -> Pause {
    A.with(|c| {
        let mut a = c.get();
        let was = a.armed;
        a.armed = to;
        c.set(a);
        Pause(was)
    })
}
impl Drop for Pause {
    fn drop(&mut self) {
        A.with(|c| {
            let mut a = c.get();
            a.armed = self.0;
            c.set(a);
        })
    }
}
/// Ready to account, but not accounting before `resume`: a node that may use
/// `base` bytes and `per` more for every byte it has received.
pub fn prepare(base: usize, per: usize, soft: bool) {
    A.with(|c| c.set(Acct { armed: false, cur: 0, peak: 0, largest: 0, limit: base, total: base as i64, failed: 0, soft, over: 0, per, received: 0 }));
}
pub fn received(n: usize) {
    A.with(|c| {
        let mut a = c.get();
        if a.per > 0 {
            a.received += n;
            a.limit += n * a.per;
            a.total += (n * a.per) as i64;
            c.set(a);
        }
    })
}
pub fn look() -> Acct {
    A.with(|c| c.get())
}
