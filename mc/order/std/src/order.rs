//! The orders: a table that is iterated over asks here in which order. An order is kept as long as the table has as
//! many entries (that is: a table that does not change is always iterated over in the same order, as the real ones are).
use ::std::cell::RefCell;
use ::std::sync::atomic::{AtomicU64, Ordering};

#[derive(Default)]
struct State { plan: Vec<(usize, usize)>, all: Option<usize>, points: Vec<usize> }
thread_local! { static STATE: RefCell<State> = RefCell::new(State::default()); }

/// Orders that are tried for `n` entries: all of them for up to 4, otherwise every entry first, every entry last,
/// neighbours swapped, all reversed.
pub fn orders(n: usize) -> usize { match n { 0 | 1 => 1, 2 => 2, 3 => 6, 4 => 24, n => 2 + 3 * (n - 1) } }

/// Begin a run: at the choice point `p` the order `o` (0 anywhere else). With `all`, that order everywhere.
pub fn begin(plan: Vec<(usize, usize)>, all: Option<usize>) { STATE.with(|s| *s.borrow_mut() = State { plan, all, points: vec![] }) }
/// Choice points of the run: numbers of entries.
pub fn end() -> Vec<usize> { STATE.with(|s| std::mem::take(&mut *s.borrow_mut()).points) }

pub(crate) struct Order(AtomicU64);
impl Order {
    pub(crate) fn new() -> Order { Order(AtomicU64::new(0)) }
    fn get(&self, n: usize) -> usize {
        let v = self.0.load(Ordering::Relaxed);
        if (v >> 32) as usize == n { return (v & 0xffff_ffff) as usize }
        let o = STATE.with(|s| {
            let s = &mut *s.borrow_mut();
            let p = s.points.len();
            s.points.push(n);
            match s.all { Some(k) => k % orders(n), None => s.plan.iter().find(|(q, _)| *q == p).map_or(0, |(_, o)| *o) }
        });
        self.0.store((n as u64) << 32 | o as u64, Ordering::Relaxed);
        o
    }
    pub(crate) fn apply<T>(&self, mut v: Vec<T>) -> Vec<T> {
        let n = v.len();
        if n < 2 { return v }
        let mut o = self.get(n);
        if n <= 4 {
            // Lehmer code
            let mut out = Vec::with_capacity(n);
            for k in (1..=n).rev() { out.push(v.remove(o % k)); o /= k }
            return out
        }
        match o {
            0 => v,
            1 => { v.reverse(); v }
            o => {
                let (kind, i) = ((o - 2) / (n - 1), (o - 2) % (n - 1));
                match kind {
                    0 => { let x = v.remove(i + 1); v.insert(0, x) }
                    1 => { let x = v.remove(i); v.push(x) }
                    _ => v.swap(i, i + 1),
                }
                v
            }
        }
    }
}
impl Clone for Order { fn clone(&self) -> Order { Order(AtomicU64::new(self.0.load(Ordering::Relaxed))) } }
impl Default for Order { fn default() -> Order { Order::new() } }
