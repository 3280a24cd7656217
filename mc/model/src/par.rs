//! Parallel exhaustive enumeration: the work list is split by index, every item is visited.
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) }

pub fn for_each<T: Sync>(items: &[T], f: impl Fn(usize, &T) + Sync) {
    let next = AtomicUsize::new(0);
    let chunk = std::cmp::max(1, std::cmp::min(16, items.len() / (threads() * 64)));
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(chunk, Ordering::Relaxed);
                if i >= items.len() { break }
                for j in i..std::cmp::min(i + chunk, items.len()) { f(j, &items[j]) }
            }).unwrap();
        }
    });
}
