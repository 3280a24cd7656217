//! A log sink that formats every record and keeps none of it: the codecs' log statements, and what their
//! arguments compute, are part of the behaviour explored.
use std::fmt::Write;
struct Nowhere(usize);
impl Write for Nowhere { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let mut n = Nowhere(0); let _ = n.write_fmt(*r.args()); std::hint::black_box(n.0); }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
pub fn on() { let _ = log::set_logger(&SINK); log::set_max_level(log::LevelFilter::Trace); }
