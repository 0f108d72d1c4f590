#[cfg(not(feature = "engine"))]
fn main() {
    sym::runner::run_forked(builder::ENTRIES, std::env::args().skip(1).collect())
}
#[cfg(feature = "engine")]
fn main() {}
