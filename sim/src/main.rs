mod alloc;
#[macro_use]
mod engine;
mod driver;
mod exec;
mod io;
mod scn;
mod sys;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    // The same text and the same work for every error, whatever the caller's environment.
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    std::process::exit(driver::main());
}
