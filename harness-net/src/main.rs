//! HTTP and OpenDAL checks through the public API.
mod http;
mod opendal_suite;
#[path = "../../harness/src/runner.rs"]
mod runner;
mod server;
#[path = "../../harness/src/util.rs"]
mod util;
use runner::Suite;

const SUITES: &[(&str, Suite)] = &[("mock", http::mock), ("real", http::real), ("headers", http::headers), ("opendal", opendal_suite::opendal)];
fn plan(prop: &str) -> &'static [&'static str] {
    match prop {
        "C10" | "C11" => &["mock", "mock", "mock", "mock", "mock", "mock", "mock", "headers", "real"],
        "C19" => &["opendal"],
        _ => &[],
    }
}
fn main() {
    runner::main(SUITES, plan, || ());
}
