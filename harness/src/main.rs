mod e2e;
mod gated;
mod misc;
mod runner;
mod storages;
mod util;
mod virt;
use runner::Suite;

const SUITES: &[(&str, Suite)] = &[
    ("bounded", storages::bounded),
    ("bounded_threads", storages::bounded_threads),
    ("bounded_interleaved", storages::bounded_interleaved),
    ("memory", storages::memory),
    ("memory_threads", storages::memory_threads),
    ("temp", storages::temp),
    ("temp_errors", storages::temp_errors),
    ("adaptive", storages::adaptive),
    ("adaptive_bounded", storages::adaptive_bounded),
    ("e2e", e2e::e2e),
    ("e2e_stall", e2e::e2e_stall),
    ("e2e_ring", e2e::e2e_ring),
    ("e2e_large", e2e::e2e_large),
    ("prefetch", gated::prefetch),
    ("seeks", gated::seeks),
    ("capacity", gated::capacity),
    ("failures", gated::failures),
    ("interrupted_write", gated::interrupted_write),
    ("settings", gated::settings_suite),
    ("virtual", virt::virtual_time),
    ("registry", misc::registry),
    ("process", misc::process),
    ("async_read", misc::async_read),
    ("finish_hooks", misc::finish_hooks),
];
fn plan(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["bounded", "bounded", "bounded", "e2e_ring", "e2e_ring", "bounded_threads", "bounded_interleaved"],
        "C02" => &["bounded", "bounded", "bounded", "bounded", "bounded", "bounded_threads", "bounded_interleaved"],
        "C03" => &["memory", "memory", "memory_threads"],
        "C04" => &["seeks", "seeks", "e2e"],
        "C05" => &["e2e", "e2e", "seeks", "seeks", "e2e", "e2e", "e2e_stall", "e2e_ring", "e2e_ring", "e2e_large"],
        "C06" => &["e2e", "e2e", "e2e", "e2e", "e2e_stall", "e2e_stall", "interrupted_write", "e2e_large"],
        "C07" => &["e2e", "e2e", "e2e", "e2e", "e2e_large"],
        "C08" => &["capacity"],
        "C09" => &["failures", "failures", "failures", "e2e", "e2e", "finish_hooks"],
        "C12" => &["registry"],
        "C13" => &["adaptive", "adaptive_bounded"],
        "C14" => &["process"],
        "C15" => &["e2e", "e2e", "failures"],
        "C16" => &["prefetch"],
        "C17" => &["settings", "settings", "e2e", "virtual"],
        "C18" => &["e2e_stall", "e2e_stall", "settings", "virtual"],
        "C19" => &["async_read", "process"],
        "C20" => &["temp", "temp", "temp_errors"],
        _ => &[],
    }
}

fn main() {
    runner::main(SUITES, plan, misc::cleanup_scripts);
}
