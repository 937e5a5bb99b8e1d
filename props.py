"""What decides each property: the verification units (specs/*.rs, contracts over functions extracted
from /repo) and the bounded stand-in that runs beside them (harness crates)."""

TRUSTED = [
    "Verus 0.2026.09.13 and its Z3: the deciding verifier",
    "vx (/verif/vx): the extractor that copies the functions out of /repo and rewrites std/async/generic syntax Verus does not read (listed in DESIGN.md and, per function, in functions_under_contract)",
    "specs/prelude.rs: models of std::io, slices, Option/Result helpers, locks and Arc (treated as plain ownership)",
]
RANGESET = "rangemap::RangeSet insert/get/gaps behave as documented"
ASYNC = "an async function is verified as its sequential body; a select! arm that loses is cancel-safe; any arm may win"
STREAM = "a SourceStream delivers the resource's bytes in order, a failed or timed-out reconnect leaves it where it was"
STORE = "the storage passed to the download engine keeps what was written until it is overwritten (proved for bounded and memory storage in their own units)"
TRACE = "logging (tracing) has no effect; user callbacks do not touch the stream or the storage"
READER = "a storage reader's seek to Start(p) lands on p, stream_position reports where it is, and read advances by what it returns (proved for bounded and memory storage)"
HANDLE = "the download task only ever adds to the downloaded set; once it has announced its end, the set and the failure flag are final (proved of the task in units source and download)"
LOCKS = "Mutex/RwLock-protected state is treated as owned by the function for the duration of the lock"

PROPS = {
    "C01": dict(units=["bounded"], assumptions=["the wrapped storage is a byte array with Read/Write/Seek semantics (the contract proved for memory storage)", LOCKS, "positions stay below 2^63"]),
    "C02": dict(units=["bounded", "handle", "reader"], assumptions=["the wrapped storage is a byte array with Read/Write/Seek semantics (the contract proved for memory storage)", LOCKS, "positions stay below 2^63"]),
    "C03": dict(units=["memory"], assumptions=[LOCKS, "Vec resize/copy_from_slice behave as documented"]),
    "C04": dict(units=["reader", "settings"], assumptions=[HANDLE, LOCKS, TRACE, READER]),
    "C05": dict(units=["source", "reader", "handle"], assumptions=[RANGESET, ASYNC, STREAM, STORE, TRACE]),
    "C06": dict(units=["source"], assumptions=[RANGESET, ASYNC, STREAM, STORE, TRACE]),
    "C07": dict(units=["source", "handle", "reader"], assumptions=[RANGESET, ASYNC, STREAM, TRACE]),
    "C08": dict(units=["reader", "bounded", "settings"], assumptions=[HANDLE, LOCKS, TRACE, READER]),
    "C09": dict(units=["source", "download", "handle", "reader", "settings", "process"], assumptions=[RANGESET, ASYNC, STREAM, TRACE]),
    "C10": dict(units=["http", "reqwest"], harness=["harness-net"], assumptions=[ASYNC, TRACE, "a Client sends the request it is asked to send and returns the response to it; reqwest's request builder sends the URL and headers it was given"]),
    "C11": dict(units=["http", "reqwest"], harness=["harness-net"], assumptions=[ASYNC, TRACE, "a Client returns the response to the request; reqwest reports the response's status, headers and body truthfully; mediatype and u64::from_str parse as documented"]),
    "C12": dict(units=["registry"], assumptions=["slice::sort_by_key is a stable sort; str::starts_with/strip_prefix/replacen and Url::parse behave as documented; the pattern ^https?$ matches exactly http and https", "an entry's priority and rules do not change while it is registered", ASYNC]),
    "C13": dict(units=["adaptive", "settings"], assumptions=["the wrapped storages are arbitrary: only that each call reaches them once, unchanged"]),
    "C14": dict(units=["process"], assumptions=["std/tokio process::Command start what they were built with: program, arguments, stdin connected to the given pipe; Vec::insert/push behave as documented", "a conversion into OsString/String/Command keeps the text", ASYNC, TRACE]),
    "C15": dict(units=["source"], assumptions=[RANGESET, ASYNC, STREAM, TRACE]),
    "C16": dict(units=["source"], assumptions=[RANGESET, ASYNC, STREAM, TRACE, "positions stay below 2^64-1"]),
    "C17": dict(units=["settings", "source", "reader"], assumptions=[ASYNC, TRACE]),
    "C18": dict(units=["source"], assumptions=[RANGESET, ASYNC, STREAM, TRACE]),
    "C19": dict(units=["process", "opendal"], harness=["harness", "harness-net"], assumptions=[ASYNC, TRACE, "tokio-util's ReaderStream delivers the reader's bytes in order; OpenDAL's stat and reader describe the same, unchanging object and a reader over a range delivers exactly that range; poll_read_buf appends what it read; pin-project-lite projects the fields"]),
    "C20": dict(units=["temp"], assumptions=["tempfile creates a fresh file in the given directory with the given prefix, opened at offset zero; reopen gives an offset of its own, try_clone shares it; std's File read/seek act on the file at the time of the call", "Default is derived (all fields None)"]),
}

NOT_APPLICABLE = {
    "C21": "liveness under arbitrary schedules (absence of lost wake-ups): per-function contracts state what holds when a wait returns, not that it returns; no deductive Rust verifier here reasons about tokio Notify and condvar wake-ups",
    "C22": "bounded-time termination of a task from every suspension point is a liveness property of the async scheduler, not expressible as a function contract",
    "C23": "reaping of operating-system child processes happens in tokio's kill_on_drop and the kernel; no contract on the repository's functions can express it",
}
