//! One scenario per property.

use crate::core::SResult;

pub mod cli;
pub mod extensions;
pub mod faults;
pub mod format;
pub mod histories;
pub mod keys;
pub mod meta;
pub mod prep;
pub mod refuse;
pub mod remote;
pub mod repro;
pub mod roundtrip;
pub mod search;
pub mod stretch;
pub mod text;
pub mod trees;
#[cfg(feature = "wasm")]
pub mod wasm;

pub struct Scenario {
    pub id: &'static str,
    pub run: fn() -> SResult,
    /// runs of a quick check
    pub quick: u64,
    pub level: &'static str,
    pub rule: &'static str,
    /// real components / stubs
    pub real: &'static str,
    pub stub: &'static str,
}

const LOCAL_STUB: &str = "byte sources and sinks, temporary file (memfd behind interposed libc calls), hash keys";
const HTTP_STUB: &str = "byte sources and sinks, temporary file (memfd behind interposed libc calls), HTTP server, executor and clock, hash keys";

pub fn all() -> Vec<Scenario> {
    vec![
        Scenario {
            id: "C01",
            run: roundtrip::c01,
            quick: 30000,
            level: "exploration",
            rule: "a random dataset and writer options, written and read back by every full-scan path under random splits, interruptions, latencies and hash keys; non-trivial when at least one feature was compared",
            real: "FcbWriter, FcbReader (Read and Read+Seek), HttpFcbReader, AsyncBufferedHttpRangeClient",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C02",
            run: meta::c02,
            quick: 30000,
            level: "exploration",
            rule: "a random dataset, header and writer options (also wrong counts); the file is decoded by an independent decoder and compared with every reader's header",
            real: "FcbWriter, FcbReader, HttpFcbReader, to_cj_metadata",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C03",
            run: search::c03,
            quick: 50000,
            level: "exploration",
            rule: "random placements and box or point queries; non-trivial when the answer is neither empty nor everything",
            real: "FcbWriter, FcbReader, packed R-tree",
            stub: LOCAL_STUB,
        },
        Scenario {
            id: "C04",
            run: search::c04,
            quick: 50000,
            level: "exploration",
            rule: "random placements and query points; non-trivial when there are at least two features",
            real: "FcbWriter, FcbReader, HttpFcbReader, packed R-tree",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C05",
            run: search::c05,
            quick: 50000,
            level: "exploration",
            rule: "random attribute columns of every type and conjunctions of conditions; non-trivial when the answer is neither empty nor everything",
            real: "FcbWriter, FcbReader, static B+tree (memory and stream)",
            stub: LOCAL_STUB,
        },
        Scenario {
            id: "C06",
            run: remote::c06,
            quick: 20000,
            level: "exploration",
            rule: "one to four readers of one served file, scheduled at random with latencies, cancellations and servers that ignore Range; each answer compared with a plain local read; non-trivial when the answer is neither empty nor everything",
            real: "HttpFcbReader, AsyncBufferedHttpRangeClient, packed R-tree and B+tree over HTTP, FcbReader as reference",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C08",
            run: remote::c08,
            quick: 25000,
            level: "exploration",
            rule: "a request over HTTP with failures (status, connection, short answers) placed at random among its requests, healed or sticky or repeated; compared with the same request without failures; non-trivial when a failure was delivered",
            real: "HttpFcbReader, AsyncBufferedHttpRangeClient, packed R-tree and B+tree over HTTP",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C07",
            run: faults::c07,
            quick: 25000,
            level: "exploration",
            rule: "a scan or query through a local reader (with and without BufReader) counted without failures, then repeated with read errors, seek errors and premature ends placed at random among its operations; non-trivial when a failure was delivered",
            real: "FcbReader (Read and Read+Seek), packed R-tree, static B+tree",
            stub: LOCAL_STUB,
        },
        Scenario {
            id: "C09",
            run: faults::c09,
            quick: 25000,
            level: "exploration",
            rule: "writing a random dataset, counted without failures, then repeated with failures of the sink (error, accepts nothing, full, on flush only) or of the temporary file's system calls placed at random; non-trivial when a failure was delivered",
            real: "FcbWriter, index builders, tempfile, FcbReader for reading back",
            stub: LOCAL_STUB,
        },
        Scenario {
            id: "C10",
            run: faults::c10,
            quick: 25000,
            level: "exploration",
            rule: "a written file cut at a random point (biased to section and record boundaries, partly with a zero-filled tail), or the durable bytes of a writer that died; read by every path; non-trivial when bytes are missing",
            real: "FcbWriter, FcbReader (Read and Read+Seek), HttpFcbReader",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C11",
            run: faults::c11,
            quick: 20000,
            level: "exploration",
            rule: "a written file with its signature, version, header size, header, record sizes or record bytes damaged at random; read by every path; non-trivial when the damage is detectable",
            real: "FcbReader (Read and Read+Seek), HttpFcbReader, flatbuffer verification",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C12",
            run: trees::c12,
            quick: 150000,
            level: "exploration",
            rule: "random entries, branching factors and lookups on the B+tree in memory, after reload, over a stream at a random base and over HTTP, one index or several, with failures placed at random among the operations; non-trivial when the answer is neither empty nor everything or a failure was delivered",
            real: "MemoryIndex, StreamIndex, HttpIndex, their multi-indices, Stree, AsyncBufferedHttpRangeClient",
            stub: "byte sources and sinks, HTTP server, executor and clock, hash keys",
        },
        Scenario {
            id: "C13",
            run: trees::c13,
            quick: 120000,
            level: "exploration",
            rule: "random boxes, node sizes and queries on the packed R-tree in memory, after reload, over a stream at a random base and over HTTP with several merging thresholds, with failures placed at random among the operations; non-trivial when the answer is neither empty nor everything or a failure was delivered",
            real: "PackedRTree (build, serialize, load, search, stream and HTTP search), hilbert_sort, calc_extent, AsyncBufferedHttpRangeClient",
            stub: "byte sources and sinks, HTTP server, executor and clock, hash keys",
        },
        Scenario {
            id: "C14",
            run: cli::c14,
            quick: 10000,
            level: "exploration",
            rule: "a random dataset, command and options; the tool is run without failures and with failures at chosen system calls; non-trivial when there is something to convert",
            real: "the fcb executable",
            stub: "system calls on its files and standard streams (interposed by a preloaded library), hash keys",
        },
        Scenario {
            id: "C15",
            run: text::c15,
            quick: 25000,
            level: "exploration",
            rule: "a random dataset as text, read under random splits and interruptions, with read failures, early ends, cuts and broken lines; every run is non-trivial",
            real: "read_cityjson, read_cityjson_from_reader",
            stub: "byte sources; files behind interposed libc calls; hash keys",
        },
        Scenario {
            id: "C16",
            run: format::c16,
            quick: 8000,
            level: "exploration",
            rule: "a file of the committed corpus, written by the base build, or a new file; read on every path under random splits, interruptions and latencies with its header, features and random queries compared with what was written; new files decoded byte by byte by an independent reader; non-trivial when it holds a feature",
            real: "FcbWriter, FcbReader, HttpFcbReader, both kinds of index",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C17",
            run: remote::c17,
            quick: 12000,
            level: "exploration",
            rule: "the log of requests of scans, spatial and attribute queries over small files and one of more than 10 MB, with and without failures; non-trivial when a feature was selected",
            real: "HttpFcbReader, AsyncBufferedHttpRangeClient, packed R-tree and B+tree over HTTP",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C18",
            run: repro::c18,
            quick: 20000,
            level: "exploration",
            rule: "a random dataset written by two or three writers whose calls are interleaved at random, with another dataset's writer in between, under random splits and hash keys, and by two processes of the tool; non-trivial when it has at least two features",
            real: "FcbWriter; the fcb executable",
            stub: LOCAL_STUB,
        },
        Scenario {
            id: "C19",
            run: keys::c19,
            quick: 150000,
            level: "exploration",
            rule: "random keys of every type, extremes included, written to and read from streams under random splits, interruptions, failures and cuts, and compared pairwise; non-trivial when a failure or cut was delivered",
            real: "the Key trait's implementations, Entry",
            stub: "byte sources and sinks",
        },
        Scenario {
            id: "C22",
            run: histories::c22,
            quick: 20000,
            level: "exploration",
            rule: "up to four readers and writers over one or two random files, their calls interleaved by the scheduler, some failing, some given up midway; every answer is compared with a model of its own history; non-trivial when there are several, or one with several features",
            real: "FcbWriter, FcbReader, FeatureIter, HttpFcbReader, AsyncFeatureIter, AsyncBufferedHttpRangeClient",
            stub: HTTP_STUB,
        },
        Scenario {
            id: "C23",
            run: extensions::c23,
            quick: 20000,
            level: "exploration",
            rule: "a random dataset declaring extensions whose schemas a simulated server holds, written with and without failing fetches; non-trivial when an extension is declared",
            real: "FcbWriter, header serialisation, FcbReader, HttpFcbReader, cjseq's extension fetching",
            stub: "the HTTP client under cjseq (reqwest 0.11) and its server, byte sources and sinks, temporary file, clock, hash keys",
        },
        Scenario {
            id: "C21",
            run: refuse::c21,
            quick: 50000,
            level: "exploration",
            rule: "features, headers and schemas the format cannot hold offered to a writer among ordinary ones, and temporary-file failures after which the caller goes on; non-trivial when something was refused or a failure fired",
            real: "FcbWriter; FcbReader and HttpFcbReader for reading back",
            stub: HTTP_STUB,
        },
        #[cfg(feature = "wasm")]
        Scenario {
            id: "C24",
            run: wasm::c24,
            quick: 15000,
            level: "exploration",
            rule: "requests of browser readers over random files and one of more than 10 MB, several readers at once, some given up, or one with failing fetches; non-trivial when a failure struck or a proper part was selected",
            real: "fcb_wasm (HttpFcbReader, AsyncFeatureIter, WasmSpatialQuery, WasmAttrQuery, WasmHttpClient) compiled for this machine, AsyncBufferedHttpRangeClient, both indices over HTTP",
            stub: "JavaScript values and their conversion (wasm-bindgen, js-sys, serde-wasm-bindgen), fetch (gloo-net), HTTP server, executor and clock, hash keys",
        },
    ]
}

pub fn find(id: &str) -> Option<Scenario> {
    all().into_iter().find(|s| s.id == id)
}
