//! The properties and their scenarios.

use crate::world::Res;

mod hostile;
mod link;
mod memory;
mod read;
mod tasks;
mod write;

pub struct Prop {
    pub id: &'static str,
    pub scenario: fn() -> Res,
    /// Runs of the quick tier.
    pub runs: u64,
    /// Explored in the further builds, too (for this share of the runs).
    pub also: bool,
    pub share: f64,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

const STREAM: &str = "the stream (SimReader) and the reference model of BER/DER";
const WRITER: &str = "the writer (SimWriter), the hash seed source (getrandom), the reference encoder";
const KEEPS_CONTRACT: &str = "readers and writers keep the contracts of std::io::Read and Write";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        scenario: read::c01,
        runs: 180_000,
        also: true,
        share: 0.3,
        stubs: STREAM,
        assumptions: &[KEEPS_CONTRACT],
    },
    Prop {
        id: "C02",
        scenario: read::c02,
        runs: 180_000,
        also: true,
        share: 0.3,
        stubs: STREAM,
        assumptions: &[KEEPS_CONTRACT],
    },
    Prop {
        id: "C03",
        scenario: read::c03,
        runs: 150_000,
        also: true,
        share: 0.3,
        stubs: STREAM,
        assumptions: &[KEEPS_CONTRACT],
    },
    Prop {
        id: "C04",
        scenario: read::c04,
        runs: 60_000,
        also: true,
        share: 0.5,
        stubs: "the stream (SimReader), the allocator's accounting and the machine's memory limit (SimAlloc)",
        assumptions: &[KEEPS_CONTRACT, "typed values are small: the bound concerns the element, not collections built from it"],
    },
    Prop {
        id: "C05",
        scenario: read::c05,
        runs: 200_000,
        also: true,
        share: 0.3,
        stubs: "the network that fills the receive buffer, the reference model of BER/DER",
        assumptions: &[],
    },
    Prop {
        id: "C06",
        scenario: write::c06,
        runs: 140_000,
        also: true,
        share: 0.3,
        stubs: WRITER,
        assumptions: &[KEEPS_CONTRACT],
    },
    Prop {
        id: "C07",
        scenario: write::c07,
        runs: 150_000,
        also: true,
        share: 0.3,
        stubs: WRITER,
        assumptions: &[KEEPS_CONTRACT],
    },
    Prop {
        id: "C08",
        scenario: write::c08,
        runs: 90_000,
        also: true,
        share: 0.3,
        stubs: WRITER,
        assumptions: &["user types that state a length in advance keep to it"],
    },
    Prop {
        id: "C09",
        scenario: link::c09,
        runs: 80_000,
        also: true,
        share: 0.3,
        stubs: "the link, the peer's encoder, the scheduler of the two ends",
        assumptions: &["conversions of user types are functions and inverse to each other"],
    },
    Prop {
        id: "C10",
        scenario: link::c10,
        runs: 120_000,
        also: true,
        share: 0.3,
        stubs: "the disk: page cache, torn and zero-filled tails, disk full",
        assumptions: &["what survives a crash is a prefix of what was written, possibly followed by zeros"],
    },
    Prop {
        id: "C11",
        scenario: hostile::c11,
        runs: 150_000,
        also: true,
        share: 0.3,
        stubs: "the link that corrupts, the hostile peer",
        assumptions: &["nesting depth of recursive types is at most 256"],
    },
    Prop {
        id: "C12",
        scenario: memory::c12,
        runs: 80_000,
        also: true,
        share: 0.6,
        stubs: "the allocator's placement (SimAlloc over the system allocator), streams, caller code",
        assumptions: &["writes further than 32 bytes beyond a block, and reads out of bounds, may go unseen"],
    },
    Prop {
        id: "C13",
        scenario: memory::c13,
        runs: 20_000,
        also: true,
        share: 0.6,
        stubs: "the allocator's refusals (SimAlloc), streams",
        assumptions: &[],
    },
    Prop {
        id: "C14",
        scenario: memory::c14,
        runs: 90_000,
        also: true,
        share: 0.6,
        stubs: "the allocator's placement (SimAlloc), the reference model of elements",
        assumptions: &[],
    },
    Prop {
        id: "C15",
        scenario: tasks::c15,
        runs: 15_000,
        also: true,
        share: 0.3,
        stubs: "the scheduler (one task runs at a time), streams",
        assumptions: &["memory is sequentially consistent: switches fall between instructions, reordering by the processor is not simulated"],
    },
    Prop {
        id: "C16",
        scenario: memory::c16,
        runs: 120_000,
        also: true,
        share: 0.6,
        stubs: "the changing source, the allocator's placement (SimAlloc)",
        assumptions: &[],
    },
    Prop {
        id: "C17",
        scenario: tasks::c17,
        runs: 40_000,
        also: true,
        share: 0.3,
        stubs: "streams, hash seed source, the allocator's placement and filling (SimAlloc)",
        assumptions: &[],
    },
];
