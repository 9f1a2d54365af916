//! C17 .ms archives, version 2
use super::c16::*;
use crate::check;
use crate::fw::*;
use proptest::prelude::*;

fn v2() -> BoxedStrategy<C> {
    case(true)
}
fn huge2() -> BoxedStrategy<C> {
    huge(true)
}
fn bad2() -> BoxedStrategy<Bad> {
    bad(true)
}
pub fn property() -> Property {
    Property {
        id: "C17",
        subs: vec![
            check!("archive", "at least two entries", 200, 3000, v2, archive),
            check!("huge", "at least two entries", 60, 1000, huge2, archive),
            check!("refused", "some bytes left", 100, 1000, bad2, refused),
        ],
        assumptions: &[
            "file names and salts are ASCII, as in every archive known; entry names may hold any character of the basic plane",
            "the block counter of the entry list starts over whenever a field ends on a block boundary, as the reader's own comment says",
        ],
        threads: 8,
    }
}
