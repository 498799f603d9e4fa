//! F08: a child moved out of an export survives the release of its parent.
//! To be run under Miri and AddressSanitizer.
use vh::programs;

fn main() {
    programs::main("F08", true)
}
