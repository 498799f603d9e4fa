//! F01: exporting, consuming, importing and releasing is free of undefined
//! behaviour and leaks. To be run under Miri and AddressSanitizer.
use vh::programs;

fn main() {
    programs::main("F01", false)
}
