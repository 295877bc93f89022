//! What the AssemblyScript language support generates.
#[path = "../../core/src/gen.rs"]
mod gen;
#[path = "../../core/src/sigs.rs"]
mod sigs;
#[path = "../../core/src/stack.rs"]
mod stack;
use symrt::*;
mod pipe {
    use symrt::*;
    pub const NS_STACK: &str = "wastrumentation_stack";
    include!(concat!(env!("OUT_DIR"), "/libraries.rs"));
    /// The library compiled for a collection of signatures.
    pub fn common_library(set: &str) -> Option<&'static [u8]> {
        let b = LIBRARIES.iter().find(|l| l.0 == set).expect("harness: known collection").1;
        if !b.starts_with(b"\0asm") { log(&String::from_utf8_lossy(b)); fail("the support library does not compile"); end() }
        Some(b)
    }
    pub fn support_library(_: &[crate::stack::Sig]) -> Vec<u8> { unreachable!() }
}
harness!(h_stack, cases_stack, stack::SINGLES, stack::single);
harness!(h_stack2, cases_stack2, stack::PAIRS, stack::pair);
harness!(h_stack_deep, cases_stack_deep, stack::DEEPS, stack::deep);
