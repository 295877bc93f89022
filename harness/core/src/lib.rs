//! The instrumentation platform end to end: programs with symbolic immediates and arguments.
mod apply;
mod aslang;
mod calls;
mod control;
mod forward;
mod gen;
mod handover;
mod helpers;
mod large;
mod pipe;
mod rig;
mod rustlang;
mod scope;
mod sigs;
mod stack;
mod values;
use symrt::*;
use rig::Mode::*;

macro_rules! modes { ($h:ident, $c:ident, $h2:ident, $c2:ident, $h3:ident, $c3:ident, $n:expr, $f:path) => {
    harness!($h, $c, $n, |case| $f(case, Events));
    harness!($h2, $c2, $n, |case| $f(case, Outcome));
    harness!($h3, $c3, $n, |case| $f(case, Forward));
} }
modes!(h_numeric, cases_numeric, h_numeric_o, cases_numeric_o, h_numeric_f, cases_numeric_f, values::NUMERICS, values::numeric);
modes!(h_memory, cases_memory, h_memory_o, cases_memory_o, h_memory_f, cases_memory_f, values::MEMORIES, values::memory);
modes!(h_vars, cases_vars, h_vars_o, cases_vars_o, h_vars_f, cases_vars_f, values::VARS, values::vars);
modes!(h_misc, cases_misc, h_misc_o, cases_misc_o, h_misc_f, cases_misc_f, values::MISC, values::misc);
fn control2(case: u32, m: rig::Mode) { control::structures(case, 2, false, true, 14, m) }
fn control3(case: u32, m: rig::Mode) { control::structures(case, 3, true, false, 12, m) }
modes!(h_control, cases_control, h_control_o, cases_control_o, h_control_f, cases_control_f, control::chunks(2, false, true), control2);
modes!(h_control3, cases_control3, h_control3_o, cases_control3_o, h_control3_f, cases_control3_f, control::chunks(3, true, false), control3);
modes!(h_tables, cases_tables, h_tables_o, cases_tables_o, h_tables_f, cases_tables_f, control::table_chunks(), control::jump_tables);
modes!(h_calls, cases_calls, h_calls_o, cases_calls_o, h_calls_f, cases_calls_f, calls::CALLINGS, calls::calls);
modes!(h_selections, cases_selections, h_selections_o, cases_selections_o, h_selections_f, cases_selections_f, calls::SELECTIONS, calls::selections);
modes!(h_large, cases_large, h_large_o, cases_large_o, h_large_f, cases_large_f, large::LARGES, large::large);
harness!(h_reach, cases_reach, large::REACHES, large::reach);
harness!(h_apply, cases_apply, apply::APPLIES, apply::apply);
modes!(h_scope, cases_scope, h_scope_o, cases_scope_o, h_scope_f, cases_scope_f, scope::SCOPES, scope::scope);
harness!(h_interface, cases_interface, scope::INTERFACES, scope::interface);
harness!(h_stack, cases_stack, stack::SINGLES, stack::single);
harness!(h_stack2, cases_stack2, stack::PAIRS, stack::pair);
harness!(h_stack_deep, cases_stack_deep, stack::DEEPS, stack::deep);
harness!(h_helpers, cases_helpers, helpers::HELPERS, helpers::helpers);
harness!(h_handover, cases_handover, handover::HANDOVERS, handover::handover);
harness!(h_signatures, cases_signatures, handover::SIGNATURES, handover::signatures);
harness!(h_failure, cases_failure, handover::FAILURES, handover::failure);
// the same with the analysis given in Rust
macro_rules! rust { ($h:ident, $c:ident, $n:expr, $f:path) => { harness!($h, $c, $n, |case| { rustlang::enter(); $f(case, Events) }); } }
rust!(h_rust_numeric, cases_rust_numeric, values::NUMERICS, values::numeric);
rust!(h_rust_memory, cases_rust_memory, values::MEMORIES, values::memory);
rust!(h_rust_vars, cases_rust_vars, values::VARS, values::vars);
rust!(h_rust_misc, cases_rust_misc, values::MISC, values::misc);
rust!(h_rust_calls, cases_rust_calls, calls::CALLINGS, calls::calls);
rust!(h_rust_selections, cases_rust_selections, calls::SELECTIONS, calls::selections);
rust!(h_rust_large, cases_rust_large, large::LARGES, large::large);
harness!(h_rust_handover, cases_rust_handover, rustlang::HANDOVERS, rustlang::handover);
// the same with the analysis given in WASP and AssemblyScript
macro_rules! wasp { ($h:ident, $c:ident, $h2:ident, $c2:ident, $n:expr, $f:path) => {
    harness!($h, $c, $n, |case| { aslang::enter(aslang::Advice::Decide); $f(case, Events) });
    harness!($h2, $c2, $n, |case| { aslang::enter(aslang::Advice::Quiet); $f(case, Events) });
} }
wasp!(h_as_misc, cases_as_misc, h_as_misc_q, cases_as_misc_q, values::MISC, values::misc);
wasp!(h_as_calls, cases_as_calls, h_as_calls_q, cases_as_calls_q, calls::CALLINGS, calls::calls);
wasp!(h_as_selections, cases_as_selections, h_as_selections_q, cases_as_selections_q, calls::SELECTIONS, calls::selections);
wasp!(h_as_large, cases_as_large, h_as_large_q, cases_as_large_q, large::LARGES, large::large);
wasp!(h_as_control, cases_as_control, h_as_control_q, cases_as_control_q, control::chunks(2, false, true), control2);
wasp!(h_as_tables, cases_as_tables, h_as_tables_q, cases_as_tables_q, control::table_chunks(), control::jump_tables);
harness!(h_as_apply, cases_as_apply, apply::APPLIES, |case| { aslang::enter(aslang::Advice::Decide); apply::apply(case) });
harness!(h_as_handover, cases_as_handover, aslang::HANDOVERS, |case| aslang::handover(case));
harness!(h_as_interface, cases_as_interface, aslang::interfaces(), |case| aslang::interface(case));
