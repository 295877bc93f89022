//! Join points: exactly those the program's advices ask for.
use crate::reference::*;
use symrt::*;
use wasp_compiler::CompilationResult;

const T: [&str; 4] = ["I32", "F32", "I64", "F64"];
/// Compare the reported join points (and the derived predicates) with the ones the items call for.
pub fn exact(r: &CompilationResult, items: &[Item]) {
    let mut want = [false; 15];
    let mut spe: Vec<(Vec<u32>, Vec<u32>)> = vec![];
    let mut i = 0;
    while i < items.len() {
        if let Item::Kind(k) = items[i] {
            let num = |d: usize| if let Some(Item::Num(n)) = items.get(i + d) { *n } else { 0 };
            match k {
                GLOBAL => {}
                APPLY_SPE => {
                    let mut j = i + 3; // kind, mutability, function name
                    let mut l = [vec![], vec![]];
                    for q in &mut l { let Some(Item::Num(n)) = items.get(j) else { fail("harness: malformed item list"); return }; for m in 0..*n as usize { if let Some(Item::Num(t)) = items.get(j + 2 + 2 * m) { q.push(*t); } } j += 1 + 2 * *n as usize; }
                    let [a, rr] = l; let t = (a, rr);
                    if !spe.contains(&t) { spe.push(t); }
                }
                CALL => want[if num(1) == 0 { 5 } else { 6 }] = true,
                APPLY_GEN => want[0] = true, IF_THEN => want[1] = true, IF_THEN_ELSE => want[2] = true, BR_IF => want[3] = true, BR_TABLE => want[4] = true,
                CI_PRE => want[7] = true, CI_POST => want[8] = true, BLOCK_PRE => want[9] = true, BLOCK_POST => want[10] = true, LOOP_PRE => want[11] = true, LOOP_POST => want[12] = true, SELECT => want[13] = true,
                _ => {}
            }
        }
        i += 1;
    }
    let j = &r.join_points;
    let got = [j.generic, j.if_then, j.if_then_else, j.br_if, j.br_table, j.call_pre, j.call_post, j.call_indirect_pre, j.call_indirect_post, j.block_pre, j.block_post, j.loop_pre, j.loop_post, j.select];
    for k in 0..14 { if got[k] != want[k] { log(&format!("join point {k}: reported {}", got[k])); fail("the reported join points differ from the advices of the program"); } }
    let mut names: Vec<String> = j.specialized.iter().map(|s| format!("{s:?}")).collect();
    let l = |v: &[u32]| v.iter().map(|t| T[*t as usize]).collect::<Vec<_>>().join(", ");
    for (a, b) in &spe {
        let w = format!("SpecialisedJoinPoint {{ result_types: [{}], argument_types: [{}] }}", l(b), l(a));
        match names.iter().position(|n| *n == w) { Some(p) => { names.swap_remove(p); } None => { log(&w); fail("a specialised signature of the program is not reported as a join point") } }
    }
    if !names.is_empty() { fail("a specialised join point is reported that the program does not ask for"); }
    if j.specialized.len() != spe.len() { fail("specialised join points differ in number from the distinct signatures of the program"); }
    if r.wasp_root.join_points() != r.join_points { fail("the join points of the compiled program are not the ones it reports"); }
    if r.wasp_root.instruments_generic_apply() != want[0] { fail("generic application is reported wrongly"); }
    if r.wasp_root.instruments_if() != (want[1] || want[2] || want[3] || want[4] || want[13]) { fail("conditional instrumentation is reported wrongly"); }
    if r.wasp_root.instruments_call() != (want[5] || want[6] || want[7] || want[8]) { fail("call instrumentation is reported wrongly"); }
}
