//! The signatures support libraries are tried with; a type is 0 i32, 1 i64, 2 f32, 3 f64.
pub type S = (Vec<u8>, Vec<u8>);
/// The `k`th of the 85 lists of up to three types.
pub fn list(k: usize) -> Vec<u8> {
    let v: Vec<usize> = if k == 0 { vec![] } else if k < 5 { vec![k - 1] } else if k < 21 { vec![(k - 5) / 4, (k - 5) % 4] } else { vec![(k - 21) / 16, (k - 21) / 4 % 4, (k - 21) % 4] };
    v.into_iter().map(|x| x as u8).collect()
}
pub const LONG: [(usize, usize); 6] = [(5, 0), (0, 5), (9, 7), (17, 3), (33, 33), (1, 40)];
pub fn long(k: usize, s: usize) -> S { let of = |n| (0..n).map(|k: usize| ((k * k + s + k / 3) % 4) as u8).collect(); (of(LONG[k].0), of(LONG[k].1)) }
pub fn outer(k: u8) -> S { let t = k % 4; match k / 4 { 0 => (vec![t], vec![]), 1 => (vec![], vec![t]), 2 => (vec![t], vec![t]), 3 => (vec![t, 0], vec![3]), _ => (vec![], vec![t, 2]) } }
pub fn inner(k: u8) -> S { match k { 20 => (vec![], vec![]), 21 => (vec![1, 2, 0], vec![3, 1]), 22 => (vec![0, 1], vec![]), 23 => (vec![], vec![0, 1]), 24 => (vec![2], vec![0]), 25 => (vec![0], vec![2]), k => outer(k) } }
pub fn deep(k: u32) -> S {
    match k {
        0 => ((0..33).map(|k| k % 4).collect(), vec![1, 2]),
        1 => (vec![0], vec![]),
        2 => ((0..170).map(|k| k % 4).collect(), (0..90).map(|k| k % 3).collect()),
        _ => (vec![], (0..130).map(|k| (k + 1) % 4).collect()),
    }
}
/// Libraries for many signatures at once.
#[allow(dead_code)]
pub fn sets() -> Vec<(String, Vec<S>)> {
    let mut v: Vec<(String, Vec<S>)> = (0..85).map(|a| (format!("a{a}"), (0..85).map(|r| (list(a), list(r))).collect())).collect();
    v.push(("long".into(), (0..LONG.len()).flat_map(|k| (0..4).map(move |s| long(k, s))).collect()));
    // with repetitions
    v.push(("pairs".into(), (0..20).map(outer).chain((0..26).map(inner)).collect()));
    v.push(("deep".into(), (0..4).map(deep).collect()));
    v
}
