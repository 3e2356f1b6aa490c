from plantlib import *
E='src/engine.rs'
bug('c07-revoke-some','C07',[(E,'    for succ in succs.iter() {\n        dcg_effect!(reflect::trace::Effect::Remove','    for (i, succ) in succs.iter().enumerate() {\n        // (Those beyond are overwritten anyway.)\n        if i % 32 == 31 { continue }\n        dcg_effect!(reflect::trace::Effect::Remove')],
 "a computation with more than 31 edges that runs again and no longer has the thirty-second",
 "the computation stays recorded at what it no longer observes",'''
fn main() {
    manage::init_dcg();
    let s = cell(name_of_str("s"), true);
    let o: Vec<Art<usize>> = (0..40).map(|i| cell(name_of_usize(i), i)).collect();
    let (s2, o2) = (s.clone(), o.clone());
    let t: Art<usize> = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_: usize, ()| {
        if !get!(s2) { return 0 }
        o2.iter().map(|a| get!(a)).sum()
    })), 0usize, ());
    assert_eq!(get!(t), 780);
    set(&s, false);
    assert_eq!(get!(t), 0);
    for a in &o { set(a, 100) }
    assert_eq!(get!(t), 0);
}
''')
