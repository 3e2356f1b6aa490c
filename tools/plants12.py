from plantlib import *
E='src/engine.rs'
bug('c08-long-string','C08',[(E,'''    let h = my_hash(&s);
    let s = NameSym::String(s) ;
    Name{ hash:h, symbol:Rc::new(s) }''','''    // Bound the size of symbols.
    let s : String = s.chars().take(128).collect();
    let h = my_hash(&s);
    let s = NameSym::String(s) ;
    Name{ hash:h, symbol:Rc::new(s) }''')],
 "two strings of more than 128 characters with a common prefix that long",
 "they are one name",'''
fn main() {
    manage::init_dcg();
    let p = "x".repeat(200);
    let a = name_of_string(format!("{}a", p));
    let b = name_of_string(format!("{}b", p));
    assert!(a != b);
    let c = cell(a, 1usize);
    let d = cell(b, 2usize);
    assert_eq!(get!(c), 1);
    assert_eq!(get!(d), 2);
}
''')
bug('c14-wide-dirty','C14',[(E,'''    for (pred_loc, dep) in pred_locs {
        let stop : bool = match dep {''','''    let many = pred_locs.len() > 24;
    for (pred_loc, dep) in pred_locs {
        let stop : bool = match dep {'''),(E,'''                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
                replace(&mut succ.dirty, true);
                false
            }}
        ;
        if !stop {
            dirty_pred_observers(st,&pred_loc);
            dcg_effect_end!();''','''                // Do not flood the trace.
                if !many { dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ); }
                replace(&mut succ.dirty, true);
                false
            }}
        ;
        if !stop {
            dirty_pred_observers(st,&pred_loc);
            if !many { dcg_effect_end!(); }''')],
 "an edit of an articulation with more than 24 observers, while a trace is recorded",
 "the edges to it that turn dirty are not in the trace",'''
use adapton::reflect;
use adapton::reflect::trace::{Effect, Trace};
fn dirty(ts: &[Trace]) -> usize {
    ts.iter().map(|t| matches!(t.effect, Effect::Dirty) as usize + dirty(&t.extent)).sum()
}
fn main() {
    for n in [3usize, 30] {
        manage::init_dcg();
        let x = cell(name_of_str("x"), 1usize);
        for i in 0..n {
            let y = x.clone();
            let t: Art<usize> = thunk(NameChoice::Nominal(name_of_usize(i)), prog_pt!("t"), Rc::new(Box::new(move |_: usize, ()| get!(y))), 0usize, ());
            assert_eq!(get!(t), 1);
        }
        reflect::dcg_reflect_begin();
        set(&x, 2);
        assert_eq!(dirty(&reflect::dcg_reflect_end()), n);
    }
}
''')
bug('c09-deep','C09',[(E,'st.path = loc.path.clone() ;','''st.path = loc.path.clone() ;
            // The innermost levels tell namespaces apart.
            if path_len(&st.path) > 12 { st.path = drop_root(&st.path, 12) } ;'''),(E,'''fn loc_of_id(path''','''fn path_len(p:&Rc<Path>) -> usize {
    match **p { Path::Empty => 0, Path::Child(ref p, _) => 1 + path_len(p) }
}

fn drop_root(p:&Rc<Path>, n:usize) -> Rc<Path> {
    if n == 0 { return Rc::new(Path::Empty) }
    match **p {
        Path::Empty => p.clone(),
        Path::Child(ref q, ref nm) => Rc::new(Path::Child(drop_root(q, n - 1), nm.clone()))
    }
}

fn loc_of_id(path''')],
 "a computation in a namespace more than 12 levels deep that allocates, and another such namespace that differs from it only further up",
 "their allocations share one namespace",'''
fn deep(top: usize, n: usize, f: &mut dyn FnMut() -> Art<Art<usize>>) -> Art<Art<usize>> {
    if n == 0 { f() } else { ns(name_of_usize(if n == 20 { top } else { 0 }), || deep(top, n - 1, f)) }
}
fn main() {
    manage::init_dcg();
    let mk = |top: usize| deep(top, 20, &mut || thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"),
        Rc::new(Box::new(|k: usize, ()| cell(name_of_str("c"), k))), top, ()));
    let (a, b) = (mk(1), mk(2));
    let (x, y) = (get!(a), get!(b));
    assert!(x != y);
    assert_eq!((get!(x), get!(y)), (1, 2));
}
''')
bug('c04-long-argument','C04',[(E,'''                let loc = loc_of_id(current_path(self),
                                    Rc::new(ArtId::Structural(hash)));
                {   // If''','''                // Long arguments are told apart by how they begin.
                let text = format!("{:?}", arg) ;
                let hash = if text.len() <= 128 { hash }
                else { my_hash (&(&prog_pt, TypeId::of::<(Arg,Res)>(), text.chars().take(128).collect::<String>())) } ;
                let loc = loc_of_id(current_path(self),
                                    Rc::new(ArtId::Structural(hash)));
                {   // If''')],
 "two structural thunks whose arguments print as long texts that differ late",
 "they are one articulation",'''
fn main() {
    manage::init_dcg();
    let mk = |k: usize| { let mut v = vec![0usize; 100]; v[99] = k;
        thunk(NameChoice::Structural, prog_pt!("t"), Rc::new(Box::new(|v: Vec<usize>, ()| v[99])), v, ()) };
    let (a, b) = (mk(1), mk(2));
    assert!(a != b);
    assert_eq!((get!(a), get!(b)), (1, 2));
}
''')
bug('c27-hundred','C27',[(E,'''Some(n) => format!("adapton-dcg-{:08}.dot", n),''','''Some(n) => format!("adapton-dcg-{:08}.dot", n % 200),''')],
 "more than two hundred graphs written",
 "files are written over",'''
fn main() {
    let d = std::env::temp_dir().join(format!("c27h-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    std::env::set_var("ADAPTON_WRITE_DCG", "1");
    manage::init_dcg();
    let x = cell(name_of_str("x"), 0usize);
    for i in 0..300usize { cell(name_of_usize(i), i); set(&x, i + 1); }
    let n = std::fs::read_dir(&d).unwrap().count();
    std::env::set_current_dir("/").unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(n >= 300, "{} files", n);
}
''')
