from plantlib import *
E='src/engine.rs'
bug('c12-no-cleaning','C12',[(E,'''let mut is_cycle = st.cleaning.contains(loc);
''','''let mut is_cycle = false;
''')],
 "a cycle that has been demanded before, an edit, and a demand that re-runs a computation on the cycle while another one is being cleaned",
 "a thunk demanded again while it is being cleaned is cleaned once more instead of yielding the cycle value",'''
fn node(me: usize) -> Art<usize> {
    thunk(NameChoice::Nominal(name_of_usize(me)), prog_pt!("node"), Rc::new(Box::new(|me: usize, ()| {
        let x: Art<usize> = cell_at();
        let v = force_cycle(&node(1 - me), Some(100));
        let x = get!(x);
        v + x + 1
    })), me, ())
}
thread_local!(static IN: RefCell<Option<Art<usize>>> = RefCell::new(None));
fn cell_at() -> Art<usize> { IN.with(|i| i.borrow().clone().unwrap()) }
fn main() {
    let run = |v: &[usize]| {
        manage::init_dcg();
        let c = cell(name_of_str("in"), v[0]);
        IN.with(|i| *i.borrow_mut() = Some(c.clone()));
        let mut r = force_cycle(&node(0), Some(100));
        for x in &v[1..] {
            set(&c, *x);
            r = force_cycle(&node(0), Some(100));
        }
        r
    };
    assert_eq!(run(&[3, 5]), run(&[5]));
}
''')
bug('c11-structural-type','C11',[(E,'let hash = my_hash (&(TypeId::of::<T>(), &val)) ; // Equal','let hash = my_hash (&val) ; // Equal')],
 "two structural cells in one namespace whose contents have different types but hash alike, such as 1i64 and 1u64",
 "the second allocation is rejected as a type error",'''
fn main() {
    manage::init_dcg();
    structural(|| {
        let a: Art<i64> = cell(name_of_str("a"), 1);
        let b: Art<u64> = cell(name_of_str("b"), 1);
        assert_eq!((get!(a), get!(b)), (1, 1));
    })
}
''')
bug('c04-result-type','C04',[(E,'TypeId::of::<(Arg,Res)>(), &arg)','TypeId::of::<Arg>(), &arg)')],
 "two instances of one generic function, of equal arguments, whose results have different types, allocated structurally",
 "the second thunk is taken for the first, and demanding it is a type error",'''
fn double<T: From<u8> + std::ops::Add<Output = T> + std::hash::Hash + Eq + std::fmt::Debug + Clone + 'static>(x: u8) -> Art<T> {
    thunk(NameChoice::Structural, prog_pt!("double"), Rc::new(Box::new(|x: u8, ()| T::from(x) + T::from(x))), x, ())
}
fn main() {
    manage::init_dcg();
    let a = double::<u32>(200);
    let b = double::<u64>(200);
    assert_eq!((get!(a), get!(b)), (400, 400));
}
''')
bug('c01-clean-depth','C01',[(E,'''        if st.cleaning.contains(loc) { return DCGRes{changed:true} }
''','''        if st.cleaning.contains(loc) { return DCGRes{changed:true} }
        if st.cleaning.len() >= 1024 { return DCGRes{changed: this_dep.res != cache} }
''')],
 "a chain of more than a thousand thunks, and an edit of what the innermost one observes",
 "beyond a depth of 1024, cached results are taken for clean ones",'''
fn node(i: usize, c: Art<usize>) -> Art<usize> {
    thunk(NameChoice::Nominal(name_of_usize(i)), prog_pt!("node"), Rc::new(Box::new(|i: usize, c: Art<usize>| {
        if i == 0 { get!(c) } else { get!(node(i - 1, c)) + 1 }
    })), i, c)
}
fn main() {
    std::thread::Builder::new().stack_size(512 << 20).spawn(|| {
        manage::init_dcg();
        let c: Art<usize> = cell(name_of_str("in"), 1);
        for i in 0..1500 { get!(node(i, c.clone())); }
        set(&c, 10);
        assert_eq!(get!(node(1499, c.clone())), 1509);
    }).unwrap().join().unwrap()
}
''')
bug('c10-pure-nominal','C10',[(E,'''                        (&ArtId::Structural(_), &Node::Comp(ref nd)) =>
                            is_pure_opt && !is_cycle && nd.succs.len() == 0,''','''                        (_, &Node::Comp(ref nd)) =>
                            is_pure_opt && !is_cycle && nd.succs.len() == 0,''')],
 "a named thunk that observes nothing is demanded by another one, then allocated again with another argument",
 "who demanded it keeps the result of the old argument",'''
fn leaf(x: usize) -> Art<usize> {
    thunk(NameChoice::Nominal(name_of_str("leaf")), prog_pt!("leaf"), Rc::new(Box::new(|x: usize, ()| x)), x, ())
}
fn main() {
    manage::init_dcg();
    let l = leaf(1);
    let l2 = l.clone();
    let t = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |x: usize, ()| x + get!(l2.clone()))), 10, ());
    assert_eq!(get!(t.clone()), 11);
    leaf(5);
    assert_eq!(get!(t), 15);
}
''')
bug('c13-swap-path','C13',[(E,'''            mem::swap(&mut g.borrow_mut().engine, &mut engine);
        });''','''            mem::swap(&mut g.borrow_mut().engine, &mut engine);
        });
        // An engine that is not in use has no pending work.
        if let Engine::DCG(ref dcg) = engine {
            let dcg = &mut *dcg.borrow_mut();
            dcg.flags.check_dcg_is_wf = false;
            dcg.dcg_hash = 0;
        }''')],
 "an option set on an engine, which is then swapped out and in again",
 "the engine has lost the option",'''
fn main() {
    manage::init_dcg();
    let on = |e: &Engine| match e { Engine::DCG(d) => format!("{:?}", d).contains("check_dcg_is_wf: true"), _ => false };
    std::env::set_var("ADAPTON_CHECK_DCG", "1");
    manage::init_dcg();
    let e = manage::use_engine(Engine::Naive);
    assert!(on(&e));
}
''')
