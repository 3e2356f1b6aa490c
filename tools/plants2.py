from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
bug('c01-versus-cache','C01',[(EN,'let changed = result != this_dep.res ;','let changed = result != cache ;')],
 'an edit, a demand of the inner thunk alone, another edit that dirties the inner thunk again without changing its value, then a demand of the outer thunk',
 'the re-evaluated value is compared with the node\'s previous cached value instead of the value this edge observed, so the outer thunk keeps a stale result','''
fn inner(c:Art<usize>, d:Art<usize>) -> usize { get!(c) * 10 + get!(d) % 2 }
fn outer(t:Art<usize>) -> usize { get!(t) + 1 }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let d = cell(name_of_str("d"), 0usize);
    let t = thunk!([Some(name_of_str("t"))]? inner ; c:c.clone(), d:d.clone());
    let u = thunk!([Some(name_of_str("u"))]? outer ; t:t.clone());
    assert_eq!(get!(u), 11);
    set(&c, 2);
    assert_eq!(get!(t), 20);
    set(&d, 2);
    assert_eq!(get!(u), 21);
}
''')
bug('c02-same-result','C02',[(EN,'''                                mapf:mapf,
                                res:res.clone()}));
                            let succ =
                                Succ{loc:loc.clone(),
                                     dep:dep.clone(),
                                     effect:Effect::Observe,
                                     dirty:false};
                            frame.succs.push((succ, Some(dep.clone())));
                        }};
                        res''','''                                mapf:mapf,
                                res:res.clone()}));
                            let succ =
                                Succ{loc:loc.clone(),
                                     dep:dep.clone(),
                                     effect:Effect::Observe,
                                     dirty:false};
                            // The same projection again needs no second edge.
                            let seen = frame.succs.iter().any(|&(ref s, ref d)| {
                                s.loc == succ.loc && match *d {
                                    Some(ref d) => format!("{:?}", d) == format!("{:?}", dep), None => false }});
                            if !seen { frame.succs.push((succ, Some(dep.clone()))) };
                        }};
                        res''')],
 'two different projections of one cell whose first results agree, and an edit that changes only the second',
 'the second projection is taken for the first and is not recorded, so its change dirties nothing','''
fn both(c:Art<(usize,usize)>) -> usize {
    let a = force_map(&c, |_,p:(usize,usize)| p.0);
    let b = force_map(&c, |_,p:(usize,usize)| p.1);
    a * 100 + b
}
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), (5usize,5usize));
    let t = thunk!([Some(name_of_str("t"))]? both ; c:c.clone());
    assert_eq!(get!(t), 505);
    set(&c, (5,6));
    assert_eq!(get!(t), 506);
}
''')
bug('c03-thunk-clean','C03',[(EN,'''impl<T:Debug> DCGDep for AllocNominalThunk<T> {
    fn is_absmap (&self) -> Option<TypeId> { None }
    fn dirty (self:&Self, _g:&mut DCG,      _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:true} }
    fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:true} } // TODO-Later: Make this a little better.''','''impl<T:Debug> DCGDep for AllocNominalThunk<T> {
    fn is_absmap (&self) -> Option<TypeId> { None }
    fn dirty (self:&Self, _g:&mut DCG,      _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:true} }
    fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:false} }''')],
 'two computations that take turns (by an input) in allocating the same thunk name with different arguments, switched to the second and back',
 'an allocator whose thunk was meanwhile re-allocated by another computation is not re-run, so the thunk keeps the other argument','''
fn body(n:usize) -> usize { n * 100 }
fn alloc(inp:Art<usize>, me:usize) -> Art<usize> {
    if get!(inp) == me { thunk!([Some(name_of_str("shared"))]? body ; n:me) } else { cell(name_of_str("other"), 0) }
}
fn main() {
    manage::init_dcg();
    let i = cell(name_of_str("i"), 0usize);
    let a = thunk!([Some(name_of_str("a"))]? alloc ; i:i.clone(), me:1);
    let b = thunk!([Some(name_of_str("b"))]? alloc ; i:i.clone(), me:2);
    set(&i, 1);
    assert_eq!(get!(get!(a)), 100);
    set(&i, 2);
    assert_eq!(get!(get!(b)), 200);
    set(&i, 1);
    assert_eq!(get!(get!(a)), 100);
}
''')
bug('c05-unclean','C05',[(EN,'get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;\n                dcg_effect!(reflect::trace::Effect::CleanEdge','let _ = st;\n                dcg_effect!(reflect::trace::Effect::CleanEdge')],
 'an edit that is undone before the demand, and a later edit of the same cell',
 'edges that were found unchanged stay dirty','''
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    fn id(c:Art<usize>) -> usize { get!(c) }
    let t = thunk!([Some(name_of_str("t"))]? id ; c:c.clone());
    assert_eq!(get!(t), 1);
    set(&c, 2); set(&c, 1);
    assert_eq!(get!(t), 1);
    for (_,n) in adapton::reflect::dcg_reflect_now().unwrap().table.iter() {
        if let adapton::reflect::Node::Comp(ref n) = *n { for s in n.succs.iter() { assert!(!s.dirty) } }
    }
}
''')
bug('c06-realloc-equal','C06',[(EN,'let res = loc_produce( g, loc );\n                let changed = self.res != res ;\n                // TODO: changed','let _ : Res = loc_produce( g, loc );\n                let changed = true ;\n                // TODO: changed')],
 'a thunk re-allocated with another argument that gives the same value, observed by a thunk that did not allocate it',
 'an observer re-runs although the value it observed is unchanged','''
thread_local!(static RUNS: Cell<usize> = Cell::new(0));
fn par(n:usize) -> usize { n % 2 }
fn alloc(c:Art<usize>) -> Art<usize> { let n = get!(c); thunk!([Some(name_of_str("p"))]? par ; n:n) }
fn mid(p:Art<usize>) -> usize { RUNS.with(|r| r.set(r.get()+1)); get!(p) + 7 }
fn top(a:Art<Art<usize>>) -> usize { let p = get!(a); let m = thunk!([Some(name_of_str("m"))]? mid ; p:p); get!(m) }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let a = thunk!([Some(name_of_str("a"))]? alloc ; c:c.clone());
    let t = thunk!([Some(name_of_str("t"))]? top ; a:a.clone());
    assert_eq!(get!(t), 8);
    set(&c, 3);
    assert_eq!(get!(t), 8);
    assert_eq!(RUNS.with(|r| r.get()), 1);
}
''')
bug('c03-alloc-observers','C03',[(EN,'''        if !stop {
            dirty_pred_observers(st,&pred_loc);
            dcg_effect_end!();
        } else {  }''','''        if !stop {
            dcg_effect_end!();
        } else {  }''')],
 'a cell allocated by an inner computation is overwritten from outside, and only an outer computation that does not itself observe the cell is demanded',
 'the observers of the allocating computation are not dirtied, so it is not re-run','''
fn inner(c:Art<usize>) -> Art<usize> { let x = get!(c); cell(name_of_str("in"), x + 1) }
fn outer(c:Art<Art<usize>>) -> Art<usize> { get!(c) }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let t = thunk!([Some(name_of_str("t"))]? inner ; c:c.clone());
    let u = thunk!([Some(name_of_str("u"))]? outer ; t:t.clone());
    assert_eq!(get!(get!(u)), 2);
    let _ = cell(name_of_str("in"), 99usize);
    assert_eq!(get!(get!(u)), 2);
}
''')
bug('c12-near-frames','C12',[(EN,'for frame in st.stack.iter() {\n                                         if &frame.loc == loc','for frame in st.stack.iter().rev().take(8) {\n                                         if &frame.loc == loc')],
 'a cycle of more than eight computations',
 'a cycle longer than eight computations is not noticed: the evaluation does not stop','''
fn step(next:Vec<Name>, k:usize) -> usize {
    // Each node demands the next; the last demands the first.
    let n = next.len();
    let j = (k + 1) % n;
    let a = thunk!([Some(next[j].clone())]? step ; next:next.clone(), j:j);
    force_cycle(&a, Some(1000)) + 1
}
fn main() {
    manage::init_dcg();
    for n in vec![3usize, 12] {
        let ns : Vec<Name> = (0..n).map(|i| name_pair(name_of_usize(n), name_of_usize(i))).collect();
        let a = thunk!([Some(ns[0].clone())]? step ; ns:ns.clone(), k:0);
        assert_eq!(get!(a), 1000 + n);
    }
}
''')
bug('c09-structural-root','C09',[(EN,'let loc = loc_of_id(current_path(self),\n                                    Rc::new(ArtId::Structural(hash)));','let loc = loc_of_id(Rc::new(Path::Empty),\n                                    Rc::new(ArtId::Structural(hash)));')],
 'a computation with a structural name, created inside a namespace, that allocates',
 'a thunk named by its content runs in the root namespace, whatever namespace it was created in, so its allocations overwrite those of the root','''
fn body(n:usize) -> Art<usize> { cell(name_of_str("in"), n) }
fn main() {
    manage::init_dcg();
    let root = cell(name_of_str("in"), 7usize);
    let t = ns(name_of_str("space"), || thunk(NameChoice::Structural, prog_pt!(stringify!(body)), Rc::new(Box::new(|n:usize,()| body(n))), 3usize, ()));
    let c = get!(t);
    assert_eq!(get!(c), 3);
    assert_eq!(get!(root), 7);
    assert!(c != root);
}
''')
bug('c09-rerun-path','C09',[(EN,'''        // if the node is a computation, it must be removed''','''X''')],'x','x','x') if False else None
bug('c11-trace-nest','C14',[(EN,'                replace(&mut succ.dirty, true);\n                assert!(&pred_loc != loc);\n                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);','                dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);\n                replace(&mut succ.dirty, true);\n                assert!(&pred_loc != loc);')],
 'n/a','n/a','fn main(){}') if False else None
bug('c21-naive-identity','C21',[(EN,'        self.id.hash( &mut hasher );\n        self.prog_pt.hash( &mut hasher );\n        self.arg.hash( &mut hasher );\n        hasher.finish()','        self.id.hash( &mut hasher );\n        self.prog_pt.hash( &mut hasher );\n        self.arg.hash( &mut hasher );\n        (&**self.fn_box as *const _ as *const u8 as usize).hash( &mut hasher );\n        hasher.finish()')],
 'two equal unforced articulations built under the naive engine, whose hashes are compared',
 'equal articulations of the naive engine hash differently','''
use std::hash::{Hash,Hasher};
use std::collections::hash_map::DefaultHasher;
fn body(n:usize) -> usize { n * 100 }
fn h<T:Hash>(x:&T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn main() {
    manage::use_engine(Engine::Naive);
    let k = 3usize;
    let mk = |m:usize| thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!(stringify!(body)), Rc::new(Box::new(move |n:usize,()| body(n)+m*0)), k, ());
    let (a,b) = (mk(1), mk(2));
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
}
''')
bug('c23-env-value','C23',[(EN,'match env::var("ADAPTON_CHECK_DCG")  { Ok(_) => true,  _ => false }','match env::var("ADAPTON_CHECK_DCG")  { Ok(v) => v == "1",  _ => false }')],
 'the option ADAPTON_CHECK_DCG given with a value other than 1',
 'the option is ignored unless its value is 1','''
fn main() {
    std::env::set_var("ADAPTON_CHECK_DCG", "true");
    manage::init_dcg();
    match manage::use_engine(Engine::Naive) {
        Engine::DCG(d) => assert!(d.borrow().flags.check_dcg_is_wf),
        _ => panic!(),
    }
}
''')
