from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
bug('c19-one-name','C19',[(CO,'''       let res = name(n, x, res);
       let res = memo!(n2 =>> tree_fold_seq, tree:r, dir:dir, res:res ;;''','''       let _ = n2;
       let res = name(n.clone(), x, res);
       let res = memo!(name_fork(n.clone()).0 =>> tree_fold_seq, tree:r, dir:dir, res:res ;;''')],
 'a pass by tree_fold_seq that is demanded again','both recursive calls of tree_fold_seq under a name share one articulation, so each demand runs them again','''
fn main() {
    use adapton::catalog::collections::*;
    thread_local!(static N: Cell<usize> = Cell::new(0));
    manage::init_dcg();
    let leaf = |x| Box::new(Tree::Leaf(x));
    let t : Tree<usize> = Tree::Name(name_of_str("n"), 3, leaf(1), Box::new(Tree::Name(name_of_str("m"), 2, leaf(2), leaf(3))));
    let go = |t:Tree<usize>| tree_fold_seq(t, Dir2::Left, 0usize, Rc::new(|x,r| { N.with(|n| n.set(n.get() + 1)); r * 10 + x }), Rc::new(|_,r| r), Rc::new(|_,_,r| r));
    assert_eq!(go(t.clone()), 123);
    let n = N.with(|n| n.get());
    assert_eq!(go(t), 123);
    assert_eq!(n, N.with(|n| n.get()));
}
''')
bug('c15-big-nat','C15',[(PV,'''                            usize::from_str_radix(s.as_str(), 10).unwrap()''','''                            isize::from_str_radix(s.as_str(), 10).unwrap_or(isize::max_value()) as usize''')],
 'a number above isize::MAX in a value','the reflected value of a large number is isize::MAX','''
fn main() {
    use adapton::reflect::*;
    assert_eq!(reflect_val(&(usize::max_value() - 5)), Val::Const(Const::Nat(usize::max_value() - 5)));
}
''')
bug('c21-loc-id','C21',[(EN,'''            EnumArt::Loc(ref loc) =>
                if let EnumArt::Loc(ref loc2) = *other { loc == loc2 } else { false },''','''            EnumArt::Loc(ref loc) =>
                if let EnumArt::Loc(ref loc2) = *other { loc.id == loc2.id } else { false },''')],
 'one name used in two namespaces','articulations of one name in two namespaces are equal','''
fn main() {
    manage::init_dcg();
    let a = ns(name_of_str("p"), || cell(name_of_str("x"), 1));
    let b = ns(name_of_str("q"), || cell(name_of_str("x"), 1));
    assert!(a != b);
}
''')
bug('c22-inter-fold','C22',[(CO,'''         let out = match Map::find(&other, &x) {
           Some (ref _unit) => Self::add(out, x),
           None => out
         };''','''         let out = match Map::find(&other, &x) {
           Some (ref _unit) if Map::find(&out, &x).is_none() => Self::add(out, x),
           _ => Self::empty()
         };''')],
 'an intersection in which a missing or repeated element comes before the last common one','the elements collected so far are dropped','''
fn main() {
    use adapton::catalog::collections::*;
    type S = List<(usize,())>;
    let s = |v:&[usize]| v.iter().rev().fold(<S as SetIntro<usize>>::empty(), |s,x| <S as SetIntro<usize>>::add(s, *x));
    let i : S = SetIntro::<usize>::inter(s(&[1,2,3]), s(&[3]));
    assert!(<S as SetElim<usize>>::is_mem(&i, &3));
    let i : S = SetIntro::<usize>::inter(s(&[2,3]), s(&[3]));
    assert!(<S as SetElim<usize>>::is_mem(&i, &3));
    let i : S = SetIntro::<usize>::inter(s(&[3,2]), s(&[3,1]));
    assert!(<S as SetElim<usize>>::is_mem(&i, &3));
    let i : S = SetIntro::<usize>::inter(s(&[1,3,3]), s(&[3]));
    assert!(<S as SetElim<usize>>::is_mem(&i, &3));
}
''')
bug('c09-ns-nested-thunk','C09',[(EN,'''    let res = producer.produce() ;
''','''    let res = producer.produce() ;
    // Namespaces entered by the producer have been left.
    let prev_path = if g.borrow().stack.len() > 2 { loc.path.clone() } else { prev_path } ;
''')],
 'a thunk of another namespace, demanded by a computation which is itself demanded by another, and which goes on to allocate','after the demand, the namespace is that of the demanded thunk','''
fn main() {
    manage::init_dcg();
    let inner = ns(name_of_str("p"), || thunk!([Some(name_of_str("i"))]? |x:i32| x ; x:1));
    let mid = thunk!([Some(name_of_str("m"))]? |i:Art<i32>| { let v = get!(i); (v, cell(name_of_str("c"), 5)) } ; i:inner);
    let m2 = mid.clone();
    let top = thunk!([Some(name_of_str("t"))]? |m:Art<(i32,Art<i32>)>| get!(m).1 ; m:m2);
    let c = get!(top);
    assert!(c == cell(name_of_str("c"), 5));
}
''')
bug('c13-dirty-swap','C13',[(EN,'''        let mut engine = engine;
        GLOBALS.with(|g| {
            mem::swap(&mut g.borrow_mut().engine, &mut engine);
        });
        return engine''','''        let mut engine = engine;
        GLOBALS.with(|g| {
            mem::swap(&mut g.borrow_mut().engine, &mut engine);
        });
        // The engine put aside is at rest; nothing of it is being cleaned
        if let Engine::DCG(ref dcg) = engine {
            let dcg = &mut *dcg.borrow_mut();
            dcg.cleaning.clear();
            let locs : Vec<_> = dcg.table.keys().cloned().collect();
            if locs.len() > 8 { for loc in locs.iter() {
                let node = lookup_abs(dcg, loc);
                if node.succs_def() { for succ in node.succs_mut().iter_mut() { if succ.effect == Effect::Allocate { succ.dirty = false } } }
            }}
        };
        return engine''')],
 'a graph of more than eight nodes, put aside after an allocated cell changed','the change is forgotten','''
fn main() {
    manage::init_dcg();
    let on = cell(name_of_str("on"), 1);
    for i in 0..8 { cell(name_of_usize(i), i); }
    let on2 = on.clone();
    let t = thunk!([Some(name_of_str("t"))]? |o:Art<i32>| { let c = cell(name_of_str("c"), get!(o)); (c.clone(), 0) } ; o:on2);
    let (c, _) = get!(t);
    set(&c, 7);
    let e = manage::init_naive();
    manage::use_engine(e);
    get!(t);
    assert_eq!(get!(c), 1);
}
''')
bug('c16-limit-names','C16',[(CO,'''        |n, rest, _| { (Some(NameElse::Name(n.clone())), Some(rest)) }
        ) ;''','''        // Consecutive names are one name.
        |n, rest, _| match out.last() {
            Some(NameElse::Name(m)) if *m == n => (None, Some(rest)),
            _ => (Some(NameElse::Name(n.clone())), Some(rest)) }
        ) ;''')],
 'a list with the same name twice in a row','the vector of the list has it only once','''
fn main() {
    use adapton::catalog::collections::*;
    let n = name_of_str("n");
    let l : List<usize> = List::name(n.clone(), List::name(n.clone(), List::cons(1, List::nil())));
    assert_eq!(vec_of_list(l, None).len(), 3);
}
''')
bug('c02-map-kind','C02',[(EN,"""        Node::Comp(_) =>
            DCGRes{changed:true},

        Node::Pure(_) =>
            unreachable!()""","""        Node::Comp(ref nd) =>
            DCGRes{changed: match nd.res {
                None => true,
                Some(ref res) => dep.res != (dep.mapf)(&Art{art:EnumArt::Loc(loc.clone())}, res.clone()) }},

        Node::Pure(_) =>
            unreachable!()""")],
 'a cell, observed by a projection, is replaced by a thunk of equal projection; that thunk is demanded, then the observer, then an input of the thunk changes',
 'the observer of the projection keeps the old result',"""
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 5);
    let x = cell(name_of_str("x"), 3);
    let x1 = x.clone();
    let t = thunk!([Some(name_of_str("t"))]? |x:Art<i32>| force_map(&x, |_,v| v > 0) ; x:x1);
    assert_eq!(get!(t), true);
    let x2 = thunk!([Some(name_of_str("x"))]? |c:Art<i32>| get!(c) ; c:c.clone());
    assert!(x == x2);
    get!(x2);
    assert_eq!(get!(t), true);
    set(&c, -5);
    assert_eq!(get!(t), false);
}
""")
bug('c04-structural-arg','C04',[(EN,"""                let hash = my_hash (&(&prog_pt, TypeId::of::<(Arg,Res)>(), &arg)) ;""","""                let hash = my_hash (&(&prog_pt, TypeId::of::<(Arg,Res)>(), format!("{:?}", arg))) ;""")],
 'structural thunks with different arguments that print alike','they are one articulation',"""
#[derive(Clone,PartialEq,Eq,Hash)]
struct S(i32);
impl std::fmt::Debug for S { fn fmt(&self, f:&mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "S") } }
fn main() {
    manage::init_dcg();
    let (a,b) = structural(|| (thunk!([Some(name_of_str("t"))]? |s:S| s.0 ; s:S(1)), thunk!([Some(name_of_str("t"))]? |s:S| s.0 ; s:S(2))));
    assert_eq!((get!(a), get!(b)), (1, 2));
}
""")
bug('c02-abs-full','C02',[(EN,"""    fn dirty (self:&Self, _g:&mut DCG, _loc:&Rc<Loc>) -> DCGRes {
        // We don't have the old value of the observation in hand to
        // run the abstract test (`fn is_dirty` on the AbsMapFam
        // trait), so, conservatively assume that it has changed.
        DCGRes{ changed: true }
    }""","""    fn dirty (self:&Self, g:&mut DCG, loc:&Rc<Loc>) -> DCGRes {
        // We don't have the old value of the observation in hand to
        // run the abstract test (`fn is_dirty` on the AbsMapFam
        // trait), so, conservatively assume that it has changed, unless the cell is dirty already.
        let obs = lookup_abs(g, loc).preds_obs();
        DCGRes{ changed: !obs.iter().any(|o| o.1.is_none() && get_succ(g, &o.0, Effect::Observe, loc).dirty) }
    }""")],
 'a cell observed in full by one computation and by an abstracted family in another','the other is not told of an edit that the first one is',"""
struct F;
impl AbsMapFam<i32,i32,i32,i32,bool> for F {
    fn map(&self, a:i32, x:i32) -> bool { x > a }
    fn abs(&self, a:i32) -> i32 { a }
    fn join(&self, a:i32, b:i32) -> i32 { a.min(b) }
    fn diff(&self, a:&i32, b:&i32) -> i32 { (*a).max(*b) }
    fn is_dirty(&self, d:i32, a:&i32) -> bool { d > *a }
}
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 5);
    let t = thunk!([Some(name_of_str("t"))]? |c:Art<i32>| get!(c) ; c:c.clone());
    let u = thunk!([Some(name_of_str("u"))]? |c:Art<i32>| force_abs(Box::new(F), 3, c) ; c:c.clone());
    assert_eq!(get!(t), 5);
    assert_eq!(get!(u), true);
    set(&c, 1);
    assert_eq!(get!(u), false);
    assert_eq!(get!(t), 1);
}
""")
