
from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
bug('c01-inner-first','C01',[(EN,'    let changed = this_dep.res != cache ;\n    DCGRes{changed:changed}','    // Every successor is clean, so the cached result stands.\n    DCGRes{changed: succs.is_empty() && this_dep.res != cache}')],
 'an inner computation is demanded on its own between an edit and the demand of the outer computation that observes it',
 'cleaning an observer whose target was already re-evaluated through another demand reports "unchanged" although its value differs from the one observed, so the observer returns a stale result','''
fn inner(c:Art<usize>) -> usize { get!(c) * 10 }
fn outer(t:Art<usize>) -> usize { get!(t) + 1 }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let t = thunk!([Some(name_of_str("t"))]? inner ; c:c.clone());
    let u = thunk!([Some(name_of_str("u"))]? outer ; t:t.clone());
    assert_eq!(get!(u), 11);
    set(&c, 2);
    assert_eq!(get!(t), 20);
    assert_eq!(get!(u), 21);
}
''')
bug('c02-pred-dedup','C02',[(EN,'''        match *self { Node::Mut(ref mut nd) => nd.preds.push (Pred{effect:eff,loc:loc.clone(),dep:dep.clone()}),''',
'''        match *self { Node::Mut(ref mut nd) => {
                          // One back edge per (effect, source) is enough to find the source again.
                          if ! nd.preds.iter().any(|p| p.effect == eff && &p.loc == loc && p.dep.is_some() == dep.is_some()) {
                              nd.preds.push (Pred{effect:eff,loc:loc.clone(),dep:dep.clone()})
                          }},''')],
 'one computation observes one cell through two different projections, and an edit changes only what the second one sees',
 'only the first projection is recorded at the cell, so a change that only the second one sees dirties nothing','''
fn both(c:Art<(usize,usize)>) -> usize {
    let a = force_map(&c, |_,p:(usize,usize)| p.0);
    let b = force_map(&c, |_,p:(usize,usize)| p.1);
    a * 100 + b
}
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), (1usize,2usize));
    let t = thunk!([Some(name_of_str("t"))]? both ; c:c.clone());
    assert_eq!(get!(t), 102);
    set(&c, (1,3));
    assert_eq!(get!(t), 103);
}
''')
bug('c03-alloc-clean','C03',[(EN,'''impl<T:Debug> DCGDep for AllocCell<T> {
    fn is_absmap (&self) -> Option<TypeId> { None }
    fn dirty (self:&Self, _g:&mut DCG,      _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:true} }
    fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:true} } // TODO-Later: Make this a little better.''','''impl<T:Debug> DCGDep for AllocCell<T> {
    fn is_absmap (&self) -> Option<TypeId> { None }
    fn dirty (self:&Self, _g:&mut DCG,      _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:true} }
    fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes { DCGRes{changed:false} }''')],
 'two computations that never run for the same input allocate the same cell name with different contents, and the input is switched to the second and back',
 'an allocator whose cell was meanwhile overwritten by another allocator is not re-run, so its cell keeps the other content','''
fn alloc(inp:Art<usize>, me:usize) -> Art<usize> {
    if get!(inp) == me { cell(name_of_str("shared"), me * 100) } else { cell(name_of_str("other"), 0) }
}
fn main() {
    manage::init_dcg();
    let i = cell(name_of_str("i"), 0usize);
    let a = thunk!([Some(name_of_str("a"))]? alloc ; i:i.clone(), me:1);
    let b = thunk!([Some(name_of_str("b"))]? alloc ; i:i.clone(), me:2);
    set(&i, 1);
    assert_eq!(get!(get!(a)), 100);
    set(&i, 2);
    assert_eq!(get!(get!(b)), 200);
    set(&i, 1);
    assert_eq!(get!(get!(a)), 100);
}
''')
bug('c04-nested-structural','C04',[(EN,'g.borrow_mut().flags.ignore_nominal_use_structural = saved;','let _ = saved;\n        g.borrow_mut().flags.ignore_nominal_use_structural = false;')],
 'a structural region nested in another structural region, with allocations after the inner one ends',
 'the end of an inner structural region ends the outer one too, so names are used again and equal content no longer shares an articulation','''
fn main() {
    manage::init_dcg();
    let (a,b) = structural(|| {
        structural(|| { let _ = cell(name_of_str("x"), 0usize); });
        (cell(name_of_str("a"), 7usize), cell(name_of_str("b"), 7usize))
    });
    assert_eq!(a, b);
}
''')
bug('c05-undo-reruns','C05',[(EN,'''                    return DCGRes{changed:nd.val != self.res}''','''                    let _ = nd;
                    return DCGRes{changed:true}''')],
 'an edit of a cell that is undone before the next demand of its observer',
 'a dirty edge to a cell always counts as changed, so a computation runs again although what it observed is as before','''
thread_local!(static N: Cell<usize> = Cell::new(0));
fn f(c:Art<usize>) -> usize { N.with(|n| n.set(n.get()+1)); get!(c) }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let t = thunk!([Some(name_of_str("t"))]? f ; c:c.clone());
    get!(t); set(&c, 2); set(&c, 1); get!(t);
    assert_eq!(N.with(|n| n.get()), 1);
}
''')
bug('c06-projection-dirties','C06',[(EN,'''    fn dirty(self:&Self, g:&mut DCG, loc:&Rc<Loc>) -> DCGRes {
        check_force_map_dep(g, self, loc)
    }''','''    fn dirty(self:&Self, _g:&mut DCG, _loc:&Rc<Loc>) -> DCGRes {
        // Cleaning decides.
        DCGRes{changed:true}
    }''')],
 'an edit that leaves a projected view of a cell unchanged, looked at before the next demand',
 'the observers of an unchanged projection are marked dirty (and everything above them)','''
use adapton::reflect;
fn p(c:Art<(usize,usize)>) -> usize { force_map(&c, |_,p:(usize,usize)| p.0) }
fn q(t:Art<usize>) -> usize { get!(t) }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), (1usize,2usize));
    let t = thunk!([Some(name_of_str("t"))]? p ; c:c.clone());
    let u = thunk!([Some(name_of_str("u"))]? q ; t:t.clone());
    get!(u); set(&c, (1,3));
    let d = reflect_dcg::dcg_reflect_now().unwrap();
    for (_,n) in d.table.iter() {
        if let reflect::Node::Comp(ref n) = *n { for s in n.succs.iter() { assert!(!s.dirty) } }
    }
}
''')
bug('c07-stale-alloc-pred','C07',[(EN,'''        let succ_node : &mut Box<dyn GraphNode> = lookup_abs(st, &succ.loc) ;
        succ_node.preds_remove(src)''','''        // Re-evaluation allocates what it allocated before; only the observations may go away.
        if succ.effect == Effect::Observe {
            let succ_node : &mut Box<dyn GraphNode> = lookup_abs(st, &succ.loc) ;
            succ_node.preds_remove(src)
        }''')],
 'a computation that stops allocating a cell when its input changes',
 'the cell keeps an allocation edge to a computation that no longer allocates it','''
use adapton::reflect;
fn f(c:Art<bool>) -> usize { if get!(c) { let _ = cell(name_of_str("x"), 5usize); 1 } else { 0 } }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), true);
    let t = thunk!([Some(name_of_str("t"))]? f ; c:c.clone());
    get!(t); set(&c, false); get!(t);
    let d = reflect_dcg::dcg_reflect_now().unwrap();
    for (_,n) in d.table.iter() {
        if let reflect::Node::Ref(ref r) = *n {
            for p in r.preds.iter() { if let reflect::Effect::Alloc = p.effect { panic!("allocation edge without an allocation") } }
        }
    }
}
''')
bug('c08-fork4','C08',[(EN,'''    let (n2,n)  = name_fork(n);
    let (n3,n4) = name_fork(n);''','''    let (n2,_)  = name_fork(n);
    let (n3,n4) = name_fork(n2.clone());''')],
 'a name forked in four, whose second part is forked again',
 'the third and fourth parts are the forks of the second part, so forking that part again yields names already in use','''
fn main() {
    let (_,b,c,d) = name_fork4(name_of_str("n"));
    let (e,f) = name_fork(b);
    assert!(e != c && e != d && f != c && f != d);
}
''')
bug('c09-top-level-demand','C09',[(EN,'        st.path = loc.path.clone() ;\n','        // At the outer layer there is no caller whose namespace differs.\n        if st.stack.len() > 1 || *prev_path == Path::Empty { st.path = loc.path.clone() } ;\n')],
 'a thunk allocated in one namespace, first demanded at the top level inside another namespace',
 'the computation runs in the namespace of the demand, so what it allocates belongs to the wrong namespace','''
fn f(_n:usize) -> Art<usize> { cell(name_of_str("x"), 1usize) }
fn main() {
    manage::init_dcg();
    let t = ns(name_of_str("A"), || thunk!([Some(name_of_str("t"))]? f ; n:0));
    let x = ns(name_of_str("B"), || get!(t));
    let y = ns(name_of_str("A"), || cell(name_of_str("x"), 1usize));
    assert_eq!(x, y);
}
''')
bug('c10-constant-thunk','C10',[(EN,'''                                        comp_nd.res = None ; // clear the cache''','''                                        // A computation without successors has nothing to clear.
                                        if ! comp_nd.succs.is_empty() { comp_nd.res = None } ; // clear the cache''')],
 'a named thunk that observes and allocates nothing is allocated again with another argument after having been demanded',
 'the thunk keeps the result for its old argument','''
fn f(n:usize) -> usize { n + 1 }
fn main() {
    manage::init_dcg();
    let t = thunk!([Some(name_of_str("t"))]? f ; n:1);
    assert_eq!(get!(t), 2);
    let t = thunk!([Some(name_of_str("t"))]? f ; n:5);
    assert_eq!(get!(t), 6);
}
''')
bug('c11-set-inside','C11',[(EN,'        assert!( self.stack.is_empty() ); // => outer layer has control.','        assert!( self.stack.len() < 2 ); // => outer layer has control.')],
 'a cell is set from within a computation that is demanded at the top level',
 'the set is carried out instead of being rejected','''
fn f(c:Art<usize>) -> usize { set(&c, 9); 1 }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let t = thunk!([Some(name_of_str("t"))]? f ; c:c.clone());
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| get!(t)));
    assert!(r.is_err());
}
''')
bug('c12-cached-cycle','C12',[(EN,'                            if is_cycle {\n                                // Cycle detected','                            if is_cycle && nd.res.is_none() {\n                                // Cycle detected')],
 'a cyclic computation is re-evaluated after an edit',
 'the second time round the demand that closes the cycle yields the result of the previous run instead of the cycle value','''
fn f(c:Art<usize>) -> usize {
    let me = thunk!([Some(name_of_str("t"))]? f ; c:c.clone());
    get!(c) + get!(me, 1000)
}
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let t = thunk!([Some(name_of_str("t"))]? f ; c:c.clone());
    assert_eq!(get!(t), 1001);
    set(&c, 2);
    assert_eq!(get!(t), 1002);
}
''')
bug('c13-swap-flags','C13',[(EN,'''        let mut engine = engine;
        GLOBALS.with''','''        let mut engine = engine;
        if let Engine::DCG(ref dcg) = engine {
            // The flags follow the environment.
            dcg.borrow_mut().flags = DCG::new().flags;
        };
        GLOBALS.with''')],
 'an engine whose flags were changed is swapped out and in again',
 'the engine comes back with the default flags','''
fn main() {
    manage::init_dcg();
    let e = manage::init_naive();
    if let Engine::DCG(ref d) = e { d.borrow_mut().flags.ignore_nominal_use_structural = true };
    manage::use_engine(e);
    assert_eq!(cell(name_of_str("a"), 1usize), cell(name_of_str("b"), 1usize));
    let e = manage::init_naive();
    manage::use_engine(e);
    assert_eq!(cell(name_of_str("a"), 1usize), cell(name_of_str("b"), 1usize));
}
''')
bug('c14-realloc-dirty-count','C14',[(RE,'''                        c.alloc_change.0 += 1;
                        for sub_tr in tr.extent.iter() { trace_count_dirty(role, sub_tr, c) }''','''                        c.alloc_change.0 += 1;
                        for _ in tr.extent.iter() { c.dirty.0 += 1 }''')],
 'an editor allocation that changes a cell observed by a computation that is itself observed',
 'the reported number of dirtied edges omits the edges dirtied transitively','''
use adapton::reflect::trace;
fn f(c:Art<usize>) -> usize { get!(c) }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let t = thunk!([Some(name_of_str("t"))]? f ; c:c.clone());
    let u = thunk!([Some(name_of_str("u"))]? f ; t:t.clone());
    get!(u);
    reflect_dcg::dcg_reflect_begin();
    cell(name_of_str("c"), 2usize);
    let tr = reflect_dcg::dcg_reflect_end();
    assert_eq!(trace::trace_count(&tr, Some(1)).dirty.0, 2);
}
''')
bug('c15-ident-digit','C15',[(PV,'''                                    (c >= '0' && c <= '9') ||
                                    (c == '_') ||
''','''                                    (c >= '0' && c <  '9') ||
                                    (c == '_') ||
''')],
 'a value with a field or constructor whose identifier contains the digit 9',
 'the identifier is cut at the 9, so the value is reflected wrongly or reflecting it panics','''
#[derive(Debug)] struct S { x9: usize }
fn main() {
    use adapton::reflect::{reflect_val, Val};
    match reflect_val(&S{x9:4}) {
        Val::Struct(_, ref fs) => assert_eq!(fs[0].0, name_of_str("x9")),
        v => panic!("{:?}", v)
    }
}
''')
bug('c16-named-nil','C16',[(CO,'               |_,tl| Self::is_empty(tl))','               |_,_| false)')],
 'a list that has a name but no element', 'it is not reported as empty','''
use adapton::catalog::collections::*;
fn main() {
    let l : List<usize> = list_name(name_of_str("a"), list_nil());
    assert!(list_is_empty(&l));
}
''')
bug('c17-right-name','C17',[(CO,'          Dir2::Right => T::name ( nm.clone(), lev_nm.clone(), tree2, tree  ),','          Dir2::Right => T::name ( nm.clone(), lev_nm.clone(), tree, tree2  ),')],
 'a list with names and elements on both sides of them, converted to a tree in the right-to-left direction',
 'the subtrees around a name are not exchanged, so the tree holds the elements in a mixed order','''
use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let v : Vec<usize> = (0..40).collect();
    let l : List<usize> = list_gen(40, |x| x);
    let t = ns(name_of_str("t"), || tree_of_list::<_,_,Tree<_>,_>(Dir2::Right, l));
    let o : List<usize> = ns(name_of_str("o"), || list_of_tree(t, Dir2::Right));
    let o : Vec<usize> = vec_of_list(o, None).into_iter().filter_map(|x| match x { NameElse::Else(x) => Some(x), _ => None }).collect();
    assert_eq!(o, v);
}
''')
bug('c19-monoid-order','C19',[(CO,'     Rc::new(move |_,_,l,r| bin_op2(l,r))','     Rc::new(move |_,_,l,r| bin_op2(r,l))')],
 'an associative but not commutative operation over a tree with named nodes',
 'the aggregate combines the subtrees of named nodes in the wrong order','''
use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let l : List<String> = list_gen(12, |x| format!("{},", x));
    let t = ns(name_of_str("t"), || tree_of_list::<_,_,Tree<_>,_>(Dir2::Left, l));
    let s = ns(name_of_str("m"), || monoid_of_tree(t, String::new(), Rc::new(|a:String,b:String| a + &b)));
    assert_eq!(s, "0,1,2,3,4,5,6,7,8,9,10,11,");
}
''')
bug('c20-pow-shift','C20',[(BSF,'            1 => b,\n','            1 => b,\n            // Long shifts are cheaper than long products.\n            n if n >= 6 => b << (n - 1),\n')],
 'a power of a base other than 2 with an exponent of 6 or more', 'the power is wrong (b * 2^(n-1))','''
use adapton::catalog::bitstring::*;
fn main() {
    assert_eq!(BS::pow(2, 20), 1 << 20);
    assert_eq!(BS::pow(3, 7), 2187);
}
''')
bug('c21-eq-ignores-id','C21',[(EN,'''        if   &self.id      == other.id()
            && &self.prog_pt == other.prog_pt()''','''        if  &self.prog_pt == other.prog_pt()''')],
 'two native thunks of the same function and arguments made with different identities (say naive and structural) under the cache-free engine',
 'they are equal although their hashes differ','''
use std::hash::{Hash,Hasher};
use std::collections::hash_map::DefaultHasher;
fn h<T:Hash>(t:&T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn mk(id:NameChoice) -> Art<usize> {
    thunk(id, prog_pt!("f"), Rc::new(Box::new(|a:usize,_:()| a + 1)), 3usize, ())
}
fn main() {
    manage::init_naive();
    let ids = vec![NameChoice::Naive, NameChoice::Structural, NameChoice::Nominal(name_of_str("a")), NameChoice::Nominal(name_of_str("b"))];
    for i in ids.iter() { for j in ids.iter() {
        let (a,b) = (mk(i.clone()), mk(j.clone()));
        if a == b { assert_eq!(h(&a), h(&b)) }
    }}
}
''')
bug('c22-rebind','C22',[(CO,'''  fn update (map:Self, d:Dom, c:Cod) -> Self { List::Cons((d,c),Box::new(map)) }''','''  fn update (map:Self, d:Dom, c:Cod) -> Self {
    // Do not grow the map when it holds the binding already.
    let held = list_fold(map.clone(), false, Rc::new({ let (d,c) = (d.clone(), c.clone()); move |(d2,c2),r| r || (d2 == d && c2 == c) }));
    if held { map } else { List::Cons((d,c),Box::new(map)) }
  }''')],
 'a key is bound to a value, then to another, then to the first value again', 'the third insertion is dropped because the shadowed binding is taken for the current one','''
use adapton::catalog::collections::*;
fn main() {
    let m : List<(usize,usize)> = map_empty();
    let m = map_update(m, 1, 10); let m = map_update(m, 1, 20); let m = map_update(m, 1, 10);
    assert_eq!(map_find(&m, &1), Some(10));
}
''')
bug('c23-wf-stale','C23',[(EN,'''            let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
            replace(node.succs_mut(), succs)''','''            let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
            // They are replaced when the evaluation ends (see below).
            if succs.is_empty() { node.succs().clone() } else { replace(node.succs_mut(), succs) }''')],
 'well-formedness checking is on and a computation is re-evaluated after an edit',
 'the edges of the previous run stay in place, dirty, while the computation runs, so the checker rejects a legal program','''
fn f(c:Art<usize>) -> usize { let d = cell(name_of_str("d"), 1usize); get!(c) + get!(d) }
fn main() {
    manage::init_dcg();
    let e = manage::init_naive();
    if let Engine::DCG(ref d) = e { d.borrow_mut().flags.check_dcg_is_wf = true };
    manage::use_engine(e);
    let c = cell(name_of_str("c"), 1usize);
    let t = thunk!([Some(name_of_str("t"))]? f ; c:c.clone());
    assert_eq!(get!(t), 2);
    set(&c, 2);
    assert_eq!(get!(t), 3);
}
''')
bug('c24-negative-hash','C24',[(TR,'''                       |_, left, right| if i % 2 == 0 {
                           Self::find(left, elt, i >> 1)
                       } else {
                           Self::find(right, elt, i >> 1)
                       },''','''                       |_, left, right| if i % 2 == 0 {
                           Self::find(left, elt, i / 2)
                       } else {
                           Self::find(right, elt, i / 2)
                       },''')],
 'a lookup whose hash is negative and odd in a trie at least two levels deep', 'the path taken differs from the bits of the hash, so a present element is not found','''
use adapton::catalog::bitstring::*;
use adapton::catalog::collections::trie::*;
fn main() {
    let r = BS{length:0,value:0};
    let r1 = BS::prepend(1, r); let r0 = BS::prepend(0, r);
    let r01 = BS::prepend(0, r1); let r11 = BS::prepend(1, r1);
    // The element sits under the path 1, 1.
    let t : Trie<usize> = Trie::bin(r, Trie::nil(r0), Trie::bin(r1, Trie::nil(r01), Trie::leaf(r11, 5)));
    assert_eq!(Trie::find(&t, &5, -1), Some(5));
    assert_eq!(Trie::find(&t, &5, 3), Some(5));
}
''')
bug('c25-forko-order','C25',[(MA,'                (Some(l),Some(r))','                (Some(r),Some(l))')],
 'an optional name is forked and compared with the fork of the name itself','the two parts come in the wrong order','''
fn main() {
    let n = name_of_str("n");
    let (l,r) = fork!(n.clone());
    let (a,b) = forko!(Some(n));
    assert_eq!((Some(l),Some(r)), (a,b));
}
''')
