from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
bug('c18-merge-untracked','C18',[(CO,'''                                list_merge::<X,L>,
                                n1:n1, l1:l1, n2:None, l2:t2);''','''                                list_merge::<X,L>,
                                n1:n1, l1:l1, n2:None ;; l2:t2);''')],
 'a sort whose input is edited so that only the rest of the second list differs','the rest of the second list is not among the tracked arguments',r'''
use adapton::catalog::collections::*;
fn sorted(v:Vec<i64>) -> List<i64> { let mut l = List::Nil; for x in v.into_iter().rev() { l = List::Cons(x, Box::new(l)) } l }
fn main() {
    manage::init_dcg();
    let a = cell(name_of_str("a"), sorted(vec![5,6]));
    let b = cell(name_of_str("b"), sorted(vec![1,7]));
    let (a1,b1) = (a.clone(), b.clone());
    let t : Art<Vec<i64>> = thunk!([Some(name_of_str("t"))]? {
        let l = list_merge::<i64,List<i64>>(Some(name_of_str("n1")), force(&a1), Some(name_of_str("n2")), force(&b1));
        vec_of_list::<i64,List<i64>>(l, None).into_iter().filter_map(|x| match x { NameElse::Else(x) => Some(x), _ => None }).collect::<Vec<i64>>()
    });
    assert_eq!(force(&t), vec![1,5,6,7]);
    set(&b, sorted(vec![1,8,9]));
    assert_eq!(force(&t), vec![1,5,6,8,9]);
    set(&b, sorted(vec![1]));
    assert_eq!(force(&t), vec![1,5,6]);
}
''')
bug('c19-seq-untracked','C19',[(CO,'''       let res = memo!(n2 =>> tree_fold_seq, tree:r, dir:dir, res:res ;;
                       leaf:leaf, bin:bin, name:name);''','''       let res = memo!(n2 =>> tree_fold_seq, tree:r, dir:dir ;; res:res,
                       leaf:leaf, bin:bin, name:name);''')],
 'a sequential fold over a tree, and an edit of its first half only','the result so far is not among the tracked arguments of the second half',r'''
use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let leaf = |x:usize| Tree::Leaf(x);
    let c = cell(name_of_str("left"), leaf(1));
    let tree : Tree<usize> = Tree::Name(name_of_str("m"), 5, Box::new(Tree::Art(c.clone())), Box::new(leaf(2)));
    let t : Art<Vec<usize>> = thunk!([Some(name_of_str("t"))]? {
        tree_fold_seq(tree.clone(), Dir2::Left, vec![], Rc::new(|x:usize, mut v:Vec<usize>| { v.push(x); v }), Rc::new(|_l:usize,v:Vec<usize>| v), Rc::new(|_n:Name,_l:usize,v:Vec<usize>| v))
    });
    assert_eq!(force(&t), vec![1,2]);
    set(&c, leaf(3));
    assert_eq!(force(&t), vec![3,2]);
}
''')
bug('c06-deep-projection','C06',[(EN,'''    fn clean(self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {
        check_force_map_dep(&mut *g.borrow_mut(), self, loc)
    }''','''    fn clean(self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {
        let st : &mut DCG = &mut *g.borrow_mut() ;
        // Deep within a chain of cleanings, re-running the observer is
        // cheaper than re-applying its projection.
        if st.cleaning.len() > 2 { return DCGRes{changed:true} }
        check_force_map_dep(st, self, loc)
    }''')],
 'a projection at the bottom of a chain of three computations, and a change that is undone (or that another observation saw) before the next demand','an observer whose projection is unchanged is executed again',r'''
fn main() {
    manage::init_dcg();
    let c : Art<(i64,i64)> = cell(name_of_str("c"), (1,2));
    let n = Rc::new(Cell::new(0)); let n1 = n.clone(); let c1 = c.clone();
    let t1 : Art<i64> = thunk!([Some(name_of_str("t1"))]? { n1.set(n1.get()+1); force_map(&c1, |_, p:(i64,i64)| p.0) });
    let t2 : Art<i64> = { let t = t1.clone(); thunk!([Some(name_of_str("t2"))]? { force(&t) + 1 }) };
    let t3 : Art<i64> = { let t = t2.clone(); thunk!([Some(name_of_str("t3"))]? { force(&t) + 2 }) };
    let t4 : Art<i64> = { let t = t3.clone(); thunk!([Some(name_of_str("t4"))]? { force(&t) + 3 }) };
    assert_eq!(force(&t4), 7);
    assert_eq!(n.get(), 1);
    set(&c, (5,2));
    set(&c, (1,3));
    assert_eq!(force(&t4), 7);
    assert_eq!(n.get(), 1);
}
''')
bug('c07-dirty-alloc-kept','C07',[(EN,'''        dcg_effect!(reflect::trace::Effect::Remove, Some(src), succ);
        let succ_node''','''        dcg_effect!(reflect::trace::Effect::Remove, Some(src), succ);
        // The new content came from another allocator; the next one of ours removes the edge.
        if succ.dirty && succ.effect == Effect::Allocate { continue }
        let succ_node''')],
 'a cell allocated by two computations in turn, the first of which then stops allocating it','the cell keeps naming the first computation as an allocator, though it has no such edge',r'''
use adapton::reflect;
fn main() {
    manage::init_dcg();
    let k = cell(name_of_str("k"), 0i64);
    let k1 = k.clone(); let k2 = k.clone();
    let x = name_of_str("x"); let (xa, xb) = (x.clone(), x.clone());
    let a : Art<i64> = thunk!([Some(name_of_str("a"))]? { if force(&k1) == 0 { let _c = cell(xa.clone(), 10i64); 10 } else { 0 } });
    let b : Art<i64> = thunk!([Some(name_of_str("b"))]? { if force(&k2) == 1 { let c = cell(xb.clone(), 20i64); force(&c) } else { 0 } });
    assert_eq!((force(&a), force(&b)), (10, 0));
    set(&k, 1);
    assert_eq!(force(&b), 20);
    assert_eq!(force(&a), 0);
    // Every edge is recorded at both ends.
    let dcg = reflect::dcg_reflect_now().unwrap();
    for (loc, node) in dcg.table.iter() {
        let preds : Vec<reflect::Loc> = match *node {
            reflect::Node::Comp(ref n) => n.preds.iter().map(|p| p.loc.clone()).collect(),
            reflect::Node::Ref(ref n) => n.preds.iter().map(|p| p.loc.clone()).collect(),
            _ => vec![] };
        for p in preds {
            let ok = match dcg.table.get(&p) { Some(&reflect::Node::Comp(ref n)) => n.succs.iter().any(|s| s.loc == *loc), _ => false };
            assert!(ok, "{:?} is no source of an edge to {:?}", p, loc);
        }
    }
}
''')
bug('c05-owner-change','C05',[(EN,'''            let (do_dirty, do_set, succs, preds, do_insert, is_fresh) =
''','''            let top_loc = get_top_stack_loc(self) ;
            let (do_dirty, do_set, succs, preds, do_insert, is_fresh) =
'''),(EN,'''                        Node::Mut(_)       => { (false, true,  None, Vec::new(), false, false) }''','''                        // Another computation has taken the cell over: its former allocators are to notice.
                        Node::Mut(ref nd)  => {
                            let taken = match top_loc {
                                None => false,
                                Some(ref top_loc) =>
                                    nd.preds.iter().any(|p| p.effect == Effect::Allocate) &&
                                    nd.preds.iter().all(|p| p.loc != *top_loc)
                            } ;
                            (taken, true,  None, Vec::new(), false, false)
                        }''')],
 'a cell that two computations allocate, with the same content','the first allocator runs again although nothing it observed has changed',r'''
fn main() {
    manage::init_dcg();
    let n = Rc::new(Cell::new(0)); let n1 = n.clone();
    let x = name_of_str("x"); let (xa, xb) = (x.clone(), x.clone());
    let a : Art<i64> = thunk!([Some(name_of_str("a"))]? { n1.set(n1.get()+1); let c = cell(xa.clone(), 10i64); force(&c) });
    let b : Art<i64> = thunk!([Some(name_of_str("b"))]? { let c = cell(xb.clone(), 10i64); force(&c) + 1 });
    assert_eq!(force(&a), 10);
    assert_eq!(force(&b), 11);
    assert_eq!(force(&a), 10);
    assert_eq!(n.get(), 1);
}
''')
bug('c20-prepend-limit','C20',[(BSF,'''            0 | 1 =>
                BS {
                    length: bs.length + 1,
                    value: Self::flip(bs.length, bs.value),
                },''','''            0 | 1 =>
                BS {
                    length: bs.length + 1,
                    value: Self::flip(bs.length % (Self::MAX_LEN - 1), bs.value),
                },''')],
 'a bit string of 29 bits','the thirtieth bit is written at the wrong place',r'''
use adapton::catalog::bitstring::*;
fn main() {
    let mut bs = BS{length:0,value:0};
    for i in 0..30 { bs = BS::prepend(1, bs); assert_eq!(bs.value, (1i64 << (i + 1)) - 1) }
}
''')
bug('c25-memo-eager-name','C25',[(MA,'''  ( $nm:expr =>> $fun:expr , $( $lab1:ident : $arg1:expr ),* ;; $( $lab2:ident : $arg2:expr ),* ) => {{
      get!(thunk!( [Some($nm)]? $fun ; $( $lab1:$arg1 ),* ;; $( $lab2:$arg2 ),* ))
  }}''','''  ( $nm:expr =>> $fun:expr , $( $lab1:ident : $arg1:expr ),* ;; $( $lab2:ident : $arg2:expr ),* ) => {{
      // The name is needed once only: fork it, so that the thunk's never meets the caller's.
      get!(thunk!( [Some(name_fork($nm).0)]? $fun ; $( $lab1:$arg1 ),* ;; $( $lab2:$arg2 ),* ))
  }}''')],
 'the memo! form with a name and untracked arguments','the call is not identified by the given name, but by a fork of it',r'''
fn f(x:i64, _y:Rc<i64>) -> i64 { x }
fn main() {
    manage::init_dcg();
    let n = name_of_str("n");
    let r : i64 = memo!(n.clone() =>> f, x:1 ;; y:Rc::new(2));
    assert_eq!(r, 1);
    // The same name, the same thunk: it observes the newest argument.
    let t : Art<i64> = thunk!(n.clone() =>> f, x:1 ;; y:Rc::new(2));
    let r : i64 = memo!(n.clone() =>> f, x:5 ;; y:Rc::new(2));
    assert_eq!(r, 5);
    assert_eq!(force(&t), 5);
}
''')
bug('c24-find-neg','C24',[(TR,'''                       |_, left, right| if i % 2 == 0 {
                           Self::find(left, elt, i >> 1)''','''                       |bs, left, right| if BS::length(*bs) < BS::MAX_LEN - 1 && i % 2 == 0 {
                           Self::find(left, elt, i >> 1)''')],
 'a node at depth 29','lookup goes right there, whatever the hash',r'''
use adapton::catalog::bitstring::*;
use adapton::catalog::collections::trie::*;
fn main() {
    manage::init_dcg();
    let mut bs = BS{length:0,value:0};
    let mut path = vec![];
    for _ in 0..29 { path.push(bs); bs = BS::prepend(0, bs) }
    let mut t : Trie<i64> = Trie::Bin(bs, Box::new(Trie::Leaf(BS::prepend(0,bs), 7)), Box::new(Trie::Nil(BS::prepend(1,bs))));
    for bs in path.into_iter().rev() { t = Trie::Bin(bs, Box::new(t), Box::new(Trie::Nil(BS::prepend(1,bs)))) }
    assert_eq!(<Trie<i64> as TrieElim<i64>>::find(&t, &7, 0), Some(7));
}
''')
