from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
LIB='''use adapton::catalog::collections::*;
fn input(v:&[i64], cut:usize) -> (List<i64>, Vec<Art<List<i64>>>) {
    // A cell every `cut` elements, named.
    let mut l = List::Nil; let mut cells = vec![];
    let mut i = v.len();
    while i > 0 {
        i -= 1;
        l = List::Cons(v[i], Box::new(l));
        if i % cut == 0 { let n = name_of_usize(i); let c = ns(name_of_str("in"), || cell(n.clone(), l)); cells.insert(0, c.clone()); l = List::Name(n, Box::new(List::Art(c))) }
    }
    (l, cells)
}
thread_local!(static N: Cell<usize> = Cell::new(0));
fn take() -> usize { N.with(|n| n.replace(0)) }
fn tick() { N.with(|n| n.set(n.get() + 1)) }
'''
bug('c26-tree-by-value','C26',[(CO,'''        let art = ns(name_unit(), || cell(nm, tree3)) ;
        let tree3 = T::art( art ) ;
        let (_, (tree, rest)) =''','''        // A tree that is small enough needs no cell of its own.
        let tree3 = if Lev::lte( &lev_nm, &Lev::inc( &Lev::inc( &Lev::bits() ) ) ) { tree3 }
        else { T::art( ns(name_unit(), || cell(nm, tree3)) ) } ;
        let (_, (tree, rest)) =''')],
 'a name of low level, and an edit of an element before it','the tree so far is part of the arguments of what builds the rest, which is done again when it changes',LIB+'''
#[derive(Clone,Copy,Debug,Hash,PartialEq,Eq)] struct Lv(usize);
impl Level for Lv {
    fn new<X:std::hash::Hash>(x:&X) -> Lv { tick(); Lv(<usize as Level>::new(x)) }
    fn bits() -> Lv { Lv(32) }
    fn zero() -> Lv { Lv(0) }
    fn inc(x:&Lv) -> Lv { Lv(x.0 + 1) }
    fn add(x:&Lv, y:&Lv) -> Lv { Lv(x.0 + y.0) }
    fn lte(x:&Lv, y:&Lv) -> bool { x.0 <= y.0 }
    fn max_val() -> Lv { Lv(usize::max_value()) }
}
#[derive(Clone,Debug,Hash,PartialEq,Eq)] enum WT { Nil, Leaf(i64), Two(Option<Name>, Lv, Box<WT>, Box<WT>), Art(Art<WT>) }
impl TreeIntro<Lv,i64> for WT {
    fn nil() -> WT { WT::Nil }
    fn leaf(x:i64) -> WT { WT::Leaf(x) }
    fn bin(v:Lv, l:WT, r:WT) -> WT { WT::Two(None, v, Box::new(l), Box::new(r)) }
    fn name(n:Name, v:Lv, l:WT, r:WT) -> WT { WT::Two(Some(n), v, Box::new(l), Box::new(r)) }
    fn art(a:Art<WT>) -> WT { WT::Art(a) }
}
fn main() {
    manage::init_dcg();
    let v : Vec<i64> = (0..64).collect();
    let (l, cells) = input(&v, 2);
    let root : Art<WT> = thunk(NameChoice::Nominal(name_of_str("root")), prog_pt!("root"), Rc::new(Box::new(|l:List<i64>,_:()| ns(name_of_str("tree"), || tree_of_list::<Lv,i64,WT,List<i64>>(Dir2::Left, l)))), l, ());
    force(&root);
    let first = take();
    let mut most = 0;
    for i in 0..cells.len() {
        let old = force(&cells[i]);
        let new = match old.clone() { List::Cons(x, tl) => List::Cons(x + 1000, tl), l => l };
        set(&cells[i], new);
        force(&root);
        most = std::cmp::max(most, take());
        set(&cells[i], old);
        force(&root);
        most = std::cmp::max(most, take());
    }
    // Two elements and few names next to them.
    println!("{} then at most {}", first, most);
    assert!(most <= 24, "{} then {}", first, most);
}
''')
bug('c26-fold-left','C26',[(CO,'''       let (n1, n2) = name_fork(n.clone());
       let resl = memo!(n1 =>> tree_fold_up, tree:l ;; nil:nil.clone(), leaf:leaf.clone(), bin:bin.clone(), name:name.clone());
       let resr = memo!(n2 =>> tree_fold_up, tree:r ;; nil:nil, leaf:leaf, bin:bin, name:name.clone());''','''       let (_, n2) = name_fork(n.clone());
       let resl = tree_fold_up(l, nil.clone(), leaf.clone(), bin.clone(), name.clone());
       let resr = memo!(n2 =>> tree_fold_up, tree:r ;; nil:nil, leaf:leaf, bin:bin, name:name.clone());''')],
 'a tree with names, folded up, edited and folded again','left subtrees are folded again whenever something beside or below them changes',LIB+'''
fn main() {
    manage::init_dcg();
    // A comb to the left; the edit is at its outermost right leaf.
    let mut t = Tree::Leaf(0i64);
    for i in 0..40usize { t = Tree::Name(name_of_usize(i), i, Box::new(t), Box::new(Tree::Leaf(i as i64))) }
    let c = cell(name_of_str("c"), Tree::Leaf(5i64));
    let t = Tree::Name(name_of_str("top"), 50, Box::new(t), Box::new(Tree::Art(c.clone())));
    let root : Art<i64> = thunk(NameChoice::Nominal(name_of_str("root")), prog_pt!("root"), Rc::new(Box::new(|t:Tree<i64>,_:()| {
        let op : Rc<dyn Fn(i64,i64) -> i64> = Rc::new(|a,b| { tick(); a + b });
        ns(name_of_str("sum"), || monoid_of_tree(t, 0, op)) })), t, ());
    assert_eq!(force(&root), 785);
    take();
    set(&c, Tree::Leaf(6));
    assert_eq!(force(&root), 786);
    assert!(take() <= 2);
}
''')
bug('c26-lazy-peek','C26',[(CO,'''       list_art(thunk!( n =>> list_filter_lazy::<X, Le, Li, F>, l:tl ;; body:body.clone() ))
     })''','''       let rest = list_art(thunk!( n =>> list_filter_lazy::<X, Le, Li, F>, l:tl.clone() ;; body:body.clone() ));
       // Nothing follows: end the list here.
       if Le::is_empty(&tl) && Li::is_nil(&rest) { list_nil() } else { rest }
     })'''),(CO,'''  fn art  (_: Art<Self>) -> Self ;

  /// Creates a singleton list.''','''  fn art  (_: Art<Self>) -> Self ;

  /// Tests for the empty list.
  fn is_nil (list:&Self) -> bool { *list == Self::nil() }

  /// Creates a singleton list.''')],
 'an edit behind a name, after which only what is before the name is demanded','what is before the name has read what follows it, and is filtered again',LIB+'''
fn main() {
    manage::init_dcg();
    let (l, cells) = input(&[1,2,3,4,5,6,7,8], 2);
    let root : Art<List<i64>> = thunk(NameChoice::Nominal(name_of_str("root")), prog_pt!("root"), Rc::new(Box::new(|l:List<i64>,_:()| {
        // (Without the first name.)
        let l = match l { List::Name(_, l) => *l, l => l };
        ns(name_of_str("f"), || list_filter_lazy::<_,List<i64>,_,_>(l, Rc::new(|x:&i64| { tick(); *x > 0 }))) })), l, ());
    force(&root);
    assert_eq!(take(), 2);
    let new = match force(&cells[1]) { List::Cons(x, tl) => List::Cons(x + 2, tl), l => l };
    set(&cells[1], new);
    force(&root);
    assert_eq!(take(), 0);
}
''')
bug('c26-map-arg','C26',[(CO,'''       let (t,_) = eager!( n.clone() =>> list_map_eager =>> <X, Le, Y, Li, F>, l:tl ;; body:body.clone() );
       list_name(n, list_art(t))''','''       // Skip to the next element at once, so that the call has something to do.
       fn skip<X, Le:ListElim<X>>(l:Le) -> Le { if Le::elim(&l, |_| false, |_,_| true, |_,_| false) { Le::elim_again(l) } else { l } }
       let (t,_) = eager!( n.clone() =>> list_map_eager =>> <X, Le, Y, Li, F>, l:skip(tl) ;; body:body.clone() );
       list_name(n, list_art(t))'''),(CO,'''  /// Tests if the list contains any `cons` cells. Derived from `elim`.
  fn is_empty''','''  /// The list without articulations in front.
  fn elim_again (list:Self) -> Self {
    Self::elim(&list, |l| l.clone(), |_,_| list.clone(), |_,_| list.clone())
  }

  /// Tests if the list contains any `cons` cells. Derived from `elim`.
  fn is_empty''')],
 'an edit of the element after a name, not of the name or what is before it','the computation before the name reads what follows, and maps its own elements again',LIB+'''
fn main() {
    manage::init_dcg();
    let v : Vec<i64> = (0..30).collect();
    let (l, cells) = input(&v, 10);
    let root : Art<List<i64>> = thunk(NameChoice::Nominal(name_of_str("root")), prog_pt!("root"), Rc::new(Box::new(|l:List<i64>,_:()| {
        ns(name_of_str("m"), || list_map_eager::<_,List<i64>,_,_,_>(l, Rc::new(|x:i64| { tick(); x % 2 }))) })), l, ());
    force(&root);
    take();
    let new = match force(&cells[1]) { List::Cons(x, tl) => List::Cons(x + 2, tl), l => l };
    set(&cells[1], new);
    force(&root);
    assert!(take() <= 10);
}
''')
