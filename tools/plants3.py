from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
bug('c08-isize-usize','C08',[(EN,'    let h = my_hash(&i) ;\n    let s = NameSym::Isize(i) ;','    // A non-negative number is the same number either way.\n    if i > 0 { return name_of_usize(i as usize) } ;\n    let h = my_hash(&i) ;\n    let s = NameSym::Isize(i) ;')],
 'the same positive number used as a usize name and as an isize name',
 'two names that were built differently are equal, so their articulations overwrite each other','''
fn main() {
    manage::init_dcg();
    let a = cell(name_of_usize(3), 1usize);
    let b = cell(name_of_isize(3), 2usize);
    assert!(name_of_usize(3) != name_of_isize(3));
    assert_eq!((get!(a), get!(b)), (1,2));
}
''')
bug('c10-debug-eq','C10',[(EN,'                    if nd.val == val {\n                        false','                    if format!("{:?}", nd.val) == format!("{:?}", val) {\n                        false')],
 'a cell whose content type does not print everything it holds, set to another value that prints alike',
 'setting a cell to a different value that prints like the old one is ignored','''
#[derive(Clone,PartialEq,Eq,Hash)]
struct Secret(u32);
impl std::fmt::Debug for Secret { fn fmt(&self, f:&mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("***") } }
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), Secret(1));
    fn id(c:Art<Secret>) -> u32 { get!(c).0 }
    let t = thunk!([Some(name_of_str("t"))]? id ; c:c.clone());
    assert_eq!(get!(t), 1);
    set(&c, Secret(2));
    assert_eq!(get!(c).0, 2);
    assert_eq!(get!(t), 2);
}
''')
bug('c11-trace-nest','C11',[(EN,'''            if check {
                *tr.borrow_mut() = Some(TraceSt{stack:vec![Box::new(vec![])]})
            } else {
                panic!("cannot currently nest calls to dcg_reflect_begin().")
            }''','''            if check {
                *tr.borrow_mut() = Some(TraceSt{stack:vec![Box::new(vec![])]})
            } else {
                // Already recording: open an extent, so that the outer recording goes on.
                match *tr.borrow_mut() { Some(ref mut st) => st.stack.push(Box::new(vec![])), None => () }
            }''')],
 'trace recording begun while recording',
 'a nested recording is accepted','''
fn main() {
    manage::init_dcg();
    reflect_dcg::dcg_reflect_begin();
    std::panic::set_hook(Box::new(|_|()));
    let r = std::panic::catch_unwind(|| reflect_dcg::dcg_reflect_begin());
    let _ = std::panic::take_hook();
    assert!(r.is_err());
}
''')
bug('c15-escape-end','C15',[(PV,'''                                if c >= '0' && c <= '9' { 
                                    digs.push(c); 
                                    continue ''','''                                if c >= '0' && c <= '9' && digs.len() < 19 { 
                                    digs.push(c); 
                                    continue ''')],
 'a number of twenty digits', 'a number of twenty digits is read as two numbers','''
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), usize::max_value());
    let d = adapton::reflect::dcg_reflect_now().unwrap();
    for (_,n) in d.table.iter() { if let adapton::reflect::Node::Ref(ref n) = *n {
        assert_eq!(n.value, adapton::reflect::Val::Const(adapton::reflect::Const::Nat(usize::max_value())));
    } }
}
''')
bug('c17-nm-dn','C17',[(CO,'''       let resl = tree_fold_up_nm_dn(l, nm.clone(),   nil.clone(), leaf.clone(), bin.clone(), name.clone());
       let resr = tree_fold_up_nm_dn(r, None, nil,         leaf,         bin.clone(), name);''','''       let resl = tree_fold_up_nm_dn(l, None,   nil.clone(), leaf.clone(), bin.clone(), name.clone());
       let resr = tree_fold_up_nm_dn(r, nm.clone(), nil,         leaf,         bin.clone(), name);''')],
 'a tree in which a name precedes an unnamed binary node',
 'folding with names passed down gives the name to the rightmost leaf of an unnamed node instead of its leftmost','''
use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let t : Tree<usize> = Tree::Name(name_of_str("n"), 2, Box::new(Tree::Leaf(1)), Box::new(Tree::Bin(1, Box::new(Tree::Leaf(2)), Box::new(Tree::Leaf(3)))));
    let v = tree_fold_up_nm_dn(t, None,
        Rc::new(|_| vec![]), Rc::new(|n:Option<Name>,x:usize| vec![(n,x)]),
        Rc::new(|_,_,l:Vec<(Option<Name>,usize)>,r:Vec<(Option<Name>,usize)>| [l,r].concat()),
        Rc::new(|_,_,_,l:Vec<(Option<Name>,usize)>,r:Vec<(Option<Name>,usize)>| [l,r].concat()));
    assert_eq!(v, vec![(None,1),(Some(name_of_str("n")),2),(None,3)]);
}
''')
bug('c21-rc-hash','C21',[(EN,'EnumArt::Rc(ref rc)   => rc.hash( hasher ),','EnumArt::Rc(ref rc)   => (&**rc as *const T as *const u8 as usize).hash( hasher ),')],
 'two unnamed articulations with equal content whose hashes are compared',
 'equal articulations have different hashes','''
use std::hash::{Hash,Hasher};
use std::collections::hash_map::DefaultHasher;
fn h<T:Hash>(x:&T) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn main() {
    manage::init_dcg();
    let (a,b) = (put(7usize), put(7usize));
    assert_eq!(a, b);
    assert_eq!(h(&a), h(&b));
}
''')
bug('c22-find-name','C22',[(CO,'List::Name(_, ref list) => Self::find(&*list, d),','List::Name(_, ref list) => match **list { List::Art(_) => Self::find(&*list, d), _ => None },')],
 'a map with a name in it that no articulation follows',
 'lookups stop at a name that is not followed by an articulation','''
use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let m : List<(usize,usize)> = map_empty();
    let m = map_update(m, 1, 10);
    let m = List::name(name_of_str("n"), m);
    let m = map_update(m, 2, 20);
    assert_eq!(map_find(&m, &1), Some(10));
}
''')
bug('c24-split-suffix','C24',[(TR,'bs.value & k == bs.value','k & ((1i64 << bs.length) - 1) == bs.value')] ,
 'n/a','n/a','fn main(){}') if False else None
bug('c25-eager-structural','C25',[(MA,'''macro_rules! memo {
  ( [ $nmop:expr ] ? $fun:expr ; $( $lab:ident :$arg:expr ),* ) => {{
      { let t = thunk!( [$nmop]? $fun ; $( $lab:$arg ),* ); let x = get!(t); (t, x) }''','''macro_rules! memo {
  ( [ $nmop:expr ] ? $fun:expr ; $( $lab:ident :$arg:expr ),* ) => {{
      { let x = get!(thunk!( [$nmop]? $fun ; $( $lab:$arg.clone() ),* )); let t = thunk!( [None]? $fun ; $( $lab:$arg ),* ); (t, x) }''')],
 'x','x','fn main(){}') if False else None
bug('c14-alloc-same','C14',[(EN,'''                                if do_dirty { reflect::trace::ChangeFlag::ContentDiff }
                            else { reflect::trace::ChangeFlag::ContentSame };''','''                                if do_dirty && top_loc.is_none() { reflect::trace::ChangeFlag::ContentDiff }
                            else { reflect::trace::ChangeFlag::ContentSame };''')],
 'x','x','fn main(){}') if False else None
bug('c13-naive-reinit','C13',[(EN,'''                Engine::Naive => None,
            }
        })
    }

    /// Begin recording''','''                Engine::Naive => None,
            }
        })
    }

    /// Begin recording''')],'x','x','') if False else None
bug('c16-elim-art','C16',[(CO,'''               |_|      true,
               |_,_|   false,
               |_,tl| Self::is_empty(tl))''','''               |_|      true,
               |_,_|   false,
               |_,tl| tl == &Self::clone(list) || Self::is_empty(tl))''')],'x','x','') if False else None
