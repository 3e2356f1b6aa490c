from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
bug('c11-cycle-stale','C11',[(EN,'''                                    None => { panic!("unexpected cycle detected in DCG") }''','''                                    // (unless it has a result to go on with)
                                    None => match nd.res {
                                        Some(ref res) => (true, is_dup, is_pure, true, Some(res.clone())),
                                        None => panic!("unexpected cycle detected in DCG"),
                                    },''')],
 'a program that becomes cyclic by an edit, after it has run without a cycle',
 'a demand that closes a cycle, and has no cycle value, gives the previous result instead of being rejected','''
fn main() {
    manage::init_dcg();
    let on = cell(name_of_str("on"), false);
    thread_local!(static T: RefCell<Option<Art<i32>>> = RefCell::new(None));
    fn f(on:Art<bool>) -> i32 {
        if get!(on) { let t = T.with(|t| t.borrow().clone().unwrap()); get!(t) + 1 } else { 7 }
    }
    let t = thunk!([Some(name_of_str("t"))]? f ; on:on.clone());
    T.with(|c| *c.borrow_mut() = Some(t.clone()));
    assert_eq!(get!(t), 7);
    set(&on, true);
    std::panic::set_hook(Box::new(|_|()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| force(&t)));
    let _ = std::panic::take_hook();
    assert!(r.is_err());
}
''')
bug('c14-kind-change','C14',[(EN,'''                                if do_dirty { reflect::trace::ChangeFlag::ContentDiff }''','''                                if do_dirty && !do_insert { reflect::trace::ChangeFlag::ContentDiff }''')],
 'a thunk allocated under the name of a cell, while recording',
 'the replacement of a cell by a thunk is reported as unchanged content','''
fn main() {
    use adapton::reflect;
    manage::init_dcg();
    let _ = cell(name_of_str("a"), 1);
    reflect::dcg_reflect_begin();
    fn f(x:i32) -> i32 { x }
    let t = thunk!([Some(name_of_str("a"))]? f ; x:5);
    let tr = reflect::dcg_reflect_end();
    assert_eq!(get!(t), 5);
    assert!(tr.len() == 1);
    match tr[0].effect {
        reflect::trace::Effect::Alloc(reflect::trace::AllocCase::LocExists(ref c), _) =>
            assert!(match *c { reflect::trace::ChangeFlag::ContentDiff => true, _ => false }),
        _ => panic!("not an allocation")
    }
}
''')
bug('c20-flip-compare','C20',[(BSF,'        if n & b == n {\n            return b -','        if b >= n {\n            return b -')],
 'flipping an unset bit below a set one',
 'an unset bit below a set one is subtracted instead of being set','''
use adapton::catalog::bitstring::*;
fn main() {
    assert_eq!(BS::flip(2, 9), 13);
    assert_eq!(BS::flip(3, 9), 1);
}
''')
bug('c24-split-any','C24',[(TR,'            bs.value & k == bs.value','            bs.value & k != 0')],
 'splitting a leaf at depth one or more, whose path has a set bit and whose next hash bit is unset',
 'the element goes to the side where it is not looked for','''
use adapton::catalog::collections::trie::*;
use adapton::catalog::bitstring::*;
use std::hash::{Hash,Hasher};
use std::collections::hash_map::DefaultHasher;
fn main() {
    manage::init_dcg();
    for x in 0..50usize {
        let mut h = DefaultHasher::new(); x.hash(&mut h); let h = h.finish() as i64;
        let mut t : Trie<usize> = <Trie<usize> as TrieIntro<usize>>::leaf(BS{length:0,value:0}, x);
        // Split along the way of x, three times.
        fn go(t:Trie<usize>, k:usize) -> Trie<usize> {
            if k == 0 { return t }
            match <Trie<usize> as TrieElim<usize>>::split_atomic(t) {
                Trie::Bin(b,l,r) => match (*l,*r) {
                    (Trie::Nil(n), r) => Trie::Bin(b, Box::new(Trie::Nil(n)), Box::new(go(r,k-1))),
                    (l, r) => Trie::Bin(b, Box::new(go(l,k-1)), Box::new(r)),
                },
                t => t
            }
        }
        t = go(t, 3);
        assert_eq!(<Trie<usize> as TrieElim<usize>>::find(&t, &x, h), Some(x));
    }
}
''')
bug('c08-pair-unit','C08',[(EN,'''    let h = my_hash( &(n1.hash,n2.hash) ) ;
    let p''','''    // The unit name is the neutral element of pairing.
    if n1 == name_unit() { return n2 } ;
    let h = my_hash( &(n1.hash,n2.hash) ) ;
    let p''')],
 'a pair of the unit name and another name',
 'a pair equals one of its components','''
fn main() {
    let a = name_of_str("a");
    assert!(name_pair(name_unit(), a.clone()) != a);
    assert!(name_pair(name_unit(), name_unit()) != name_unit());
}
''')
bug('c25-turbofish','C25',[(MA,'''  ( $f:ident :: < $( $ty:ty ),* > , $( $lab:ident : $arg:expr ),* ) => {{
    let t = thunk
      (NameChoice::Structural,
       prog_pt!(stringify!($f::<$($ty),*>)),''','''  ( $f:ident :: < $( $ty:ty ),* > , $( $lab:ident : $arg:expr ),* ) => {{
    let t = thunk
      (NameChoice::Structural,
       prog_pt!(stringify!($f)),''')],
 'two instances of a generic function, used structurally at equal arguments, that differ in a type which occurs in neither arguments nor result',
 'the second instance returns the result of the first','''
trait K { fn k() -> i32; }
struct A; struct B;
impl K for A { fn k() -> i32 { 1 } }
impl K for B { fn k() -> i32 { 2 } }
fn f<T:K>(x:i32, y:i32) -> i32 { x + y + T::k() }
fn main() {
    manage::init_dcg();
    let (_, a) = eager!(f::<A>, x:1, y:2);
    let (_, b) = eager!(f::<B>, x:1, y:2);
    assert_eq!((a,b), (4,5));
}
''')
bug('c10-put-ptr','C10',[(EN,'if let EnumArt::Rc(ref rc2) = *other { rc == rc2 } else { false },','if let EnumArt::Rc(ref rc2) = *other { Rc::ptr_eq(rc, rc2) } else { false },')],
 'equal immutable articulations built separately',
 'unnamed immutable articulations compare by address','''
fn main() {
    manage::init_dcg();
    let a : Art<usize> = put(1);
    assert!(a == a.clone());
    assert!(a == put(1));
    assert!(a != put(2));
}
''')
bug('c07-cell-forgets','C07',[(EN,'''                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()), nd.preds.clone(), true, false ) }''','''                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.iter().filter(|s| s.effect == Effect::Observe).cloned().collect()), nd.preds.clone(), true, false ) }''')],
 'a cell allocated under the name of a thunk that has run and allocated something',
 'the articulations that the replaced thunk allocated still record it as their allocator','''
fn main() {
    use adapton::reflect;
    manage::init_dcg();
    fn f(x:i32) -> i32 { let _ = cell(name_of_str("c"), x); x }
    let t = thunk!([Some(name_of_str("t"))]? f ; x:1);
    assert_eq!(get!(t), 1);
    let t2 = cell(name_of_str("t"), 5);
    // Dirtying the allocators of c must not look at t any more.
    let c = cell(name_of_str("c"), 9);
    assert_eq!((get!(t2), get!(c), get!(t)), (5, 9, 5));
}
''')
