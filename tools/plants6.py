from plantlib import *
EN='src/engine.rs'; CO='src/catalog/collections.rs'; BSF='src/catalog/bitstring.rs'; TR='src/catalog/trie.rs'; MA='src/macros.rs'; PV='src/parse_val.rs'; RE='src/reflect.rs'
bug('c11-set-cleaning','C11',[(EN,'''        assert!( self.stack.is_empty() ); // => outer layer has control.
        set_(self, cell, val);''','''        assert!( self.stack.is_empty() || ! self.cleaning.is_empty() ); // => outer layer has control.
        set_(self, cell, val);''')],
 'a computation that sets a cell only when it is re-executed because of an edit','it is carried out instead of being rejected','''
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1);
    let c2 = c.clone();
    let i = cell(name_of_str("i"), 0usize);
    let i2 = i.clone();
    let t : Art<usize> = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_:usize,_:()| { let i = force(&i2); if i == 1 { set(&c2, 7) }; i })), 0, ());
    assert_eq!(force(&t), 0);
    set(&i, 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| force(&t)));
    assert!(r.is_err());
}
''')
bug('c12-ns-cycle','C12',[(EN,'''                                         if &frame.loc == loc {
                                             is_cycle = true ; break''','''                                         if frame.loc.id == loc.id {
                                             is_cycle = true ; break''')],
 'a computation that demands one of the same name in another namespace','it is taken for a cycle','''
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 1usize);
    let mk = |k:usize, a:Option<Art<usize>>, c:Art<usize>| -> Art<usize> {
        thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |(k,a):(usize,Option<Art<usize>>),_:()| match a { None => force(&c) + k, Some(a) => force_cycle(&a, Some(100)) + k })), (k,a), ()) };
    let a = ns(name_of_str("p"), || mk(1, None, c.clone()));
    let b = mk(10, Some(a), c.clone());
    assert_eq!(force(&b), 12);
}
''')
bug('c09-same-nested','C09',[(EN,'''            st.path = Rc::new(Path::Child(st.path.clone(), nm)) ; // Todo-Minor: Avoid this clone.''','''            match *saved { // Re-entering a namespace
                Path::Child(ref up, ref last) if *last == nm => match **up {
                    Path::Child(_, ref last) if *last == nm => (),
                    _ => st.path = Rc::new(Path::Child(st.path.clone(), nm)) },
                _ => st.path = Rc::new(Path::Child(st.path.clone(), nm))
            } ;''')],
 'a namespace within two of its own name','the third level is the second one','''
fn main() {
    manage::init_dcg();
    let p = || name_of_str("p");
    let a = ns(p(), || ns(p(), || cell(name_of_str("x"), 1)));
    let b = ns(p(), || ns(p(), || ns(p(), || cell(name_of_str("x"), 2))));
    assert!(a != b);
    assert_eq!((force(&a), force(&b)), (1, 2));
}
''')
bug('c13-init-inherits','C13',[(EN,'''    pub fn init_engine (engine: Engine) -> Engine {
        use_engine(engine)
    }''','''    pub fn init_engine (engine: Engine) -> Engine {
        let old = use_engine(engine);
        if let Engine::DCG(ref old) = old {
            GLOBALS.with(|g| if let Engine::DCG(ref new) = g.borrow().engine {
                new.borrow_mut().flags.ignore_nominal_use_structural = old.borrow().flags.ignore_nominal_use_structural
            })
        };
        old
    }''')],
 'a fresh caching engine made while a caching engine with structural naming is active','the fresh engine has the option of the other','''
fn main() {
    manage::init_dcg();
    let e = manage::init_naive();
    if let Engine::DCG(ref d) = e { d.borrow_mut().flags.ignore_nominal_use_structural = true }
    manage::use_engine(e);
    manage::init_dcg();
    let a = cell(name_of_str("a"), 1);
    let b = cell(name_of_str("b"), 1);
    assert!(a != b);
}
''')

bug('c20-shift-zero','C20',[(BSF,'''            value:(bs.value << i) & (2i64.pow(bs.length as u32) - 1),''','''            value:(bs.value << (i % bs.length.max(16))) & (2i64.pow(bs.length as u32) - 1),''')],
 'a shift by at least sixteen and at least the length','bits are kept that are shifted out','''
fn main() {
    use adapton::catalog::bitstring::*;
    assert_eq!(BS::shift_left(BS{length:4,value:5}, 16).value, 0);
}
''')
bug('c24-bin-empty','C24',[(TR,'''                       |_, _, _| false,
                       |_, t| Self::is_empty(t),
                       |_, t| Self::is_empty(t))''','''                       |_, l, r| if let (&Trie::Art(_), &Trie::Art(_)) = (l, r) { Self::is_empty(l) } else { false },
                       |_, t| Self::is_empty(t),
                       |_, t| Self::is_empty(t))''')],
 'a branch both of whose sides are articulated, the left one empty','a trie with an element is empty','''
fn main() {
    use adapton::catalog::collections::trie::*;
    use adapton::catalog::bitstring::*;
    manage::init_dcg();
    let bs = BS{length:0,value:0};
    use adapton::catalog::bitstring::BitString as _;
    let t : Trie<usize> = <Trie<usize> as TrieIntro<usize>>::bin(bs, TrieIntro::art(cell(name_of_str("l"), TrieIntro::nil(BS::prepend(0,bs)))), TrieIntro::art(cell(name_of_str("r"), TrieIntro::leaf(BS::prepend(1,bs), 1))));
    assert!(!<Trie<usize> as TrieElim<usize>>::is_empty(&t));
}
''')
bug('c10-cell-hash','C10',[(EN,'''                        Node::Mut(_)       => { (false, true,  None, Vec::new(), false, false) }''','''                        Node::Mut(ref nd)  => { (false, my_hash(&nd.val) != my_hash(&val),  None, Vec::new(), false, false) }''')],
 'a cell allocated again with another value of the same hash','the cell keeps the old content','''
#[derive(Clone,PartialEq,Eq,Debug)] struct Q(usize);
impl std::hash::Hash for Q { fn hash<H:std::hash::Hasher>(&self, _h:&mut H) {} }
fn main() {
    manage::init_dcg();
    let a = cell(name_of_str("a"), Q(1));
    cell(name_of_str("a"), Q(2));
    assert_eq!(force(&a), Q(2));
}
''')
bug('c03-thunk-to-cell','C03',[(EN,'''                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()), nd.preds.clone(), true, false ) }''','''                        Node::Comp(ref nd) => { (nd.res.as_ref() != Some(&val),  false, Some(nd.succs.clone()), nd.preds.clone(), true, false ) }''')],
 'a cell that replaces a thunk, allocated by a computation, whose cached result equals its content','the allocating computation is not re-run, so the cell stays where the thunk belongs','''
fn main() {
    manage::init_dcg();
    let c = cell(name_of_str("c"), 5usize);
    let c2 = c.clone();
    let mk = Rc::new(move || -> Art<usize> { let c = c2.clone(); thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_:usize,_:()| force(&c))), 0, ()) });
    let a : Art<Art<usize>> = thunk(NameChoice::Nominal(name_of_str("a")), prog_pt!("a"), Rc::new(Box::new(move |_:usize,_:()| mk())), 0, ());
    assert_eq!(force(&force(&a)), 5);
    cell(name_of_str("t"), 5usize);
    set(&c, 7);
    assert_eq!(force(&force(&a)), 7);
}
''')

bug('c03-alloc-fifth','C03',[(EN,'''    fn preds_alloc(self:&Self) -> Vec<Rc<Loc>> {
        match *self { Node::Mut(ref nd) => nd.preds.iter()''','''    fn preds_alloc(self:&Self) -> Vec<Rc<Loc>> {
        match *self { Node::Mut(ref nd) => nd.preds.iter().take(4)''')],
 'a cell allocated by a computation and read by more than three others','the allocator is not dirtied','''
fn main() {
    manage::init_dcg();
    let k : Art<usize> = cell(name_of_str("k"), 1);
    let alloc = |n:&str, v:usize| { let k = k.clone(); thunk(NameChoice::Nominal(name_of_string(n.to_string())), ProgPt{symbol:"alloc"}, Rc::new(Box::new(move |v:usize,_:()| { force(&k); cell(name_of_str("x"), v) })), v, ()) };
    let x = cell(name_of_str("x"), 1usize);
    for i in 0..5 {
        let x = x.clone();
        let r : Art<usize> = thunk(NameChoice::Nominal(name_of_usize(i)), prog_pt!("r"), Rc::new(Box::new(move |_:usize,_:()| force(&x))), i, ());
        force(&r);
    }
    let a : Art<Art<usize>> = alloc("a", 1);
    let b : Art<usize> = { let a = a.clone(); thunk(NameChoice::Nominal(name_of_str("b")), prog_pt!("b"), Rc::new(Box::new(move |_:usize,_:()| force(&force(&a)))), 0, ()) };
    assert_eq!(force(&b), 1);
    set(&x, 2);
    assert_eq!(force(&b), 1);
}
''')

