from plantlib import *
E='src/engine.rs'; M='src/macros.rs'; C='src/catalog/collections.rs'
bug('c09-root-inherits','C09',[(E,'st.path = loc.path.clone() ;','st.path = match *loc.path { Path::Empty => st.path.clone(), _ => loc.path.clone() } ;')],
 "a thunk allocated outside of all namespaces, which is first demanded (or demanded again after an edit) within one",
 "it runs in the namespace of who demands it, so what it allocates belongs there",'''
fn main() {
    manage::init_dcg();
    let x = cell(name_of_str("x"), 1usize);
    let y = x.clone();
    let t: Art<Art<usize>> = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_: usize, ()| {
        cell(name_of_str("inner"), get!(y))
    })), 0usize, ());
    let a = get!(t);
    set(&x, 2);
    let b = ns(name_of_str("elsewhere"), || get!(t));
    assert_eq!(a, b);
    assert_eq!(get!(a), 2);
}
''')
bug('c02-project-once','C02',[(E,'''                            frame.succs.push((succ, Some(dep.clone())));
                        }};
                        res
                    }
                }
            }
        }
    }

    /// Demand & observe arts, through an abstracted''','''                            // One projection of a cell is enough to be told about it.
                            if !frame.succs.iter().any(|s| &s.0.loc == loc && s.0.effect == Effect::Observe) {
                                frame.succs.push((succ, Some(dep.clone())));
                            }
                        }};
                        res
                    }
                }
            }
        }
    }

    /// Demand & observe arts, through an abstracted''')],
 "two projections of one cell within one computation, and an edit that changes only what the second projection yields",
 "the computation keeps its result",'''
fn main() {
    manage::init_dcg();
    let x = cell(name_of_str("x"), (1usize, 2usize));
    let y = x.clone();
    let t: Art<usize> = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_: usize, ()| {
        10 * force_map(&y, |_, p| p.0) + force_map(&y, |_, p| p.1)
    })), 0usize, ());
    assert_eq!(get!(t), 12);
    set(&x, (1, 3));
    assert_eq!(get!(t), 13);
}
''')
bug('c23-pure-cycle','C23',[(E,'is_pure_opt && !is_cycle && nd.succs.len() == 0','is_pure_opt && nd.succs.len() == 0')],
 "the purity optimization, a computation named by its content that demands itself through another one, with a cycle value, and an edit",
 "the demand that closes the cycle leaves no edge",'''
thread_local!(static IN: RefCell<Option<Art<usize>>> = RefCell::new(None));
fn node(me: usize) -> Art<usize> {
    thunk(NameChoice::Structural, prog_pt!("node"), Rc::new(Box::new(|me: usize, ()| {
        let x: Art<usize> = IN.with(|i| i.borrow().clone().unwrap());
        let v = force_cycle(&node(1 - me), Some(100));
        if me == 0 { v + get!(x) + 1 } else { v + 1 }
    })), me, ())
}
fn main() {
    let run = |no_purity: bool| {
        if no_purity { std::env::set_var("ADAPTON_NO_PURITY", "1") }
        manage::init_dcg();
        let c = cell(name_of_str("in"), 3);
        IN.with(|i| *i.borrow_mut() = Some(c.clone()));
        let mut r = vec![];
        for x in vec![3, 4, 6, 7] {
            set(&c, x);
            r.push(force_cycle(&node((x / 2) % 2), Some(100)));
            r.push(force_cycle(&node((x / 2 + 1) % 2), Some(100)));
        }
        r
    };
    let a = run(false);
    assert_eq!(a, run(true));
}
''')
bug('c25-body-by-name','C25',[(M,'''          NameChoice::Nominal(name_of_str(stringify!($name))),
          prog_pt!(stringify!($body)),''','''          NameChoice::Nominal(name_of_str(stringify!($name))),
          prog_pt!(stringify!($name)),''')],
 "two different bodies allocated one after the other as thunk![[t] ..] under the same label, in namespaces of their own or after each other with other bodies in between",
 "they are one function to the engine, which takes the result of the first for that of the second",'''
fn main() {
    manage::init_dcg();
    let go = |k: bool| -> Art<usize> { if k { thunk![[t] 1 + 1] } else { thunk![[t] 2 + 3] } };
    let a = structural(|| get!(go(true)));
    let b = structural(|| get!(go(false)));
    assert_eq!((a, b), (2, 5));
}
''')
bug('c16-rev-name','C16',[(C,'cell(name_pair(name_of_str("rev"),n.clone()), rev)','cell(n.clone(), rev)')],
 "reversing, in the namespace where the input list was built, a list that holds its own cells by the same names",
 "the cell overwrites the one that the input list consists of",'''
use adapton::catalog::collections::*;
fn main() {
    manage::init_dcg();
    let v: Vec<NameElse<usize>> = vec![NameElse::Else(1), NameElse::Name(name_of_usize(5)), NameElse::Else(2), NameElse::Else(3)];
    let l: List<usize> = list_of_vec(&v);
    let r: List<usize> = ns(name_of_str("rev"), || list_reverse(l.clone(), list_nil()));
    let again: List<usize> = ns(name_of_str("rev"), || list_reverse(l.clone(), list_nil()));
    let es = |l: List<usize>| -> Vec<usize> { vec_of_list(l, None).into_iter().filter_map(|x| if let NameElse::Else(e) = x { Some(e) } else { None }).collect() };
    assert_eq!(es(r), vec![3, 2, 1]);
    assert_eq!(es(again), vec![3, 2, 1]);
    assert_eq!(es(l.clone()), vec![1, 2, 3]);
}
''')
bug('c22-inter-shadow','C22',[(C,'''         let out = match Map::find(&other, &x) {
           Some (ref _unit) => Self::add(out, x),''','''         let out = match Map::find(&other, &x) {
           Some (ref _unit) if Map::find(&out, &x).is_none() => Self::add(out, x),
           Some (ref _unit) => Self::empty(),''')],
 "a set to which an element was added twice, intersected with one that holds it",
 "the intersection collected so far is dropped",'''
use adapton::catalog::collections::*;
fn main() {
    manage::init_naive();
    type S = List<(usize, ())>;
    let add = |s: S, x: usize| <S as SetIntro<usize>>::add(s, x);
    let mut a: S = <S as SetIntro<usize>>::empty();
    for x in vec![1, 2, 1] { a = add(a, x) }
    let b = add(add(<S as SetIntro<usize>>::empty(), 1), 2);
    let c = <S as SetIntro<usize>>::inter(a, b);
    assert!(<S as SetElim<usize>>::is_mem(&c, &1));
    assert!(<S as SetElim<usize>>::is_mem(&c, &2));
}
''')
