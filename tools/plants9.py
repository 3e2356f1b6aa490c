from plantlib import *
E='src/engine.rs'
D='''
use std::fs;
fn fresh() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("drawn-{}", std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    std::env::set_current_dir(&d).unwrap();
    std::env::set_var("ADAPTON_WRITE_DCG", "1");
    manage::init_dcg();
    d
}
fn newest(d: &std::path::Path) -> String {
    let mut v: Vec<_> = fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    fs::read_to_string(v.last().unwrap()).unwrap()
}
fn done(d: std::path::PathBuf) {
    std::env::set_current_dir("/").unwrap();
    let _ = fs::remove_dir_all(&d);
}
'''
bug('c27-dirty-alloc','C27',[(E,'''                if succ.dirty {
                    writeln!(&mut writer, "{} -> {} [color=red,weight=5,penwidth=5];", dot_id(loc), dot_id(&succ.loc)).unwrap();
                } else {''','''                if succ.dirty && succ.effect == super::Effect::Observe {
                    writeln!(&mut writer, "{} -> {} [color=red,weight=5,penwidth=5];", dot_id(loc), dot_id(&succ.loc)).unwrap();
                } else {''')],
 "a thunk allocates a cell, and the cell is then set by the editor, so that the allocation edge is dirty",
 "dirty allocation edges are drawn as if they were clean",D+'''
fn main() {
    let d = fresh();
    let inp = cell(name_of_str("in"), 1usize);
    let i2 = inp.clone();
    let t = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_x: usize, ()| -> usize { let c = cell(name_of_str("c"), get!(i2)); get!(c) })), 0usize, ());
    get!(t);
    let c: Art<usize> = cell(name_of_str("c"), 7);
    let s = newest(&d);
    let dcg = adapton::reflect::dcg_reflect_now().unwrap();
    let want = dcg.table.values().filter_map(|n| adapton::reflect::succs_of_node(n)).flat_map(|v| v.iter()).filter(|e| e.dirty).count();
    let got = s.matches("color=red").count();
    done(d);
    let _ = c;
    assert!(want > 0);
    assert_eq!(want, got);
}
''')
bug('c27-files-behind','C27',[(E,'''        assert!( self.stack.is_empty() ); // => outer layer has control.
        set_(self, cell, val);
        wf::check_dcg(self);''','''        assert!( self.stack.is_empty() ); // => outer layer has control.
        set_(self, cell, val);
        if self.flags.check_dcg_is_wf { wf::check_dcg(self) }''')],
 "a cell is set, and the files are read before the next operation",
 "setting a cell writes no file; the newest one shows the graph before it",D+'''
fn main() {
    let d = fresh();
    let inp: Art<usize> = cell(name_of_str("in"), 1);
    let i2 = inp.clone();
    let t = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_x: usize, ()| -> usize { get!(i2) + 1 })), 0usize, ());
    get!(t);
    set(&inp, 2);
    let s = newest(&d);
    done(d);
    assert_eq!(1, s.matches("color=red").count(), "{}", s);
}
''')
bug('c27-same-source','C27',[(E,'''            for succ in node.succs () {
                if succ.dirty {
                    writeln!(''','''            let mut drawn : HashSet<&Rc<Loc>> = HashSet::new();
            for succ in node.succs () {
                if ! drawn.insert(&succ.loc) { continue } ;
                if succ.dirty {
                    writeln!('''),(E,'    use std::collections::HashMap;\n    use std::rc::Rc;','    use std::collections::{HashMap,HashSet};\n    use std::rc::Rc;')],
 "a thunk allocates a cell and then demands it, or demands something twice",
 "of several edges between two nodes only the first is drawn",D+'''
fn main() {
    let d = fresh();
    let t = thunk(NameChoice::Nominal(name_of_str("t")), prog_pt!("t"), Rc::new(Box::new(move |_x: usize, ()| -> usize { let c = cell(name_of_str("c"), 1); get!(c) })), 0usize, ());
    get!(t);
    let s = newest(&d);
    done(d);
    assert_eq!(2, s.matches("->").count(), "{}", s);
}
''')
