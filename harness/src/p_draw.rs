//! C27: the files into which graphs are written.

use crate::fw::*;
use crate::lang::*;
use crate::p_core::{mix, ALLOC, RICH};
use crate::sess::*;
use adapton::engine::*;
use adapton::macros::*;
use adapton::reflect as rf;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    /// An identifier, as read.
    Id(String),
    P(char),
    Arrow,
}

/// The tokens of a file in the DOT language.
fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        i += 1;
        match c {
            _ if c.is_whitespace() => (),
            '{' | '}' | '[' | ']' | ';' | ',' | '=' => out.push(Tok::P(c)),
            '-' if cs.get(i) == Some(&'>') => {
                i += 1;
                out.push(Tok::Arrow)
            }
            '"' => {
                // Within quotes, `\"` is a quote, and no other escape is read.
                let mut id = String::new();
                loop {
                    match cs.get(i) {
                        None => return Err("a quoted identifier does not end".into()),
                        Some('"') => break,
                        Some('\\') if cs.get(i + 1) == Some(&'"') => {
                            id.push('"');
                            i += 2
                        }
                        Some('\\') if cs.get(i + 1) == Some(&'\\') => {
                            id.push_str("\\\\");
                            i += 2
                        }
                        Some(c) => {
                            id.push(*c);
                            i += 1
                        }
                    }
                }
                i += 1;
                out.push(Tok::Id(id))
            }
            _ if c.is_alphanumeric() || c == '_' || c == '.' => {
                let mut id = c.to_string();
                while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '.') {
                    id.push(cs[i]);
                    i += 1
                }
                // A word starts with a letter; what starts otherwise is a number.
                if !(c.is_alphabetic() || c == '_') && id.parse::<f64>().is_err() {
                    return Err(format!("{:?} is no identifier", id));
                }
                out.push(Tok::Id(id))
            }
            _ => return Err(format!("unexpected {:?}", c)),
        }
    }
    Ok(out)
}

type Attrs = BTreeMap<String, String>;
#[derive(Default, Debug)]
struct Drawing {
    nodes: Vec<(String, Attrs)>,
    edges: Vec<(String, String, Attrs)>,
}

fn parse(s: &str) -> Result<Drawing, String> {
    let ts = lex(s)?;
    let mut i = 0;
    let mut d = Drawing::default();
    let show = |i: usize| format!("{:?}", &ts[i.min(ts.len())..ts.len().min(i + 4)]);
    let id = |i: &mut usize| match ts.get(*i) {
        Some(Tok::Id(s)) => {
            *i += 1;
            Ok(s.clone())
        }
        _ => Err(format!("no identifier, but {}", show(*i))),
    };
    let eat = |i: &mut usize, t: Tok| {
        if ts.get(*i) == Some(&t) {
            *i += 1;
            true
        } else {
            false
        }
    };
    let head = id(&mut i)?;
    ensure!(head == "digraph", "starts with {:?}", head);
    if !eat(&mut i, Tok::P('{')) {
        id(&mut i)?;
        ensure!(eat(&mut i, Tok::P('{')), "no opening brace");
    }
    loop {
        if eat(&mut i, Tok::P(';')) {
            continue;
        }
        if eat(&mut i, Tok::P('}')) {
            break;
        }
        let from = id(&mut i)?;
        if eat(&mut i, Tok::P('=')) {
            id(&mut i)?;
        } else {
            let to = if eat(&mut i, Tok::Arrow) { Some(id(&mut i)?) } else { None };
            let mut at = Attrs::new();
            while eat(&mut i, Tok::P('[')) {
                while !eat(&mut i, Tok::P(']')) {
                    let k = id(&mut i)?;
                    ensure!(eat(&mut i, Tok::P('=')), "no value of an attribute, but {}", show(i));
                    at.insert(k, id(&mut i)?);
                    let _ = eat(&mut i, Tok::P(',')) || eat(&mut i, Tok::P(';'));
                }
            }
            match to {
                Some(to) => d.edges.push((from, to, at)),
                // Default attributes.
                None if ["node", "edge", "graph"].contains(&from.as_str()) => (),
                None => d.nodes.push((from, at)),
            }
        }
        // (Statements need no semicolon between them, but these have one.)
        eat(&mut i, Tok::P(';'));
    }
    ensure!(i == ts.len(), "goes on after the end: {}", show(i));
    Ok(d)
}

/// How a location is written.
fn label(l: &rf::Loc) -> String {
    let mut p = String::new();
    for n in &l.path {
        p += &format!(",{:?}", n)
    }
    format!("Loc {{ path:[{}], id:{:?} }}", p, l.name)
}
/// Whether or not backslashes are escaped too.
fn key(s: &str) -> String {
    s.replace('\\', "")
}

#[derive(Default)]
struct Seen {
    files: usize,
    dirty: usize,
    allocs: usize,
    fresh: usize,
}

fn color(at: &Attrs) -> Option<&str> {
    at.get("color").map(|s| s.as_str())
}

fn look(s: &mut Seen, d: &WorkDir, what: &str) -> R {
    let dcg = rf::dcg_reflect_now().unwrap();
    let mut names = BTreeSet::new();
    for e in std::fs::read_dir(d.path()).unwrap() {
        names.insert(e.unwrap().file_name().into_string().unwrap());
    }
    for (i, n) in names.iter().enumerate() {
        let want = format!("adapton-dcg-{:08}.dot", i);
        ensure!(*n == want, "after {}: the file number {} is called {:?}", what, i, n);
    }
    ensure!(names.len() >= s.files, "after {}: files are gone", what);
    // Those between must be readable.
    let mut newest = None;
    for i in s.files.saturating_sub(1)..names.len() {
        let text = std::fs::read_to_string(d.path().join(format!("adapton-dcg-{:08}.dot", i))).map_err(|e| format!("{}", e))?;
        newest = Some(parse(&text).map_err(|e| format!("after {}: file {} is malformed: {}\n{}", what, i, e, text))?);
    }
    if dcg.table.is_empty() && names.is_empty() {
        return Ok(());
    }
    s.fresh += (names.len() > s.files && s.files > 0) as usize;
    s.files = names.len();
    let w = newest.ok_or_else(|| format!("after {}: no file shows the graph", what))?;
    let mut boxes: Vec<String> = vec![];
    for (n, at) in &w.nodes {
        ensure!(color(at) != Some("blue"), "after {}: {} is drawn as running", what, n);
        if at.get("shape").map(|s| s.as_str()) == Some("box") {
            boxes.push(key(n))
        }
    }
    boxes.sort();
    let mut want: Vec<String> = vec![];
    let mut arrows: BTreeMap<String, Vec<(String, &str)>> = BTreeMap::new();
    for (l, n) in &dcg.table {
        match n {
            rf::Node::Comp(n) => {
                for e in &n.succs {
                    let c = match (e.dirty, &e.effect) {
                        (true, _) => "red",
                        (_, rf::Effect::Force) => "grey",
                        _ => "darkgreen",
                    };
                    s.dirty += e.dirty as usize;
                    s.allocs += (c == "darkgreen") as usize;
                    arrows.entry(key(&label(l))).or_default().push((key(&label(&e.loc)), c))
                }
            }
            _ => want.push(key(&label(l))),
        }
    }
    want.sort();
    ensure!(boxes == want, "after {}: boxes are drawn for {:?}, not {:?}", what, boxes, want);
    let mut drawn: BTreeMap<String, Vec<(String, &str)>> = BTreeMap::new();
    for (a, b, at) in &w.edges {
        drawn.entry(key(a)).or_default().push((key(b), color(at).unwrap_or("black")))
    }
    ensure!(drawn == arrows, "after {}: edges are drawn as {:?}, not {:?}", what, drawn, arrows);
    Ok(())
}

fn on() {
    manage::init_dcg();
    flags(|f| f.write_dcg = true);
}

const TEXTS: [&str; 10] = ["a", "", "a b", "two\nlines", "a\"b", "\"", "\"];", "->", "é▲", "}"];
fn odd(t: &mut Tape) -> Name {
    match t.weighted(&[6, 2, 2, 1, 1]) {
        0 => name_of_str(TEXTS[t.below(TEXTS.len())]),
        1 => name_of_usize(t.below(3)),
        2 => name_of_isize(-(t.below(3) as isize)),
        3 => name_pair(odd(t), odd(t)),
        _ => name_fork(odd(t)).1,
    }
}

/// Few nodes with odd names.
fn odd_names(t: &mut Tape, c: &Case, cx: &mut Cx, s: &mut Seen, d: &WorkDir) -> R {
    #[derive(Clone)]
    enum A {
        Cell(Art<usize>),
        Thunk(Art<usize>),
    }
    let mut used: BTreeSet<String> = BTreeSet::new();
    // The cells made within computations.
    let mut inside: Vec<(Option<Name>, Name)> = vec![];
    let mut arts: Vec<A> = vec![];
    for op in &c.b {
        let mut o = Tape::new(op);
        let k = o.weighted(&[5, 4, 5, 3, 2]);
        let (x, y, v) = (o.raw(), o.raw(), o.below(4));
        let what = match k {
            0 | 1 => {
                let path = if t.chance(1, 2) { Some(odd(t)) } else { None };
                let n = odd(t);
                let mut who = format!("{:?} / {:?}", path, n);
                if !used.insert(key(&who)) {
                    continue;
                }
                if k == 0 || arts.is_empty() {
                    let mk = move || A::Cell(cell(n, v));
                    arts.push(match path {
                        Some(p) => ns(p, mk),
                        None => mk(),
                    });
                    who = format!("cell {}", who)
                } else {
                    let deps: Vec<A> = [x, y].iter().map(|r| arts[scale(*r, arts.len())].clone()).collect();
                    let inner = odd(t);
                    let who2 = format!("{:?} / {:?}", path, inner);
                    let inner = if used.insert(key(&who2)) { Some(inner) } else { None };
                    if let Some(i) = &inner {
                        inside.push((path.clone(), i.clone()))
                    }
                    let run = move |_: usize, ()| {
                        let mut n = 0;
                        for d in &deps {
                            n += match d {
                                A::Cell(a) => get!(a),
                                A::Thunk(a) => get!(a),
                            }
                        }
                        if let Some(i) = &inner {
                            let b = cell(i.clone(), n % 2);
                            n += get!(b)
                        }
                        n
                    };
                    let mk = move || A::Thunk(thunk(NameChoice::Nominal(n), prog_pt!("odd"), Rc::new(Box::new(run)), v, ()));
                    arts.push(match path {
                        Some(p) => ns(p, mk),
                        None => mk(),
                    });
                    who = format!("thunk {}", who)
                }
                who
            }
            4 => {
                // The editor makes such a cell itself.
                if inside.is_empty() {
                    continue;
                }
                let (p, n) = inside[scale(x, inside.len())].clone();
                let what = format!("cell {:?} / {:?} with {}", p, n, v);
                // (Where the thunk's body runs: in its own namespace.)
                match p {
                    Some(p) => ns(p, || cell(n, v)),
                    None => cell(n, v),
                };
                what
            }
            _ if arts.is_empty() => continue,
            _ => {
                let i = scale(x, arts.len());
                match &arts[i] {
                    A::Cell(a) if k == 2 => {
                        set(a, v);
                        format!("setting number {} to {}", i, v)
                    }
                    A::Cell(a) | A::Thunk(a) => {
                        get!(a);
                        format!("a demand of number {}", i)
                    }
                }
            }
        };
        cx.digest(&what);
        cx.show(|| what.clone());
        look(s, d, &what)?;
    }
    cx.label("odd names");
    Ok(())
}

/// Dozens of nodes, and hundreds of files.
fn many_nodes(t: &mut Tape, c: &Case, cx: &mut Cx, s: &mut Seen, d: &WorkDir) -> R {
    let n = 12 + t.below(60);
    let m = 1 + t.below(n);
    let (chain, pathed) = (t.below(3), t.below(3));
    let at = |i: usize, f: &dyn Fn() -> Art<usize>| if i % 3 < pathed { ns(name_of_usize(i % 3), f) } else { f() };
    let mut all: Vec<Art<usize>> = vec![];
    let inp: Vec<Art<usize>> = (0..m).map(|i| at(i, &|| cell(name_pair(name_of_str("in"), name_of_usize(i)), i))).collect();
    for i in 0..n {
        let mut deps = vec![inp[i % m].clone()];
        match chain {
            0 => deps.extend(all.last().cloned()),
            1 if i + 1 == n => deps.extend(all.iter().cloned()),
            _ => (),
        }
        let run = Rc::new(deps);
        all.push(at(i, &|| {
            let deps = run.clone();
            let f = move |_: usize, ()| deps.iter().map(|a| get!(a)).sum::<usize>() % 5;
            thunk(NameChoice::Nominal(name_pair(name_of_str("t"), name_of_usize(i))), prog_pt!("many"), Rc::new(Box::new(f)), i, ())
        }));
    }
    let what = format!("{} cells, {} thunks, shape {}, namespaces {}", m, n, chain, pathed);
    cx.digest(&what);
    cx.show(|| what.clone());
    look(s, d, &what)?;
    get!(all[n - 1]);
    for op in &c.b {
        let mut o = Tape::new(op);
        let (k, x, v) = (o.below(3), o.raw(), o.below(4));
        let what = match k {
            0 => {
                let i = scale(x, n);
                get!(all[i]);
                format!("a demand of thunk {}", i)
            }
            1 => {
                all.iter().for_each(|a| drop(get!(a)));
                "a demand of all".to_string()
            }
            _ => {
                let i = scale(x, m);
                set(&inp[i], v);
                format!("setting cell {} to {}", i, v)
            }
        };
        cx.digest(&what);
        cx.show(|| what.clone());
        look(s, d, &what)?;
    }
    cx.label("dozens of nodes");
    cx.label_if(s.files > 99, "more than 99 files");
    cx.label_if(s.files > 999, "more than 999 files");
    Ok(())
}

fn c27(c: &Case, cx: &mut Cx) -> R {
    let d = WorkDir::enter();
    on();
    let mut s = Seen::default();
    let mut t = Tape::new(&c.a);
    let kind = t.below(300);
    if kind == 299 {
        many_nodes(&mut t, c, cx, &mut s, &d)?
    } else if kind >= 200 {
        odd_names(&mut t, c, cx, &mut s, &d)?
    } else {
        let cfg = mix(BASIC, &mut t, &[(4, ALLOC), (4, RICH)]);
        let prog = decode_prog(&mut t, cfg);
        cx.digest(&prog);
        cx.show(|| format!("{:?}", prog));
        let ws = Ws { kind: 1, view: 1, undo: 0, ..WS };
        let mut se = Sess::new(prog, OPTS);
        look(&mut s, &d, "the start")?;
        for op in &c.b {
            let a = se.decode(op, &ws);
            if let Act::All = a {
                continue;
            }
            cx.digest(&format!("{:?}", a));
            cx.show(|| format!("{:?}", a));
            se.act(&a)?;
            look(&mut s, &d, &format!("{:?}", a))?;
            if se.too_big {
                break;
            }
        }
    }
    // Another graph starts afresh, in a directory that has files.
    cx.label_if(s.dirty > 0, "dirty edges");
    cx.label_if(s.allocs > 0, "allocation edges");
    cx.nontrivial = s.dirty + s.allocs > 0 && s.fresh > 1;
    manage::init_dcg();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27",
        a: (10, 120),
        b: (1, 14),
        quick: 20_000,
        thorough: 800_000,
        run: c27,
        rule: "A case is a program (one in 300: dozens of nodes) and a history of edits and demands, with every graph written to a file; after each step the newest file \
is read and compared with the reflected graph. Non-trivial: an edge drawn was dirty or an allocation, and at least two steps wrote a file.",
        assumptions: &[],
    }]
}
