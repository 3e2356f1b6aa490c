//! Properties of change propagation, decided over sessions.

use crate::fw::*;
use crate::lang::*;
use crate::p_scale::{scale_case, What};
use crate::sess::*;
use adapton::engine::manage;

pub fn mix(base: Cfg, t: &mut Tape, alts: &[(usize, Cfg)]) -> Cfg {
    let mut ws = vec![6];
    ws.extend(alts.iter().map(|x| x.0));
    match t.weighted(&ws) {
        0 => base,
        k => alts[k - 1].1,
    }
}

pub const ALLOC: Cfg = Cfg { alloc: 2, ns: 1, arts: 1, ..BASIC };
const MAPPED: Cfg = Cfg { map: 8, abs: 3, ..BASIC };
const MAPS: Cfg = Cfg { map: 10, ..BASIC };
pub const RICH: Cfg = Cfg { map: 3, abs: 1, alloc: 2, ns: 1, arts: 1, kind_change: true, shared: 1, ..BASIC };
/// What the reference incremental engine covers.
const SHADOWED: Cfg = Cfg { map: 3, alloc: 2, ns: 1, arts: 1, kind_change: true, ..BASIC };

pub fn session(c: &Case, cx: &mut Cx, cfg: impl FnOnce(&mut Tape) -> Cfg, opts: Opts, ws: Ws) -> Result<Sess, String> {
    manage::init_dcg();
    let mut t = Tape::new(&c.a);
    let cfg = cfg(&mut t);
    let mut s = Sess::new(decode_prog(&mut t, cfg), opts);
    run_ops(&mut s, c, cx, ws)?;
    Ok(s)
}

fn run_ops(s: &mut Sess, c: &Case, cx: &mut Cx, ws: Ws) -> R {
    let prog = s.prog.clone();
    cx.digest(&prog);
    cx.show(|| format!("{:?}", prog));
    s.act(&Act::All)?;
    for op in &c.b {
        let a = s.decode(op, &ws);
        cx.digest(&format!("{:?}", a));
        cx.show(|| format!("{:?}", a));
        s.act(&a)?;
    }
    s.act(&Act::All)?;
    let has = |f: &dyn Fn(&X) -> bool| count_prog(&prog, f) > 0;
    cx.label_if(has(&|x| matches!(x, X::Slot(_, Obs::Map(_)) | X::Local(_, Obs::Map(_)) | X::Call(_, _, _, _, Obs::Map(_)))), "projects");
    cx.label_if(has(&|x| matches!(x, X::Slot(_, Obs::Abs(_)) | X::Local(_, Obs::Abs(_)))), "abstract mapping");
    cx.label_if(has(&|x| matches!(x, X::Call(..) | X::Rec(..) | X::LetThunk(..))), "allocates thunks");
    cx.label_if(has(&|x| matches!(x, X::LetCell(..))), "allocates cells");
    cx.label_if(has(&|x| matches!(x, X::RetLocal(..))), "returns articulations");
    cx.label_if(count_prog(&prog, &|x| matches!(x, X::LetShared(..))) > 1, "several allocators of one name");
    cx.label_if(has(&|x| matches!(x, X::Ns(..))), "namespaces");
    cx.label_if(has(&|x| matches!(x, X::Struct(..))), "structural regions");
    cx.label_if(has(&|x| matches!(x, X::If(..))), "dynamic dependencies");
    cx.label_if(s.changed > 0, "a later demand gave another value");
    cx.label_if(s.reused > 0, "a demand ran nothing");
    cx.label_if(s.too_big, "stopped: too big");
    cx.nontrivial = s.changed > 0 && s.demands > 0;
    if let Some(sh) = &s.shadow {
        cx.label_if(sh.eng.firewalls.get() > 0, "a re-evaluation gave an equal result");
        cx.label_if(sh.eng.reuses.get() > 0, "a cached result was confirmed");
    }
    cx.label_if(s.undirtied > 0, "an edit left a projection unchanged");
    Ok(())
}

/// One case in `den` is a large one.
fn large(c: &Case, cx: &mut Cx, den: usize, what: What) -> Option<R> {
    let mut t = Tape::new(&c.a);
    // (At the upper end, so that smaller cases are ordinary ones.)
    if t.below(den) + 1 < den {
        return None;
    }
    Some(scale_case(&mut t, c, cx, what))
}

fn c01(c: &Case, cx: &mut Cx) -> R {
    if let Some(r) = large(c, cx, 60, What { runs: false, graph: false, inner: false, parts: false, max: 500, check: false, trace: false }) {
        return r;
    }
    session(c, cx, |t| mix(BASIC, t, &[(3, ALLOC), (2, RICH)]), Opts { ..OPTS }, WS)?;
    Ok(())
}

fn c02(c: &Case, cx: &mut Cx) -> R {
    if let Some(r) = large(c, cx, 60, What { runs: false, graph: false, inner: false, parts: true, max: 300, check: false, trace: false }) {
        return r;
    }
    let kinds = Cfg { kind_change: true, ..MAPPED };
    let nested = Cfg { alloc: 1, arts: 1, ..MAPPED };
    let ws = Ws { view: 1, kind: 1, set: 9, ..WS };
    session(c, cx, |t| mix(MAPPED, t, &[(2, MAPS), (2, kinds), (2, nested)]), OPTS, ws)?;
    Ok(())
}

fn c03(c: &Case, cx: &mut Cx) -> R {
    if let Some(r) = large(c, cx, 60, What { runs: false, graph: false, inner: true, parts: false, max: 300, check: false, trace: false }) {
        return r;
    }
    let deep = Cfg { alloc: 4, arts: 3, ..ALLOC };
    let shared = Cfg { alloc: 1, arts: 2, shared: 5, ..ALLOC };
    let ws = Ws { kind: 1, ..WS };
    let mut t = Tape::new(&c.a);
    if t.chance(1, 6) {
        return crate::p_shared::shared(&mut t, c, cx);
    }
    session(c, cx, |t| mix(ALLOC, t, &[(4, deep), (3, RICH), (4, shared)]), OPTS, ws)?;
    Ok(())
}

fn c04(c: &Case, cx: &mut Cx) -> R {
    let whole = Cfg { alloc: 3, arts: 1, reparam: false, ..BASIC };
    let regions = Cfg { structural: 3, map: 1, ..ALLOC };
    let mut t = Tape::new(&c.a);
    if t.chance(1, 5) {
        return crate::p_struct::identity(&mut t, cx);
    }
    if t.chance(1, 20) {
        manage::init_dcg();
        let s = crate::p_struct::typed(&mut t, adapton::engine::name_of_str("alike"))?;
        cx.digest(&s);
        cx.show(|| s.clone());
        cx.label("types that hash alike");
        cx.nontrivial = true;
        return Ok(());
    }
    if t.below(80) == 79 {
        return crate::p_struct::wide(&mut t, cx);
    }
    // (Regions mean nothing where nothing is cached.)
    let naive = t.chance(1, 4);
    cx.label_if(naive, "ran cache-free as well");
    if t.chance(1, 2) {
        manage::init_dcg();
        let mut s = Sess::new(decode_prog(&mut t, whole), Opts { structural: true, naive, ..OPTS });
        cx.label("structural throughout");
        run_ops(&mut s, c, cx, Ws { reparam: 0, recreate: 1, kind: 0, ..WS })?;
    } else {
        manage::init_dcg();
        let mut s = Sess::new(decode_prog(&mut t, regions), Opts { naive, ..OPTS });
        cx.label("structural regions within named code");
        run_ops(&mut s, c, cx, WS)?;
    }
    Ok(())
}

fn c05(c: &Case, cx: &mut Cx) -> R {
    if let Some(r) = large(c, cx, 60, What { runs: true, graph: false, inner: true, parts: false, max: 300, check: false, trace: false }) {
        return r;
    }
    let s = session(
        c,
        cx,
        |t| mix(BASIC, t, &[(3, ALLOC), (3, SHADOWED)]),
        Opts { shadow: true, twice: true, ..OPTS },
        Ws { undo: 2, kind: 1, all: 1, ..WS },
    )?;
    let sh = s.shadow.as_ref().unwrap();
    cx.nontrivial = s.changed > 0 && (sh.eng.reuses.get() > 0 || s.reused > 0);
    Ok(())
}

fn c06(c: &Case, cx: &mut Cx) -> R {
    if let Some(r) = large(c, cx, 60, What { runs: true, graph: false, inner: false, parts: true, max: 300, check: false, trace: false }) {
        return r;
    }
    let s = session(
        c,
        cx,
        |t| mix(MAPS, t, &[(3, BASIC), (3, Cfg { map: 6, ..SHADOWED })]),
        Opts { shadow: true, reflect: true, ..OPTS },
        Ws { recell: 2, kind: 1, ..WS },
    )?;
    let sh = s.shadow.as_ref().unwrap();
    cx.label_if(s.dirtied > 0, "edges dirtied");
    cx.nontrivial = s.undirtied > 0 || sh.eng.firewalls.get() > 0;
    Ok(())
}

fn c07(c: &Case, cx: &mut Cx) -> R {
    if let Some(r) = large(c, cx, 60, What { runs: false, graph: true, inner: true, parts: true, max: 200, check: false, trace: false }) {
        return r;
    }
    let st = Cfg { structural: 2, ..RICH };
    let s = session(
        c,
        cx,
        |t| mix(BASIC, t, &[(3, ALLOC), (4, RICH), (2, st)]),
        Opts { reflect: true, ..OPTS },
        Ws { view: 1, kind: 1, ..WS },
    )?;
    cx.nontrivial = s.changed > 0 && s.edges_checked > 0;
    Ok(())
}

fn c14(c: &Case, cx: &mut Cx) -> R {
    if let Some(r) = large(c, cx, 150, What { runs: false, graph: false, inner: true, parts: true, max: 150, check: false, trace: true }) {
        return r;
    }
    let notes = [0, 0, 1, 2, 3, 7, 20][c.b.first().map_or(0, |o| scale(o[3].wrapping_mul(40503), 7))];
    let s = session(c, cx, |t| mix(BASIC, t, &[(3, ALLOC), (4, RICH)]), Opts { trace: true, notes, shadow: false, ..OPTS }, Ws { kind: 1, view: 1, ..WS })?;
    cx.label_if(s.dirtied > 0, "edges dirtied");
    cx.label_if(s.spans > 0, "events within extents of debugging events");
    cx.nontrivial = s.changed > 0 && s.events > 10;
    Ok(())
}

/// Several engines, each with its own program (over the same names) and
/// history, swapped in and out between operations.
fn c13(c: &Case, cx: &mut Cx) -> R {
    use adapton::engine::Engine;
    use adapton::reflect as rf;
    let mut t = Tape::new(&c.a);
    // (Rarely, many.)
    let k = [2, 3, 2, 3, 2, 3, 2, 3, 4, 6][t.below(10)];
    let mut idle: Vec<Option<(Engine, Sess, Option<rf::DCG>)>> = vec![];
    let start = manage::init_naive();
    drop(start);
    for j in 0..k {
        // Made while the previous one is active, with unusual options and
        // cached work, or while the cache-free one is.
        let amid = j > 0 && t.chance(1, 2);
        if amid {
            let (e, mut s, _) = idle[j - 1].take().unwrap();
            manage::use_engine(e);
            s.act(&Act::All)?;
            flags(|f| {
                f.ignore_nominal_use_structural = true;
                f.check_dcg_is_wf = true
            });
            let e = manage::init_dcg();
            match &e {
                Engine::DCG(d) => {
                    let f = &mut d.borrow_mut().flags;
                    ensure!(
                        f.ignore_nominal_use_structural && f.check_dcg_is_wf && f.use_purity_optimization == ((j - 1) % 2 == 0),
                        "the options of an engine changed, or the wrong engine was swapped out"
                    );
                    f.ignore_nominal_use_structural = false;
                    f.check_dcg_is_wf = false;
                }
                Engine::Naive => return Err("the engine swapped out is not the one that was active".into()),
            }
            idle[j - 1] = Some((e, s, None));
            cx.label("an engine made while another is active");
        } else {
            let old = manage::init_dcg();
            ensure!(matches!(old, Engine::Naive), "the engine swapped out is not the one that was active");
        }
        ensure!(
            flags(|f| f.use_purity_optimization && !f.ignore_nominal_use_structural && !f.check_dcg_is_wf),
            "a fresh engine has unusual options"
        );
        ensure!(rf::dcg_reflect_now().map_or(false, |d| d.table.is_empty() && d.stack.is_empty() && d.path.is_empty()), "a fresh engine is not empty");
        ensure!(manage::engine_is_dcg() && !manage::engine_is_naive(), "the caching engine is not reported as such");
        // Only what the reference incremental engine covers is compared to it.
        let shared = Cfg { alloc: 3, arts: 1, shared: 5, ..ALLOC };
        let shadow = t.chance(3, 5);
        let cfg = if shadow { mix(BASIC, &mut t, &[(3, SHADOWED)]) } else { mix(ALLOC, &mut t, &[(3, RICH), (3, shared)]) };
        let cfg = Cfg { maxslots: 7, ..cfg };
        let s = Sess::new(decode_prog(&mut t, cfg), Opts { shadow, ..OPTS });
        cx.digest(&s.prog);
        cx.show(|| format!("engine {}: {:?}", j, s.prog));
        // A mark by which to recognise this engine.
        flags(|f| f.use_purity_optimization = j % 2 == 0);
        let e = manage::use_engine(Engine::Naive);
        ensure!(matches!(e, Engine::DCG(_)), "the engine swapped out is not the one that was active");
        ensure!(manage::engine_is_naive() && !manage::engine_is_dcg(), "the cache-free engine is not reported as such");
        idle.push(Some((e, s, None)));
    }
    ensure!(rf::dcg_reflect_now().is_none(), "the cache-free engine has a graph");
    let mut active = usize::MAX;
    let mut cur: Option<Sess> = None;
    let mut swaps = 0;
    let ws = Ws { kind: 1, ..WS };
    for op in c.b.iter() {
        let to = scale(op[3].wrapping_mul(40503), k + 1);
        if to != active {
            swaps += 1;
            let pre = rf::dcg_reflect_now();
            let next = if to < k { idle[to].take() } else { None };
            let (e, s, was) = match next {
                Some((e, s, was)) => (e, Some(s), was),
                None => (Engine::Naive, None, None),
            };
            let old = manage::use_engine(e);
            if active < k {
                ensure!(matches!(old, Engine::DCG(_)), "the engine swapped out is not the one that was active");
                if let Engine::DCG(d) = &old {
                    ensure!(
                        d.borrow().flags.use_purity_optimization == (active % 2 == 0),
                        "the options of an engine changed, or the wrong engine was swapped out"
                    );
                }
                idle[active] = Some((old, cur.take().unwrap(), pre));
            } else {
                ensure!(matches!(old, Engine::Naive), "the engine swapped out is not the one that was active");
            }
            let now = rf::dcg_reflect_now();
            ensure!(now.is_some() == (to < k), "the active engine is of the wrong kind");
            ensure!(manage::engine_is_dcg() == (to < k) && manage::engine_is_naive() == (to >= k), "an engine is reported as the wrong kind");
            if let (Some(a), Some(b)) = (&was, &now) {
                ensure!(a.table == b.table && a.path == b.path && b.stack.is_empty(), "the graph of an engine changed while it was swapped out");
            }
            cx.digest(&("swap", to));
            cx.show(|| format!("swap to {}", to));
            active = to;
            cur = s;
        }
        match cur.as_mut() {
            Some(s) => {
                let a = s.decode(op, &ws);
                cx.digest(&format!("{:?}", a));
                cx.show(|| format!("{}: {:?}", active, a));
                s.act(&a)?;
            }
            None => {
                // The current inputs of some engine, cache-free.
                let j = scale(op[1], k);
                if let Some((e, mut s, was)) = idle[j].take() {
                    if let Some((pure, _)) = s.pure() {
                        s.check_naive_here(&pure)?;
                        cx.label("ran cache-free");
                    }
                    idle[j] = Some((e, s, was));
                }
            }
        }
    }
    let mut changed = 0;
    let mut reused = 0;
    if let Some(s) = cur.as_mut() {
        s.act(&Act::All)?;
        changed += s.changed;
        reused += s.reused;
        let e = manage::use_engine(Engine::Naive);
        drop(e);
    } else {
        manage::use_engine(Engine::Naive);
    }
    for i in idle.into_iter().flatten() {
        let (e, mut s, _) = i;
        manage::use_engine(e);
        s.act(&Act::All)?;
        s.act(&Act::All)?;
        changed += s.changed;
        reused += s.reused;
        manage::use_engine(Engine::Naive);
    }
    cx.label_if(changed > 0, "a later demand gave another value");
    cx.label_if(reused > 0, "a demand ran nothing");
    cx.nontrivial = swaps >= 2 && reused > 0;
    Ok(())
}

/// The same history, under several settings of the engine's options.
fn c23(c: &Case, cx: &mut Cx) -> R {
    let mut t = Tape::new(&c.a);
    if let Some(r) = large(c, cx, 150, What { runs: false, graph: false, inner: true, parts: true, max: 60, check: true, trace: false }) {
        cx.label("a large graph under the checker");
        return r;
    }
    if t.chance(1, 10) {
        return crate::p_cyc::options(&Case { a: c.a[1..].to_vec(), b: c.b.clone() }, cx);
    }
    let whole = t.chance(1, 3);
    let cfg = if whole {
        Cfg { alloc: 3, arts: 1, reparam: false, ..BASIC }
    } else {
        mix(BASIC, &mut t, &[(3, ALLOC), (4, RICH), (2, Cfg { structural: 2, ..RICH })])
    };
    let combos: Vec<u16> = (0..2).map(|_| t.raw()).collect();
    let prog = decode_prog(&mut t, cfg);
    let ws = if whole { Ws { reparam: 0, kind: 0, ..WS } } else { Ws { kind: 1, view: 1, ..WS } };
    let vars = ["ADAPTON_NO_PURITY", "ADAPTON_STRUCTURAL", "ADAPTON_CHECK_DCG", "ADAPTON_WRITE_DCG", "ADAPTON_GMLOG_DCG"];
    // Rarely (it is slow), every state of the graph is written to a file.
    let mut write = t.below(100) == 99;
    type Fl = (bool, bool, bool, bool, bool);
    let get = || flags(|f| (!f.use_purity_optimization, f.ignore_nominal_use_structural, f.check_dcg_is_wf, f.write_dcg, f.gmlog_dcg));
    let mut nontrivial = false;
    for k in combos {
        let bits = scale(k, 32);
        let (no_purity, check, record, env) = (bits & 1 == 1, bits & 2 == 2, bits & 4 == 4, bits & 8 == 8);
        // Programs whose inputs must keep their names use the option only
        // around their demands.
        let structural = whole && bits & 16 == 0;
        let gmlog = k % 8 == 0;
        let here = if write { Some(WorkDir::enter()) } else { None };
        let all: Fl = (no_purity, structural, check, write, gmlog);
        for (v, on) in vars.iter().zip([no_purity, structural, check, write, gmlog]) {
            if env && on {
                std::env::set_var(v, ["1", "true", "yes", "on"][k as usize % 4])
            } else {
                std::env::remove_var(v)
            }
        }
        manage::init_dcg();
        for v in vars {
            std::env::remove_var(v)
        }
        let got = get();
        let want = if env { all } else { (false, false, false, false, false) };
        ensure!(got == want, "options set by the environment are {:?}, not {:?} (no purity, structural, check, write, gmlog)", got, want);
        if !env {
            flags(|f| {
                f.use_purity_optimization = !no_purity;
                f.ignore_nominal_use_structural = structural;
                f.check_dcg_is_wf = check;
                f.write_dcg = write;
                f.gmlog_dcg = gmlog;
            });
        }
        cx.digest(&bits);
        cx.show(|| format!("no_purity={} structural={} check={} record={} by environment={}", no_purity, structural, check, record, env));
        cx.label_if(no_purity, "without the purity optimization");
        cx.label_if(structural, "ignoring names");
        cx.label_if(check, "checking well-formedness");
        cx.label_if(record, "recording");
        cx.label_if(env, "options set by the environment");
        let opts = Opts { structural, by_flag: structural, record, ..OPTS };
        let mut s = Sess::new(prog.clone(), opts);
        run_ops(&mut s, c, cx, ws)?;
        ensure!(get() == all, "running a program changed the options of the engine");
        if let Some(d) = here {
            let files = std::fs::read_dir(d.path()).map(|r| r.count()).unwrap_or(0);
            cx.label_if(files > 0, "writing each graph to a file");
            // (One of the two settings is enough.)
            write = false;
        }
        nontrivial |= cx.nontrivial && bits != 0;
    }
    cx.nontrivial = nontrivial;
    Ok(())
}

const RULE: &str = "A case is a generated incremental program (input cells; thunks over them; functions called by name) and a \
history of edits and demands; for some properties one case in 60 is a graph of hundreds of nodes, and some cases are scripts about \
the identity or the owners of names. Non-trivial: some thunk, demanded again after edits, gave another value than before.";

pub fn props() -> Vec<Prop> {
    let p = |id, run: fn(&Case, &mut Cx) -> R, quick: u64, rule| Prop {
        id,
        a: (40, 260),
        b: (1, 16),
        quick,
        thorough: quick * 40,
        run,
        rule,
        assumptions: &[],
    };
    vec![
        p("C01", c01, 350_000, RULE),
        p("C02", c02, 350_000, RULE),
        p("C03", c03, 300_000, RULE),
        p("C04", c04, 300_000, RULE),
        p("C05", c05, 250_000, RULE),
        p("C06", c06, 60_000, RULE),
        p("C07", c07, 100_000, RULE),
        p("C13", c13, 200_000, "A case is two to six generated programs over the same names, each in an engine of its own, and a \
history of edits, demands and engine swaps. Non-trivial: at least two swaps happened and some later demand reused cached work."),
        p("C14", c14, 80_000, "A case is a generated program and history, each operation recorded. Non-trivial: some thunk, demanded \
again after edits, gave another value, and more than ten events were compared with what happened."),
        p("C23", c23, 200_000, "A case is a generated program and history, run under two settings of the engine's options. Non-trivial: \
with an option changed, some thunk, demanded again after edits, gave another value than before."),
    ]
}
