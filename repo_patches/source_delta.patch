From 4b6ddd4752b493f5b3c86e4ec7a48e4b5f19a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/33] fix: clean every dependency that shares a dirty bit
 before clearing it

Two force_map projections of one cell in one thunk share the dirty bit of
the first edge. Cleaning the first projection cleared the bit without
checking the second, so a change seen only by the second was lost.
---
 src/engine.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6e4ce1f..268f9bb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1003,9 +1003,13 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
         } ;
         if dirty {
             dcg_effect_begin!(reflect::trace::Effect::CleanRec, Some(loc), succ);
-            let succ_dep = & succ.dep ;
-            let res = succ_dep.clean(g, &succ.loc) ;
-            if res.changed {
+            // The dirty bit is shared by every edge with this effect
+            // and target (see `get_succ_mut`); so, clean all of their
+            // dependencies before marking that bit clean.
+            let changed = succs.iter()
+                .filter(|other| other.effect == succ.effect && other.loc == succ.loc)
+                .any(|other| other.dep.clean(g, &other.loc).changed) ;
+            if changed {
                 dcg_effect_begin!(reflect::trace::Effect::CleanEval, Some(loc), succ);
                 let result : Res = loc_produce( g, loc ) ;
                 dcg_effect_end!();
-- 
2.43.0


From a4867f2b47e0d1248caa2293214a99a8a114ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 02/33] fix: record a full observation that follows a partial
 one

force treated any earlier observation of the same location as a duplicate,
including a force_map projection, and then recorded no dependency for the
full value.
---
 src/engine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 268f9bb..a3e6bec 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1968,8 +1968,10 @@ impl Adapton for DCG {
                     };
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
-                        for &(ref succ, ref _pred_dep) in frame.succs.iter() {
-                            if &succ.loc == loc && succ.effect == Effect::Observe
+                        for &(ref succ, ref pred_dep) in frame.succs.iter() {
+                            // A partial observation (`Some(_)`; see `force_map`)
+                            // does not subsume the full observation made here.
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From 2ccf22e9dff4fbdbb9f293ce729807625dc6c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 03/33] fix: dirty force_abs observers when the observed cell
 changes

Dirtying always stopped at force_abs edges, so a thunk that observes a cell
only through force_abs was never re-evaluated.
---
 src/engine.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index a3e6bec..c69c39f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1144,14 +1144,14 @@ impl<Arg:'static,   // identifies a concrete mapping in the family
         Some(TypeId::of::<Self>())
     }
     fn dirty (self:&Self, _g:&mut DCG, _loc:&Rc<Loc>) -> DCGRes {
-        unimplemented!()
+        // We don't have the old value of the observation in hand to
+        // run the abstract test (`fn is_dirty` on the AbsMapFam
+        // trait), so, conservatively assume that it has changed.
+        DCGRes{ changed: true }
     }
     fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes {
-        // the edge is dirty because we've already determined it
-        // should be, via an abstract test (`fn is_dirty` on the
-        // AbsMapFam trait).  We could try to re-run this test _now_,
-        // but we don't have the old value of the observation in hand,
-        // and would like to avoid storing it on the edge.
+        // As above: we don't have the old value of the observation in
+        // hand, and would like to avoid storing it on the edge.
         DCGRes{ changed: true }
     }
 }
@@ -1312,7 +1312,7 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
+            Some(dep) => dep.dirty(st, loc).changed == false
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-- 
2.43.0


From 08c84f455f569bc1a6b350e5d4993ab2d5671208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 04/33] fix: decide whether a structural thunk is pure after
 running it

The purity test looked at the thunk's effects before its first evaluation,
when there are none yet; so the first force of an impure structural thunk
recorded no dependency, and its observers went stale.
---
 src/engine.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index c69c39f..439c838 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1958,7 +1958,6 @@ impl Adapton for DCG {
             AbsArt::Loc(ref loc) => {
                 let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
-                    let is_pure_opt : bool = st.flags.use_purity_optimization ;
                     let is_cycle = { let mut is_cycle = false;
                                      for frame in st.stack.iter() {
                                          if &frame.loc == loc {
@@ -1981,9 +1980,8 @@ impl Adapton for DCG {
                         Node::Pure(ref mut nd) => (false, is_dup, true, false, Some(nd.val.clone())),
                         Node::Mut(ref mut nd)  => (false, is_dup, false, false, Some(nd.val.clone())),
                         Node::Comp(ref mut nd) => {
-                            let is_pure = match *loc.id {
-                                ArtId::Structural(_) => nd.succs.len() == 0 && is_pure_opt,
-                                ArtId::Nominal(_)    => false } ;
+                            // Not known to be pure until it has run (see below).
+                            let is_pure = false ;
                             if is_cycle {
                                 // Cycle detected; check cycle_out to see if the caller expected this
                                 match cycle_out {
@@ -2074,6 +2072,17 @@ impl Adapton for DCG {
                     }
                 } ;
                 let st : &mut DCG = &mut *g.borrow_mut() ;
+                let is_pure = is_pure || {
+                    // A structurally-named thunk is pure if its (now
+                    // complete) evaluation performed no effects.
+                    let is_pure_opt : bool = st.flags.use_purity_optimization ;
+                    let node : &mut Node<T> = res_node_of_loc(st, &loc) ;
+                    match (&*loc.id, &*node) {
+                        (&ArtId::Structural(_), &Node::Comp(ref nd)) =>
+                            is_pure_opt && !is_cycle && nd.succs.len() == 0,
+                        _ => false,
+                    }
+                } ;
                 if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
-- 
2.43.0


From fc9e2ccde60987c54a089571d7e3415a6d77fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 05/33] fix: store the value when a cell is allocated over a
 thunk

Allocating a cell at a location that held a thunk kept the thunk, dropped
the new value, and left the thunk's revoked edges in place.
---
 src/engine.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 439c838..7ef077b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1551,14 +1551,15 @@ impl Adapton for DCG {
             let hash = my_hash(&(&path,&id));
             let loc  = Rc::new(Loc{path:path,id:id,hash:hash})
                 ;
-            let (do_dirty, do_set, succs, do_insert, is_fresh) =
+            let (do_dirty, do_set, succs, preds, do_insert, is_fresh) =
                 if self.table.contains_key(&loc) {
                     let node : &Box<Node<T>> = res_node_of_loc(self, &loc) ;
                     match **node {
-                        Node::Mut(_)       => { (false, true,  None, false, false) }
-                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()),  false, false ) }
-                        Node::Pure(_)      => { (false, false, None, false, false) }
-                    }} else                 { (false, false, None, true, true ) }
+                        Node::Mut(_)       => { (false, true,  None, Vec::new(), false, false) }
+                        // The value replaces the computation, but inherits its observers and allocators.
+                        Node::Comp(ref nd) => { (true,  false, Some(nd.succs.clone()), nd.preds.clone(), true, false ) }
+                        Node::Pure(_)      => { (false, false, None, Vec::new(), false, false) }
+                    }} else                 { (false, false, None, Vec::new(), true, true ) }
             ;
             // - - - - - - - - - -
             // Begin an allocation.  Because this allocation may require
@@ -1602,7 +1603,7 @@ impl Adapton for DCG {
             if do_insert {
                 let node = if is_pure { Node::Pure(PureNode{val:val.clone()}) } else {
                     Node::Mut(MutNode{
-                        preds:Vec::new(),
+                        preds:preds,
                         val:val.clone(),
                     })} ;
                 self.table.insert(loc.clone(), Box::new(node));
-- 
2.43.0


From 99557fe63af5d173d91330e8007cb60da853052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/33] fix: keep observers when a thunk is allocated over a
 cell

The new node lost the cell's observers and allocators, so they were never
dirtied again; and an observer that had projected the cell (force_map)
reached unreachable!() or was not dirtied at all.
---
 src/engine.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7ef077b..e1b9adb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1178,7 +1178,11 @@ fn check_force_map_dep
                    (&Art{art:EnumArt::Loc(loc.clone())},
                     nd.val.clone())},
 
-        Node::Comp(_) | Node::Pure(_) =>
+        // A computation has since replaced the observed cell.
+        Node::Comp(_) =>
+            DCGRes{changed:true},
+
+        Node::Pure(_) =>
             unreachable!()
     }
 }
@@ -1712,6 +1716,7 @@ impl Adapton for DCG {
                     }
                 ;
                 let top_loc = get_top_stack_loc( self );
+                let mut preds : Vec<Pred> = Vec::new();
                 let (do_dirty, do_insert, is_fresh) = { match self.table.get_mut( &loc ) {
                     None => {
                         // do_dirty=false; do_insert=true
@@ -1723,8 +1728,12 @@ impl Adapton for DCG {
                         let res_nd: &mut Box<Node<Res>> = unsafe { transmute::<_,_>( node ) } ;
                         match ** res_nd {
                             Node::Pure(_)=> unreachable!(),
-                            Node::Mut(_) => {
-                                (true, true, false) // Todo: Do we need to preserve preds?
+                            Node::Mut(ref nd) => {
+                                // The computation replaces the value, but inherits its observers
+                                // and allocators.  Observers that projected the value
+                                // (`force_map`) now depend on all of the computation's result.
+                                preds = nd.preds.iter().map(|pred| Pred{dep:None, ..pred.clone()}).collect();
+                                (true, true, false)
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
@@ -1786,6 +1795,15 @@ impl Adapton for DCG {
                         dirty:false,
                         is_dup:false, // XXX -- Actually: Not checked here.
                     });
+                if do_insert {
+                    let node : CompNode<Res> = CompNode{
+                        preds:preds,
+                        succs:Vec::new(),
+                        producer:Box::new(producer),
+                        res:None,
+                    } ;
+                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
+                }
                 if do_dirty {dirty_alloc(self, &loc) };
                 dcg_effect_end!();
 
@@ -1797,21 +1815,8 @@ impl Adapton for DCG {
                              dirty:false};
                     frame.succs.push((succ, None))
                 }};
-                if do_insert {
-                    let node : CompNode<Res> = CompNode{
-                        preds:Vec::new(),
-                        succs:Vec::new(),
-                        producer:Box::new(producer),
-                        res:None,
-                    } ;
-                    self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
-                else {
-                    wf::check_dcg(self);
-                    AbsArt::Loc(loc)
-                }
+                wf::check_dcg(self);
+                AbsArt::Loc(loc)
             }
         }
     }
-- 
2.43.0


From bb0ff19cb8c7ea618b6c57cc56f393262dc889c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 07/33] fix: run unnamed thunks under the DCG engine

thunk! and memo! with no name choose NameChoice::Eager, which hit
unreachable!() under the DCG engine (and Naive hit unimplemented!()), after
calling the function while the engine was mutably borrowed.
---
 src/engine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index e1b9adb..cee1d52 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2454,13 +2454,18 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
 {
     GLOBALS.with(|g| {
         match g.borrow().engine {
-            Engine::DCG(ref dcg) => {
+            // Without an identity, there is nothing to cache or track:
+            // call the function now (Eager), or suspend it natively (Naive).
+            Engine::DCG(_) if id == NameChoice::Eager => {
+                Art{art:EnumArt::Rc(Rc::new(fn_box(arg, spurious)))}
+            },
+            Engine::DCG(ref dcg) if id != NameChoice::Naive => {
                 Art{art:EnumArt::Loc({
                     if let AbsArt::Loc(loc) =
                         (dcg.borrow_mut()).thunk(id, prog_pt, fn_box, arg, spurious)
                     { loc } else { unreachable!() }})}
             },
-            Engine::Naive => {
+            Engine::DCG(_) | Engine::Naive => {
                 Art{art:EnumArt::Force(
                     Rc::new(NaiveThunk{
                         id:id,prog_pt:prog_pt,
-- 
2.43.0


From e544877141ff7afbfb6f13767e5aea6f8b09990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 08/33] fix: give each thunk![[name] body] its own program
 point

The macro stringified a metavariable it does not have, so every body shared
the program point "$fun" and two different bodies at one name were conflated
instead of being reported as ambiguous.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8fda541..83c0d92 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -413,7 +413,7 @@ macro_rules! thunk {
   [ [ $name:ident ] $body:expr ] => {{
       thunk(
           NameChoice::Nominal(name_of_str(stringify!($name))),
-          prog_pt!(stringify!($fun)),
+          prog_pt!(stringify!($body)),
           Rc::new(Box::new( move |(),()| { $body } )),
           () ,
           () )
-- 
2.43.0


From 8fa4937ca9f14d2d4f26bda6006619a74021a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/33] fix: distinguish mapped thunks from one another

Every thunk_map result compared equal (and hashed equally), since its
identity was a constant; so a computation whose result changed from one
mapped thunk to another was treated as unchanged and its observers went
stale.
---
 src/engine.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index cee1d52..a7ce1d6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2484,16 +2484,21 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
                  Res2:Hash+Eq+Debug+Clone+'static>
     (thunk:Art<Res1>, map_fn:Rc<dyn Fn(Res1) -> Res2>) -> Art<Res2>
 {
+    let fn_box : Rc<Box<dyn Fn(usize, ()) -> Res2>> = Rc::new(Box::new(move |_,_| {
+        let res1 = force(&thunk);
+        let res2 = map_fn(res1);
+        res2
+    }));
+    // We cannot compare mapping functions; so, two mapped thunks are
+    // equal only when they are (clones of) the same mapped thunk,
+    // identified by the address of the function box that they share.
+    let identity = &*fn_box as *const Box<dyn Fn(usize, ()) -> Res2> as usize;
     Art{art:EnumArt::Force(
         Rc::new(NaiveThunk{
             id:NameChoice::Naive,
             prog_pt:ProgPt{symbol:"engine::thunk_map"},
-            fn_box:{Rc::new(Box::new(move |_,_| {
-                let res1 = force(&thunk);
-                let res2 = map_fn(res1);
-                res2
-            }))},
-            arg:(),
+            fn_box:fn_box,
+            arg:identity,
             spurious:()
         }))
     }
-- 
2.43.0


From dc946c7f4fc1f98961f84a4fef40dd33853978ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 10/33] fix: distinguish structural cells by type as well as
 content

Values of different types can hash alike (5u64 and 5i64), and then shared
one location, which was reported as a dynamic type error.
---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index a7ce1d6..d27dfdd 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1548,7 +1548,7 @@ impl Adapton for DCG {
                 if ! self.flags.ignore_nominal_use_structural {
                     (Rc::new(ArtId::Nominal(nm)), false) // Ordinary case: Use provided name.
                 } else {
-                    let hash = my_hash (&val) ;
+                    let hash = my_hash (&(TypeId::of::<T>(), &val)) ; // Equal hashes do not imply equal types.
                     (Rc::new(ArtId::Structural(hash)), self.flags.use_purity_optimization) // Ignore the name; do hash-consing instead.
                 }
             };
-- 
2.43.0


From 83fd8118460369440487982523079810c6f357da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 11/33] fix: report hash-consed cells as unchanged in the trace

Re-allocating an existing structural cell was traced (and counted by
trace_count) as an allocation with different content.
---
 src/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine.rs b/src/engine.rs
index d27dfdd..a296142 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1364,6 +1364,7 @@ fn check_cell_change<T:'static+Eq+Debug> (st:&mut DCG, cell:AbsArt<T,Loc>, val:&
         let node = res_node_of_loc::<T>( st, loc ) ;
         match **node {
             Node::Mut(ref mut nd) => { &nd.val != val }
+            Node::Pure(ref mut nd) => { &nd.val != val }
             _ => { /* the location was previously _not_ a cell, so yes */ true }
         }
     }
-- 
2.43.0


From 5e2c6974dda5f77f601724eed36d6dab0cbfbaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 12/33] fix: do not dirty the self-edge of a thunk that demands
 itself

After force_cycle observed a self-cycle, any change that reached the thunk
failed an assertion while dirtying.
---
 src/engine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index a296142..cc92d0e 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1318,11 +1318,12 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
             None => false,
             Some(dep) => dep.dirty(st, loc).changed == false
         };
-        let stop : bool = if stop { true } else {
+        // A node that observes itself (`force_cycle`) observed a fixed
+        // cycle value, not its own result; that edge never changes.
+        let stop : bool = if stop || &pred_loc == loc { true } else {
             // The stop bit communicates information from st for use below.
             let succ = get_succ_mut(st, &pred_loc, Effect::Observe, &loc) ;
             if succ.dirty { true } else {
-                assert!(&pred_loc != loc);
                 dcg_effect_begin!(reflect::trace::Effect::Dirty, Some(&pred_loc), succ);
                 replace(&mut succ.dirty, true);
                 false
-- 
2.43.0


From 4525731c379a2ca0374fcd5cbcaad7db25c32cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 13/33] fix: detect cycles through nodes that are being cleaned

After an edit, cleaning thunks that demand one another through force_cycle
recursed forever (stack overflow), or re-ran one of them as if its demand
did not form a cycle.
---
 src/engine.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index cc92d0e..09938f2 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -390,6 +390,7 @@ pub struct DCG {
     pub flags : Flags, // public because I dont want to write / design abstract accessors
     table : HashMap<Rc<Loc>, Box<dyn GraphNode>>,
     stack : Vec<Frame>,
+    cleaning : Vec<Rc<Loc>>, // The nodes being cleaned; like those of `stack`, to demand one again forms a cycle
     path  : Rc<Path>,
     //cnt   : Cnt,
     dcg_count : usize,
@@ -995,6 +996,22 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
     (g:&RefCell<DCG>,
      this_dep:&ForceDep<Res>,
      loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
+{
+    {   // A cyclic dependency: Its observer saw a cycle value that we
+        // cannot confirm without re-running it.
+        let st = &mut *g.borrow_mut();
+        if st.cleaning.contains(loc) { return DCGRes{changed:true} }
+        st.cleaning.push(loc.clone());
+    }
+    let res = clean_comp_succs(g, this_dep, loc, cache, succs) ;
+    g.borrow_mut().cleaning.pop() ;
+    res
+}
+
+fn clean_comp_succs<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
+    (g:&RefCell<DCG>,
+     this_dep:&ForceDep<Res>,
+     loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
 {
     for succ in succs.iter() {
         let dirty = {
@@ -1504,6 +1521,7 @@ impl Adapton for DCG {
             },
             table : table,
             stack : stack,
+            cleaning : Vec::new(),
             path  : path,
             dcg_count : 0,
             dcg_hash : 0, // XXX This makes assumptions about hashing implementation
@@ -1966,7 +1984,7 @@ impl Adapton for DCG {
             AbsArt::Loc(ref loc) => {
                 let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
-                    let is_cycle = { let mut is_cycle = false;
+                    let is_cycle = { let mut is_cycle = st.cleaning.contains(loc);
                                      for frame in st.stack.iter() {
                                          if &frame.loc == loc {
                                              is_cycle = true ; break
-- 
2.43.0


From ada90d2126c6e1e1b7c24b7b1b72a1f7a9505c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 14/33] fix: reflect names made by name_of_isize

Parsing such a name panicked, so dcg_reflect_now failed on any DCG with a
node whose value holds one.
---
 src/parse_val.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 9b0b7a5..315b80b 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -258,7 +258,11 @@ fn name_of_val ( n:&Val ) -> Name {
                 })
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("")
+                name_of_isize( match cons_args[0] {
+                    Val::Const( Const::Nat( ref n ) ) => *n as isize,
+                    Val::Const( Const::Num( ref n ) ) => *n,
+                    _ => panic!("expected a Num"),
+                })
             }
             else if *cons_name == name_of_str("Pair") {
                 let n1 = name_of_val( & cons_args[0] );
@@ -309,7 +313,12 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                     }}
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("TODO")
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {
+                        Val::Const( Const::Nat( ref n ) ) => Some( name_of_isize( *n as isize ) ),
+                        Val::Const( Const::Num( ref n ) ) => Some( name_of_isize( *n ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("Pair") {          
                 if cons_args.len() < 2 { None } else {
-- 
2.43.0


From 54852e8d06d307b2e618f809c70a02fb4a6ccb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 15/33] fix: reflect articulations that are identified
 structurally

Parsing one panicked, so dcg_reflect_now failed on any DCG with a node
whose value holds one.
---
 src/parse_val.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 315b80b..b3a6d52 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -282,6 +282,8 @@ fn name_of_val ( n:&Val ) -> Name {
             }        
         },
         Val::Name(ref n) => n.clone(),
+        // The hash that identifies a structural articulation
+        Val::Const( Const::Nat( ref h ) ) => name_of_hash64( *h as u64 ),
         _ => panic!("expected a constructor for a NameSym")
     }
 }
-- 
2.43.0


From cd8445b811b2e27d60acf5bdd224419e1622298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 16/33] fix: reflect strings with escapes and non-ASCII
 characters

The lexer of Debug output ended a string at its first escaped quote, kept
backslashes, and split multi-byte characters into bytes.
---
 src/parse_val.rs | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index b3a6d52..bdc87f6 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -59,20 +59,45 @@ enum Tok {
 pub fn parse_val <V:Debug> (v:&V) -> Val {
     let s = format!("{:?}", v);
     //println!("reflect_val({:?})", v);
-    let toks = lex(s.into_bytes());
+    let toks = lex(s.chars().collect());
     //println!("toks = {:?}", toks);
     parse_toks(toks)
 }
 
+/// Consume the rest of an escape sequence (after its backslash), as
+/// written by the `Debug` output of strings; give the escaped character.
+fn lex_escape (chars: &mut Vec<char>) -> char {
+    match chars.pop() {
+        Some('n') => '\n',
+        Some('r') => '\r',
+        Some('t') => '\t',
+        Some('0') => '\0',
+        Some('u') => {
+            // For example, `\u{7f}`
+            let mut digs = String::new();
+            loop {
+                match chars.pop() {
+                    None | Some('}') => break,
+                    Some('{') => continue,
+                    Some(c)   => digs.push(c),
+                }
+            };
+            let code = u32::from_str_radix(digs.as_str(), 16).unwrap();
+            std::char::from_u32(code).unwrap()
+        },
+        Some(c) => c, // Quotes, and backslash
+        None => panic!("expected the rest of an escape sequence"),
+    }
+}
+
 /// Tokenize the characters of input into lexical tokens of type `Tok`
-fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
+fn lex (mut chars: Vec<char>) -> Vec<Tok> {
     let mut toks = vec![];
     chars.reverse(); // TODO rewrite to avoid this
     loop {
         match chars.pop() {
             None => return toks,
             Some(c) => {
-                let c : char = c as char ;
                 if      c == ' ' { continue }
                 else if c == ':' { toks.push(Tok::Colon); continue }
                 else if c == ',' { toks.push(Tok::Comma); continue }
@@ -88,8 +113,11 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None => break,
                             Some(c) => {
-                                let c : char = c as char ;
-                                if c == '"' { break } else { 
+                                if c == '"' { break }
+                                else if c == '\\' {
+                                    string_chars.push(lex_escape(&mut chars));
+                                    continue
+                                } else { 
                                     string_chars.push(c);
                                     continue 
                                 }
@@ -107,12 +135,11 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if c >= '0' && c <= '9' { 
                                     digs.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
@@ -140,7 +167,6 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if (c >= 'a' && c <= 'z') ||
                                     (c >= 'A' && c <= 'Z') ||
                                     (c >= '0' && c <= '9') ||
@@ -149,7 +175,7 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                                     ident.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
-- 
2.43.0


From 64e287c8cbe670439d9fbfad01eccef198a1ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 17/33] fix: generate the elements of list_gen

Its range counted up from len-1 to 0, so it was empty for every length (and
underflowed for length zero).
---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d0eef85..4760e80 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -63,7 +63,7 @@ pub fn list_gen<X:'static,G,L:ListIntro<X>>
   (len:usize, gen_elm:G) -> L
   where G:Fn(usize) -> X {
     let mut out : L = L::nil();
-    for i in len-1..0 {
+    for i in (0..len).rev() {
       let x = gen_elm(i);
       let nm = name_of_usize(i);
       out = L::art(cell(nm.clone(), out));
-- 
2.43.0


From 45c91dd353b5ac552cc5a28cde8ad7059b4b719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 18/33] fix: honour a limit of zero in vec_of_list

The limit was only compared after an element had been pushed, so demanding
zero elements gathered the whole list.
---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 4760e80..1bed4ab 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -863,6 +863,7 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
   let mut out = vec![];
   let mut list = list ;
   loop {
+    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     let (hd, rest) =
       L::elim_arg(
         list, (),
@@ -871,7 +872,6 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
         |n, rest, _| { (Some(NameElse::Name(n.clone())), Some(rest)) }
         ) ;
     match hd { Some(x) => out.push(x), _ => () } ;
-    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     match rest { Some(rest) => { list = rest; continue }, None => return out }
   }
 }
-- 
2.43.0


From c9776045b227bff0bb568efe73483a236be1d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 19/33] fix: count the events within debugging extents of a
 trace

---
 src/reflect.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/reflect.rs b/src/reflect.rs
index b7dc2b9..8c86e84 100644
--- a/src/reflect.rs
+++ b/src/reflect.rs
@@ -545,12 +545,11 @@ archivist:
         match role {
             Role::Editor =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Editor, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Editor, sub_tr, c);
+                        }                        
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => unreachable!(),
                     Effect::CleanEdge => unreachable!(),
@@ -579,12 +578,11 @@ archivist:
                 },
             Role::Archivist =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Archivist, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Archivist, sub_tr, c);
+                        }                        
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => assert!(tr.extent.len() == 0),
                     Effect::CleanEdge => assert!(tr.extent.len() == 0),
-- 
2.43.0


From 369d5cbacf316fba8ff0138e405e66e0c9f0ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 20/33] fix: keep the projections of a cell's observers while a
 thunk replaces it

---
 src/engine.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 09938f2..93e781d 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1750,9 +1750,8 @@ impl Adapton for DCG {
                             Node::Pure(_)=> unreachable!(),
                             Node::Mut(ref nd) => {
                                 // The computation replaces the value, but inherits its observers
-                                // and allocators.  Observers that projected the value
-                                // (`force_map`) now depend on all of the computation's result.
-                                preds = nd.preds.iter().map(|pred| Pred{dep:None, ..pred.clone()}).collect();
+                                // and allocators.
+                                preds = nd.preds.clone();
                                 (true, true, false)
                             },
                             Node::Comp(ref mut comp_nd) => {
-- 
2.43.0


From e9101824ed3209d47532ff39a70df9c78f7b63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 21/33] fix: ListElim::is_name recognized cons cells instead of
 names

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 1bed4ab..7cb26d9 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -110,8 +110,8 @@ pub trait ListElim<X> : Debug+Clone+Hash+PartialEq+Eq {
   fn is_name (list:&Self) -> bool {
     Self::elim(list,
                |_|   false,
-               |_,_| true,
-               |_,_| false)
+               |_,_| false,
+               |_,_| true)
   }
 }
 
-- 
2.43.0


From a62771e87c4a3843baf3f1638d438fca6c43c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 22/33] fix: prune_tree_of_tree overwrote the memoized subtrees
 it observes with cells of the same name

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 7cb26d9..2ce5587 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -843,8 +843,8 @@ pub fn prune_tree_of_tree
     (tree,
      Rc::new(||          Ti::nil()),
      Rc::new(|x|         Ti::leaf(x)),
-     Rc::new(|lev,l,r|   bin_arts_niltest(None, lev, l, r)),
-     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))
+     Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
+     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
      )
 }
 
-- 
2.43.0


From bf4fbbf835ef17108f616e99bd40c8a96b19279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:18 +0000
Subject: [PATCH 23/33] fix: tree_of_list used names at two types when a list's
 names are forks of one another over time

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 2ce5587..0b1ac25 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -711,7 +711,7 @@ pub fn tree_of_list_rec
           Dir2::Left  => T::name ( nm.clone(), lev_nm.clone(), tree,  tree2 ),
           Dir2::Right => T::name ( nm.clone(), lev_nm.clone(), tree2, tree  ),
         } ;
-        let art = cell(nm, tree3) ;
+        let art = ns(name_unit(), || cell(nm, tree3)) ;
         let tree3 = T::art( art ) ;
         let (_, (tree, rest)) =
           eager!(nm2 =>> tree_of_list_rec,
-- 
2.43.0


From 5d6b7099a81619462e4874793f9406f689ad632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 24/33] fix: mergesort_list_of_tree2 merged twice under one
 name, giving wrong or endless lists

---
 src/catalog/collections.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 0b1ac25..d06b4f4 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -1000,7 +1000,8 @@ pub fn mergesort_list_of_tree2
      Rc::new(|_,|         L::nil()),
      Rc::new(|m,x|        list_name_op(m, L::singleton(x))),
      Rc::new(|_,    _, l, r| { list_merge_wrapper(None, l, None, r) }),
-     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(n), r) }),
+     // The name goes to the leftmost leaf on the right; using it here as well would use it twice.
+     Rc::new(|_, _, _, l, r| { list_merge_wrapper(None, l, None, r) }),
      )
 }
 
-- 
2.43.0


From 813458a48c8bea7dd0a5d592724fe3bc8cd6b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 25/33] fix: mergesort_list_of_tree shared names between
 merging and folding over the tree

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d06b4f4..e6135cc 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -975,9 +975,9 @@ pub fn mergesort_list_of_tree
     (tree,
      Rc::new(||           L::nil()),
      Rc::new(|x|          L::singleton(x)),
-     Rc::new(|_, l, r|    { list_merge(None, l, None, r) }),
+     Rc::new(|_, l, r|    { list_merge_wrapper(None, l, None, r) }),
      Rc::new(|n, _, l, r| { let (n1,n2) = name_fork(n);
-                            list_merge(Some(n1), l, Some(n2), r) }),
+                            list_merge_wrapper(Some(n1), l, Some(n2), r) }),
      )
 }
 
-- 
2.43.0


From 577d5e7f192f44ca35fb03d836dae4c440d3496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 26/33] fix: eager! keeps the type instances of a generic
 function apart

---
 src/macros.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 83c0d92..b1f5624 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -722,7 +722,7 @@ macro_rules! eager {
   ( $nm:expr =>> $f:ident :: < $( $ty:ty ),* > , $( $lab:ident : $arg:expr ),* ) => {{
     let t = thunk
       (NameChoice::Nominal($nm),
-       prog_pt!(stringify!($f)),
+       prog_pt!(stringify!($f::<$($ty),*>)),
        Rc::new(Box::new(
          |args, _|{
            let ($( $lab ),*) = args ;
@@ -754,7 +754,7 @@ macro_rules! eager {
   ( $f:ident :: < $( $ty:ty ),* > , $( $lab:ident : $arg:expr ),* ) => {{
     let t = thunk
       (NameChoice::Structural,
-       prog_pt!(stringify!($f)),
+       prog_pt!(stringify!($f::<$($ty),*>)),
        Rc::new(Box::new(
          |args, _|{
            let ($( $lab ),*) = args ;
@@ -786,7 +786,7 @@ macro_rules! eager {
   ( $nm:expr =>> $f:ident =>> < $( $ty:ty ),* > , $( $lab1:ident : $arg1:expr ),* ;; $( $lab2:ident : $arg2:expr ),* ) => {{
     let t = thunk
       (NameChoice::Nominal($nm),
-       prog_pt!(stringify!($f)),
+       prog_pt!(stringify!($f::<$($ty),*>)),
        Rc::new(Box::new(
          |args1, args2|{
            let ($( $lab1 ),*, _) = args1 ;
-- 
2.43.0


From 6e9b4a91120dfd67fbd4d9ecced434a79a466769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 27/33] fix: structural thunks of different types are kept
 apart

---
 src/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 93e781d..3df0eef 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1684,7 +1684,9 @@ impl Adapton for DCG {
             // Name the computation structurally, based on the args and prog point.
             NameChoice::Structural => {
                 wf::check_dcg(self);
-                let hash = my_hash (&(&prog_pt, &arg)) ;
+                // Equal hashes do not imply equal types; a generic function has one
+                // program point, but many instances.
+                let hash = my_hash (&(&prog_pt, TypeId::of::<(Arg,Res)>(), &arg)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
                 {   // If the node exists, return early.
-- 
2.43.0


From 99a978bbfbfd5f3f2052d5a8404bac2ae21d3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 28/33] fix: the argument type of a named thunk is checked, not
 assumed

---
 src/engine.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 3df0eef..9f22054 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -9,7 +9,7 @@ demonstrates the [Adapton programming model](https://docs.rs/adapton/0/adapton/i
 
  */
 
-use core::any::TypeId;
+use core::any::{Any,TypeId};
 use core::marker::PhantomData;
 
 use std::cell::RefCell;
@@ -710,11 +710,8 @@ trait Producer<Res> : Debug {
     fn copy(self:&Self) -> Box<dyn Producer<Res>>;
     fn eq(self:&Self, other:&dyn Producer<Res>) -> bool;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
-}
-// Consume a value of type Arg.
-trait Consumer<Arg> : Debug {
-    fn consume(self:&mut Self, _: Arg);
-    fn get_arg(self:&mut Self) -> Arg;
+    /// The argument, whose type is hidden; check it dynamically.
+    fn arg_mut<'r>(self:&'r mut Self) -> &'r mut dyn Any;
 }
 // struct App is hidden by traits Comp<Res> and CompWithArg<Res>, below.
 #[derive(Clone)]
@@ -761,6 +758,9 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt {
         & self.prog_pt
     }
+    fn arg_mut<'r>(self:&'r mut Self) -> &'r mut dyn Any {
+        &mut self.arg
+    }
     fn eq (&self, other:&dyn Producer<Res>) -> bool {
         if &self.prog_pt == other.prog_pt() {
             let other = Box::new(other) ;
@@ -773,13 +773,6 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
         }
     }
 }
-impl<Arg:Clone+PartialEq+Eq+Debug,Spurious,Res>
-    Consumer<Arg> for
-    App<Arg,Spurious,Res>
-{
-    fn consume(self:&mut Self, arg:Arg) { self.arg = arg; }
-    fn get_arg(self:&mut Self) -> Arg   { self.arg.clone() }
-}
 
 // ----------- Location resolution:
 
@@ -1759,18 +1752,25 @@ impl Adapton for DCG {
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
                                     comp_nd.producer.prog_pt().eq( producer.prog_pt() ) ;
-                                if equal_producer_prog_pts { // => safe cast to Box<Consumer<Arg>>
-                                    let app: &mut Box<App<Arg,Spurious,Res>> =
-                                    // TODO-Soon: Follow pattern above for assert_graphnode_res_type to dynamically check the safety of this cast
-                                        unsafe { transmute::<_,_>( &mut comp_nd.producer ) }
-                                    ;
-                                    if app.get_arg() == arg {
+                                if equal_producer_prog_pts {
+                                    // Equal program points do not imply equal argument types
+                                    // (e.g., for the instances of a generic function).
+                                    let old_arg: &mut Arg =
+                                        match comp_nd.producer.arg_mut().downcast_mut() {
+                                            Some(old_arg) => old_arg,
+                                            None => panic!("\
+            Adapton engine: Detected a dynamic type error, possibly due to an ambiguous name:
+\t              at location: {:?}
+\t             for function: {:?}
+\tits argument's type changed", loc, prog_pt)
+                                        };
+                                    if *old_arg == arg {
                                         // Case: Same argument; Nothing else to do:
                                         // do_dirty=false; do_insert=false
                                         (false, false, false)
                                     }
                                     else { // Case: Not the same argument:
-                                        app.consume(arg.clone()); // overwrite the old argument
+                                        *old_arg = arg.clone(); // overwrite the old argument
                                         comp_nd.res = None ; // clear the cache
                                         // do_dirty=true; do_insert=false
                                         (true, false, false)
-- 
2.43.0


From 60484b189408a4f1fa3d6beb502ec041263acb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 29/33] fix: equality of native thunks checks the types of
 their arguments

---
 src/engine.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 9f22054..45941f4 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2203,6 +2203,8 @@ trait Force<T> {
     fn eq(self:&Self, other:&dyn Force<T>) -> bool;
     fn id<'r>(self:&'r Self) -> &'r NameChoice;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
+    /// The argument, whose type is hidden; check it dynamically.
+    fn arg<'r>(self:&'r Self) -> &'r dyn Any;
     fn hash_u64(self:&Self) -> u64;
     fn fmt(&self, f:&mut Formatter) -> fmt::Result;
 }
@@ -2233,6 +2235,9 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt {
         & self.prog_pt
     }
+    fn arg<'r>(self:&'r Self) -> &'r dyn Any {
+        & self.arg
+    }
     fn id<'r>(self:&'r Self) -> &'r NameChoice {
         & self.id
     }
@@ -2247,11 +2252,12 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
         if   &self.id      == other.id()
             && &self.prog_pt == other.prog_pt()
         {
-            let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
-            let other : &Box<NaiveThunk<A,S,T>> = unsafe { transmute::<_,_>( other ) } ;
-            self.arg == other.arg
+            // Equal program points do not imply equal argument types
+            // (e.g., for the instances of a generic function).
+            match other.arg().downcast_ref::<A>() {
+                Some(other_arg) => &self.arg == other_arg,
+                None => false,
+            }
         } else {
             false
         }
-- 
2.43.0


From 0536c0d6408250a354cdf049d4bb1c79d506644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 30/33] fix: reflect identifiers that are not ASCII

parse_val's lexer ended identifiers at (and panicked on) non-ASCII
characters, which Rust allows in the names of types, constructors and
fields.
---
 src/parse_val.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index bdc87f6..7d2c3eb 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -160,7 +160,8 @@ fn lex (mut chars: Vec<char>) -> Vec<Tok> {
                 }
                 else if (c >= 'a' && c <= 'z') ||
                     (c >= 'A' && c <= 'Z') ||
-                    (c == '_') 
+                    (c == '_') ||
+                    (!c.is_ascii()) // outside of strings, only in identifiers
                 {
                     let mut ident = vec![c];
                     loop {
@@ -170,7 +171,8 @@ fn lex (mut chars: Vec<char>) -> Vec<Tok> {
                                 if (c >= 'a' && c <= 'z') ||
                                     (c >= 'A' && c <= 'Z') ||
                                     (c >= '0' && c <= '9') ||
-                                    (c == '_')  
+                                    (c == '_') ||
+                                    (!c.is_ascii())
                                 {
                                     ident.push(c); 
                                     continue 
-- 
2.43.0


From ed5ad14066fe38bc9dd3bcabc9499c158941081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:06 +0000
Subject: [PATCH 31/33] fix: quote locations in graph files

---
 src/engine.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 45941f4..a460653 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2781,31 +2781,36 @@ mod wf {
         write_dcg_file(st, &mut file);
     }
 
+    /// A location as a quoted identifier, within which quotes are escaped
+    fn dot_id (loc:&Rc<Loc>) -> String {
+        format!("{:?}", format!("{:?}", loc))
+    }
+
     pub fn write_dcg_file (st:&DCG, file:&mut File) {
         let mut writer = BufWriter::new(file);
         writeln!(&mut writer, "digraph {{\n").unwrap();
         writeln!(&mut writer, "ordering=out;").unwrap();
         for frame in st.stack.iter() {
-            writeln!(&mut writer, "\"{:?}\" [color=blue,penwidth=10];", frame.loc).unwrap();
+            writeln!(&mut writer, "{} [color=blue,penwidth=10];", dot_id(&frame.loc)).unwrap();
             for succ in frame.succs.iter() {
-                writeln!(&mut writer, "\"{:?}\" -> \"{:?}\" [color=blue,weight=10,penwidth=10];", &frame.loc, &succ.0.loc).unwrap();
+                writeln!(&mut writer, "{} -> {} [color=blue,weight=10,penwidth=10];", dot_id(&frame.loc), dot_id(&succ.0.loc)).unwrap();
             }
         };
         for (loc, node) in &st.table {
             if ! node.succs_def () {
-                writeln!(&mut writer, "\"{:?}\" [shape=box];", loc).unwrap();
+                writeln!(&mut writer, "{} [shape=box];", dot_id(loc)).unwrap();
                 continue;
             } ;
             for succ in node.succs () {
                 if succ.dirty {
-                    writeln!(&mut writer, "\"{:?}\" -> \"{:?}\" [color=red,weight=5,penwidth=5];", &loc, &succ.loc).unwrap();
+                    writeln!(&mut writer, "{} -> {} [color=red,weight=5,penwidth=5];", dot_id(loc), dot_id(&succ.loc)).unwrap();
                 } else {
                     let (weight, penwidth, color) =
                         match succ.effect {
                             super::Effect::Observe => (0.1, 1, "grey"),
                             super::Effect::Allocate => (2.0, 3, "darkgreen") } ;
-                    writeln!(&mut writer, "\"{:?}\" -> \"{:?}\" [weight={},penwidth={},color={}];",
-                             &loc, &succ.loc, weight, penwidth, color).unwrap();
+                    writeln!(&mut writer, "{} -> {} [weight={},penwidth={},color={}];",
+                             dot_id(loc), dot_id(&succ.loc), weight, penwidth, color).unwrap();
                 }
             }
         }
-- 
2.43.0


From 81fc712357384e89e4dc95cabeb2a15171efbb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:18 +0000
Subject: [PATCH 32/33] fix: write a graph file when only its edges have
 changed

---
 src/engine.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index a460653..ba64266 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2748,7 +2748,10 @@ mod wf {
 
     pub fn check_dcg (st:&mut DCG) {
         if st.flags.write_dcg {
-            let dcg_hash = my_hash(format!("{:?}",st.table)); // XXX: This assumes that the table's debugging string identifies it uniquely
+            // The table's debugging string tells values, the file tells edges (and frames).
+            let mut dcg_file : Vec<u8> = Vec::new();
+            write_dcg_file(st, &mut dcg_file);
+            let dcg_hash = my_hash((format!("{:?}",st.table), dcg_file));
             if dcg_hash != st.dcg_hash {
                 println!("adapton: dcg #{} hash: {:?}", st.dcg_count, dcg_hash);
                 st.dcg_hash = dcg_hash;
@@ -2786,7 +2789,7 @@ mod wf {
         format!("{:?}", format!("{:?}", loc))
     }
 
-    pub fn write_dcg_file (st:&DCG, file:&mut File) {
+    pub fn write_dcg_file<W:Write> (st:&DCG, file:&mut W) {
         let mut writer = BufWriter::new(file);
         writeln!(&mut writer, "digraph {{\n").unwrap();
         writeln!(&mut writer, "ordering=out;").unwrap();
-- 
2.43.0


From 2feb4e9454fe454e65ce7c919fa92cf67252f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:25 +0000
Subject: [PATCH 33/33] fix: The well-formedness checker handles cyclic graphs,
 and visits shared parts once

It overflowed the stack on cyclic graphs, and rejected edges that observe
a cycle value; on shared parts its time was exponential.
---
 src/engine.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index ba64266..8ba379b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2698,7 +2698,8 @@ mod wf {
 
     type Cs = HashMap<Rc<Loc>, NodeStatus> ;
 
-    fn add_constraint (cs:&mut Cs, loc:&Rc<Loc>, new_status: NodeStatus)
+    // True iff the constraint is a new one
+    fn add_constraint (cs:&mut Cs, loc:&Rc<Loc>, new_status: NodeStatus) -> bool
     {
         let old_status = match
             cs.get(loc) { None => NodeStatus::Unknown,
@@ -2708,20 +2709,25 @@ mod wf {
             (NodeStatus::Dirty, NodeStatus::Clean) => {
                 panic!("{:?}: Constrained to be both clean and dirty: Inconsistent status => DCG is not well-formed.")
             },
-            (NodeStatus::Unknown, new_status) => { cs.insert(loc.clone(), new_status); () },
-            (old_status, NodeStatus::Unknown) => { cs.insert(loc.clone(), old_status); () },
-            (ref old_status, ref new_status) if old_status == new_status => { },
+            (NodeStatus::Unknown, new_status) => { cs.insert(loc.clone(), new_status); true },
+            (old_status, NodeStatus::Unknown) => { cs.insert(loc.clone(), old_status); false },
+            (ref old_status, ref new_status) if old_status == new_status => { false },
             _ => unreachable!(),
         }
     }
 
     // Constrains loc and all predecessors (transitive) to be dirty
     fn dirty (st:&DCG, cs:&mut Cs, loc:&Rc<Loc>) {
-        add_constraint(cs, loc, NodeStatus::Dirty) ;
+        // (Visited already; the graph may have cycles, and shared parts.)
+        if ! add_constraint(cs, loc, NodeStatus::Dirty) { return } ;
         let node = match st.table.get(loc) { Some(x) => x, None => panic!("") } ;
         for (pred,_) in node.preds_obs () {
+            // (A node that observes itself never dirties that edge.)
+            if &pred == loc { continue } ;
             // Todo: Assert that pred has a dirty succ edge that targets loc
             let succ = super::get_succ(st, &pred, super::Effect::Observe, loc) ;
+            // (While `loc` is being cleaned, who closes a cycle observes the cycle value.)
+            if ! succ.dirty && st.cleaning.contains(loc) { continue } ;
             if succ.dirty {} else {
                 debug_dcg(st);
                 write_next_dcg(st, None);
@@ -2733,7 +2739,7 @@ mod wf {
 
     // Constrains loc and all successors (transitive) to be clean
     fn clean (st:&DCG, cs:&mut Cs, loc:&Rc<Loc>) {
-        add_constraint(cs, loc, NodeStatus::Clean) ;
+        if ! add_constraint(cs, loc, NodeStatus::Clean) { return } ;
         let node = match st.table.get(loc) {
             Some(x) => x,
             None => { panic!("dangling: {:?}", loc) }
-- 
2.43.0

