@# What loading a schema yields (C15)
@@ include fsys.vspec
@@ raw
pub mod loading {
use vstd::prelude::*;
use crate::shim::*;
use crate::names::*;
use crate::fsys::*;
use crate::grammar::*;
use crate::token::Token;
use crate::schema::*;
use crate::identifier::Identifier;
// C07: whether a text consists of tokens, and which (the unit `tokenizer` proves this with
// lexed(t, 0).ok and are_toks(t, ts, lexed(t, 0).toks))
pub uninterp spec fn lexes(t: Seq<char>) -> bool;
pub uninterp spec fn tokens_of(t: Seq<char>, ts: Seq<Token>) -> bool;
// the names a file path stands for: one for each component, without the extension of the last
pub open spec fn names(p: PathBuf) -> Seq<Identifier> { comps(bare(p)).map_values(|c: Comp| from_text(c->Normal_0)) }
pub open spec fn pkey(p: PathBuf) -> Seq<Seq<char>> { keys(names(p)) }
// where a schema is loaded from
pub ghost struct Place { pub base: PathBuf, pub cbase: PathBuf, pub main: PathBuf }
pub open spec fn place_of(schema_path: PathBuf, pl: Place) -> bool {
    &&& parent_of(schema_path) == Some(pl.base) &&& canonical(dir_of(pl.base)) == Some(pl.cbase) &&& name_of(schema_path) == Some(pl.main)
    &&& canonical(schema_path).is_some()
}
// the file at a path relative to the directory of the main schema
pub open spec fn file(pl: Place, p: PathBuf) -> Option<Seq<char>> { content(joined(pl.cbase, p)) }
// the file an import of the file at `p` points to, if it exists, and its path relative to the directory of the main schema
pub open spec fn pointed(pl: Place, p: PathBuf, import: PathBuf) -> Option<PathBuf> { canonical(joined(pl.base, joined(parent_of(p).unwrap(), import))) }
pub open spec fn target(pl: Place, p: PathBuf, import: PathBuf) -> Option<PathBuf> {
    match pointed(pl, p, import) { Some(c) => below(c, pl.cbase), None => None }
}
// `ts` and `s` are the tokens and the schema spelled in the file at `p`
pub open spec fn written(pl: Place, p: PathBuf, ts: Seq<Token>, s: Schema) -> bool {
    file(pl, p).is_some() && tokens_of(file(pl, p).unwrap(), ts) && grammatical(ts) && spells(ts, s)
}
pub open spec fn points(pl: Place, p: PathBuf, q: PathBuf) -> bool {
    exists|ts: Seq<Token>, s: Schema, k: Seq<char>| #[trigger] written(pl, p, ts, s) && #[trigger] s.imports@.contains_key(k)
        && target(pl, p, s.imports@[k].1.path) == Some(q)
}
pub open spec fn reached_in(pl: Place, p: PathBuf, n: nat) -> bool decreases n {
    if n == 0 { p == pl.main } else { exists|q: PathBuf| reached_in(pl, q, (n - 1) as nat) && #[trigger] points(pl, q, p) }
}
pub open spec fn reached(pl: Place, p: PathBuf) -> bool { exists|n: nat| reached_in(pl, p, n) }
// ---- why loading may fail ------------------------------------------------------------------------
pub open spec fn broken(pl: Place, p: PathBuf) -> bool {
    match file(pl, p) {
        None => true,
        Some(t) => {
            ||| !lexes(t)
            ||| exists|ts: Seq<Token>| #[trigger] tokens_of(t, ts) && !grammatical(ts)
            ||| exists|ts: Seq<Token>, s: Schema, k: Seq<char>| #[trigger] written(pl, p, ts, s) && #[trigger] s.imports@.contains_key(k)
                && target(pl, p, s.imports@[k].1.path) is None
        }
    }
}
pub open spec fn trouble(pl: Place) -> bool {
    ||| exists|p: PathBuf| reached(pl, p) && #[trigger] broken(pl, p)
    ||| exists|p: PathBuf, q: PathBuf| #[trigger] reached(pl, p) && #[trigger] reached(pl, q) && p != q && pkey(p) == pkey(q)
}
// ---- what loading yields ---------------------------------------------------------------------------
// `s` is the schema `s0` with every import annotated with the namespace of the file it points to
pub open spec fn annotated_upto(pl: Place, p: PathBuf, s0: Schema, m: Map<Seq<char>, (Identifier, Import)>, ks: Seq<Identifier>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> ({
        let a = s0.imports@[key(#[trigger] ks[i])];
        let b = m[key(ks[i])];
        if i < n { same_import(pl, p, a, b) } else { a == b }
    })
}
pub open spec fn same_import(pl: Place, p: PathBuf, a: (Identifier, Import), b: (Identifier, Import)) -> bool {
    b.0 == a.0 && b.1.source_range == a.1.source_range && b.1.path == a.1.path && target(pl, p, a.1.path) is Some
        && b.1.namespace is Some && b.1.namespace.unwrap().components@ == names(target(pl, p, a.1.path).unwrap())
}
pub open spec fn annotated(pl: Place, p: PathBuf, s0: Schema, s: Schema) -> bool {
    &&& s.comment == s0.comment && s.declarations == s0.declarations && s.imports@.dom() == s0.imports@.dom()
    &&& forall|k: Seq<char>| #[trigger] s0.imports@.contains_key(k) ==> same_import(pl, p, s0.imports@[k], s.imports@[k])
}
pub open spec fn targets_in(pl: Place, p: PathBuf, s0: Schema, vs: Set<PathBuf>) -> bool {
    forall|k: Seq<char>| #[trigger] s0.imports@.contains_key(k) ==> target(pl, p, s0.imports@[k].1.path) is Some && vs.contains(target(pl, p, s0.imports@[k].1.path).unwrap())
}
pub type Loaded = (Namespace, (Schema, PathBuf, String));
// the entry holds the file at `p`, whose imports lead to files in `vs`
pub open spec fn entry(pl: Place, p: PathBuf, vs: Set<PathBuf>, e: Loaded) -> bool {
    &&& e.0.components@ == names(p) &&& e.1.1 == p &&& file(pl, p) == Some(e.1.2@)
    &&& exists|ts: Seq<Token>, s0: Schema| #[trigger] written(pl, p, ts, s0) && annotated(pl, p, s0, e.1.0) && targets_in(pl, p, s0, vs)
}
pub open spec fn stored(pl: Place, done: Set<PathBuf>, vs: Set<PathBuf>, m: Map<Seq<Seq<char>>, Loaded>) -> bool {
    &&& forall|p: PathBuf| #[trigger] done.contains(p) ==> m.contains_key(pkey(p)) && entry(pl, p, vs, m[pkey(p)])
    &&& forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) ==> exists|p: PathBuf| #[trigger] done.contains(p) && pkey(p) == k
}
// exactly the main schema and the files its imports lead to, each once, under its own name
pub open spec fn collected(pl: Place, vs: Set<PathBuf>, m: Map<Seq<Seq<char>>, Loaded>) -> bool {
    &&& vs.contains(pl.main)
    &&& forall|p: PathBuf| #[trigger] vs.contains(p) ==> reached(pl, p)
    &&& stored(pl, vs, vs, m)
}
pub open spec fn loaded(schema_path: PathBuf, m: Map<Seq<Seq<char>>, Loaded>) -> bool {
    exists|pl: Place, vs: Set<PathBuf>| #[trigger] place_of(schema_path, pl) && #[trigger] collected(pl, vs, m)
}
// ---- the traversal -------------------------------------------------------------------------------------
pub type Item = (Namespace, PathBuf, Option<(PathBuf, String)>);
pub open spec fn universe(pl: Place) -> Set<PathBuf> { existing().map(|c: PathBuf| below(c, pl.cbase).unwrap()).insert(pl.main) }
pub open spec fn known(pl: Place, vs: Set<PathBuf>) -> bool {
    vs.contains(pl.main) && forall|p: PathBuf| #[trigger] vs.contains(p) ==> clean(p) && reached(pl, p) && universe(pl).contains(p)
}
pub open spec fn frontier(vs: Set<PathBuf>, st: Seq<Item>, done: Set<PathBuf>) -> bool {
    &&& done.subset_of(vs)
    &&& forall|i: int| 0 <= i < st.len() ==> vs.contains((#[trigger] st[i]).1) && !done.contains(st[i].1) && st[i].0.components@ == names(st[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < st.len() ==> (#[trigger] st[i]).1 != (#[trigger] st[j]).1
}
pub open spec fn waits(st: Seq<Item>, p: PathBuf) -> bool { exists|i: int| 0 <= i < st.len() && (#[trigger] st[i]).1 == p }
pub open spec fn covered(vs: Set<PathBuf>, st: Seq<Item>, done: Set<PathBuf>) -> bool {
    forall|p: PathBuf| #[trigger] vs.contains(p) ==> done.contains(p) || waits(st, p)
}
pub proof fn lemma_start(pl: Place, st: Seq<Item>)
    requires st.len() == 1, st[0].1 == pl.main, st[0].0.components@ == names(pl.main), clean(pl.main)
    ensures known(pl, set![pl.main]), frontier(set![pl.main], st, Set::empty()), covered(set![pl.main], st, Set::empty()), set![pl.main].len() == 1
{ assert(reached_in(pl, pl.main, 0)); assert(st[0].1 == pl.main); }
pub proof fn lemma_pop(vs: Set<PathBuf>, st: Seq<Item>, done: Set<PathBuf>)
    requires st.len() > 0, frontier(vs, st, done)
    ensures frontier(vs, st.drop_last(), done.insert(st.last().1)), covered(vs, st, done) ==> covered(vs, st.drop_last(), done.insert(st.last().1)),
        vs.contains(st.last().1), !done.contains(st.last().1), st.last().0.components@ == names(st.last().1)
{
    let s2 = st.drop_last(); let d2 = done.insert(st.last().1);
    assert forall|p: PathBuf| covered(vs, st, done) && #[trigger] vs.contains(p) implies d2.contains(p) || waits(s2, p) by {
        if !done.contains(p) { let i = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).1 == p; if i < s2.len() { assert(s2[i].1 == p); } }
    }
}
pub proof fn lemma_push(pl: Place, vs: Set<PathBuf>, st: Seq<Item>, done: Set<PathBuf>, x: Item)
    requires frontier(vs, st, done), !vs.contains(x.1), x.0.components@ == names(x.1), known(pl, vs), clean(x.1), reached(pl, x.1), universe(pl).contains(x.1)
    ensures frontier(vs.insert(x.1), st.push(x), done), covered(vs, st, done) ==> covered(vs.insert(x.1), st.push(x), done), known(pl, vs.insert(x.1)), vs.insert(x.1).len() == vs.len() + 1
{
    let s2 = st.push(x);
    assert forall|p: PathBuf| covered(vs, st, done) && #[trigger] vs.insert(x.1).contains(p) implies done.contains(p) || waits(s2, p) by {
        if p == x.1 { assert(s2[st.len() as int].1 == p); }
        else { assert(vs.contains(p)); if !done.contains(p) { let i = choose|i: int| 0 <= i < st.len() && (#[trigger] st[i]).1 == p; assert(s2[i].1 == p); } }
    }
}
pub proof fn lemma_room(pl: Place, vs: Set<PathBuf>) requires known(pl, vs) ensures vs.len() <= universe(pl).len()
{ assert(vs.subset_of(universe(pl))); vstd::set_lib::lemma_len_subset(vs, universe(pl)); }
pub proof fn lemma_reach(pl: Place, p: PathBuf, q: PathBuf) requires reached(pl, p), points(pl, p, q) ensures reached(pl, q)
{ let n = choose|n: nat| reached_in(pl, p, n); let m = (n + 1) as nat; assert(reached_in(pl, p, (m - 1) as nat)); assert(reached_in(pl, q, m)); }
pub proof fn lemma_points(pl: Place, p: PathBuf, ts: Seq<Token>, s: Schema, k: Seq<char>, q: PathBuf)
    requires written(pl, p, ts, s), s.imports@.contains_key(k), target(pl, p, s.imports@[k].1.path) == Some(q)
    ensures points(pl, p, q), universe(pl).contains(q)
{ axiom_existing(joined(pl.base, joined(parent_of(p).unwrap(), s.imports@[k].1.path))); let c = pointed(pl, p, s.imports@[k].1.path).unwrap();
  let f = |c: PathBuf| below(c, pl.cbase).unwrap(); assert(existing().map(f).contains(f(c))) by { assert(existing().contains(c)); } }
pub proof fn lemma_stray(pl: Place, p: PathBuf, ts: Seq<Token>, s: Schema, k: Seq<char>)
    requires reached(pl, p), written(pl, p, ts, s), s.imports@.contains_key(k), target(pl, p, s.imports@[k].1.path) is None
    ensures trouble(pl)
{ assert(broken(pl, p)); }
pub proof fn lemma_more(pl: Place, done: Set<PathBuf>, vs: Set<PathBuf>, ws: Set<PathBuf>, m: Map<Seq<Seq<char>>, Loaded>)
    requires vs.subset_of(ws)
    ensures stored(pl, done, vs, m) ==> stored(pl, done, ws, m)
{
    if stored(pl, done, vs, m) {
        assert forall|p: PathBuf| #[trigger] done.contains(p) implies m.contains_key(pkey(p)) && entry(pl, p, ws, m[pkey(p)]) by {
            let e = m[pkey(p)]; assert(entry(pl, p, vs, e));
            let (ts, s0) = choose|ts: Seq<Token>, s0: Schema| #[trigger] written(pl, p, ts, s0) && annotated(pl, p, s0, e.1.0) && targets_in(pl, p, s0, vs);
            assert(written(pl, p, ts, s0) && annotated(pl, p, s0, e.1.0) && targets_in(pl, p, s0, ws));
        }
    }
}
pub proof fn lemma_store(pl: Place, done: Set<PathBuf>, vs: Set<PathBuf>, m: Map<Seq<Seq<char>>, Loaded>, p: PathBuf, e: Loaded)
    requires stored(pl, done, vs, m), entry(pl, p, vs, e), !m.contains_key(pkey(p)), !done.contains(p)
    ensures stored(pl, done.insert(p), vs, m.insert(pkey(p), e))
{
    let m2 = m.insert(pkey(p), e); let d2 = done.insert(p);
    assert forall|q: PathBuf| #[trigger] d2.contains(q) implies m2.contains_key(pkey(q)) && entry(pl, q, vs, m2[pkey(q)]) by {
        if q != p { assert(done.contains(q)); }
    }
    assert forall|k: Seq<Seq<char>>| #[trigger] m2.contains_key(k) implies exists|q: PathBuf| #[trigger] d2.contains(q) && pkey(q) == k by {
        if k == pkey(p) { assert(d2.contains(p)); } else { let q = choose|q: PathBuf| #[trigger] done.contains(q) && pkey(q) == k; assert(d2.contains(q)); }
    }
}
pub proof fn lemma_clash(pl: Place, done: Set<PathBuf>, vs: Set<PathBuf>, m: Map<Seq<Seq<char>>, Loaded>, p: PathBuf)
    requires known(pl, vs), done.subset_of(vs), vs.contains(p), !done.contains(p), stored(pl, done, vs, m), m.contains_key(pkey(p))
    ensures trouble(pl)
{ let q = choose|q: PathBuf| #[trigger] done.contains(q) && pkey(q) == pkey(p); assert(vs.contains(q)); assert(reached(pl, p) && reached(pl, q) && p != q); }
pub proof fn lemma_all_annotated(pl: Place, p: PathBuf, s0: Schema, s: Schema, ks: Seq<Identifier>)
    requires listed(s0.imports@, ks), annotated_upto(pl, p, s0, s.imports@, ks, ks.len() as int), alike(s0, s)
    ensures annotated(pl, p, s0, s)
{
    assert(s.imports@.dom() =~= s0.imports@.dom());
    assert forall|k: Seq<char>| #[trigger] s0.imports@.contains_key(k) implies same_import(pl, p, s0.imports@[k], s.imports@[k]) by {
        let i = choose|i: int| 0 <= i < ks.len() && key(#[trigger] ks[i]) == k; assert(key(ks[i]) == k);
    }
}
// the imports before the n-th lead to files in `vs`
pub open spec fn targets_upto(pl: Place, p: PathBuf, s0: Schema, ks: Seq<Identifier>, n: int, vs: Set<PathBuf>) -> bool {
    forall|i: int| 0 <= i < n ==> target(pl, p, s0.imports@[key(#[trigger] ks[i])].1.path) is Some && vs.contains(target(pl, p, s0.imports@[key(ks[i])].1.path).unwrap())
}
pub proof fn lemma_all_targets(pl: Place, p: PathBuf, s0: Schema, ks: Seq<Identifier>, vs: Set<PathBuf>)
    requires listed(s0.imports@, ks), targets_upto(pl, p, s0, ks, ks.len() as int, vs)
    ensures targets_in(pl, p, s0, vs)
{
    assert forall|k: Seq<char>| #[trigger] s0.imports@.contains_key(k) implies target(pl, p, s0.imports@[k].1.path) is Some && vs.contains(target(pl, p, s0.imports@[k].1.path).unwrap()) by {
        let i = choose|i: int| 0 <= i < ks.len() && key(#[trigger] ks[i]) == k; assert(key(ks[i]) == k);
    }
}
// nothing but the namespaces of the imports differs so far
pub open spec fn alike(s0: Schema, s: Schema) -> bool {
    &&& s.comment == s0.comment && s.declarations == s0.declarations
    &&& forall|k: Seq<char>| #[trigger] s.imports@.contains_key(k) == #[trigger] s0.imports@.contains_key(k)
    &&& forall|k: Seq<char>| #[trigger] s0.imports@.contains_key(k) ==> s.imports@[k].0 == s0.imports@[k].0 && s.imports@[k].1.path == s0.imports@[k].1.path
        && s.imports@[k].1.source_range == s0.imports@[k].1.source_range
}
}
