@# Loading depends on the contents of the files only, not on where they are or how the path is spelled (C19)
@@ raw
pub mod purity {
use vstd::prelude::*;
use crate::shim::*;
use crate::names::*;
use crate::fsys::*;
use crate::grammar::*;
use crate::token::Token;
use crate::schema::*;
use crate::identifier::Identifier;
use crate::loading::*;
// tokenizing is a function of the text (the unit `tokenizer` determines the tokens of a text)
pub axiom fn axiom_tokens(t: Seq<char>, a: Seq<Token>, b: Seq<Token>) requires tokens_of(t, a), tokens_of(t, b) ensures a == b;
// another way to write the directory of the main schema: what lies below it has the same canonical path
pub axiom fn axiom_spelling(b: PathBuf, c: PathBuf, x: PathBuf)
    requires canonical(dir_of(b)) is Some, canonical(dir_of(b)) == canonical(dir_of(c))
    ensures canonical(joined(b, x)) == canonical(joined(c, x));
// the two paths name the same file in the same directory
pub open spec fn same_place(a: Place, b: Place) -> bool { a.cbase == b.cbase && a.main == b.main }
pub open spec fn placed_at(pl: Place) -> bool { canonical(dir_of(pl.base)) == Some(pl.cbase) }
pub proof fn lemma_target(a: Place, b: Place, p: PathBuf, import: PathBuf)
    requires placed_at(a), placed_at(b), same_place(a, b)
    ensures target(a, p, import) == target(b, p, import), file(a, p) == file(b, p)
{ axiom_spelling(a.base, b.base, joined(parent_of(p).unwrap(), import)); }
pub proof fn lemma_imports(ts: Seq<Token>, s: Schema, t: Schema)
    requires spells(ts, s), spells(ts, t)
    ensures s.imports@.dom() == t.imports@.dom(), forall|k: Seq<char>| #[trigger] s.imports@.contains_key(k) ==> s.imports@[k].0 == t.imports@[k].0
        && s.imports@[k].1.path == t.imports@[k].1.path && s.imports@[k].1.source_range == t.imports@[k].1.source_range
{
    let st = import_list(ts, after_opening(ts)).starts;
    let ks = import_keys(ts, st);
    assert forall|k: Seq<char>| #[trigger] s.imports@.contains_key(k) implies s.imports@[k].0 == t.imports@[k].0
        && s.imports@[k].1.path == t.imports@[k].1.path && s.imports@[k].1.source_range == t.imports@[k].1.source_range by {
        assert(ks.to_set().contains(k));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
        assert(ks[i] == key(import_name(ts, st[i])));
        assert(is_import(ts, st[i], s.imports@[k].1)); assert(is_import(ts, st[i], t.imports@[k].1));
    }
}
pub proof fn lemma_written(a: Place, b: Place, p: PathBuf, ts: Seq<Token>, s: Schema)
    requires placed_at(a), placed_at(b), same_place(a, b)
    ensures written(a, p, ts, s) == written(b, p, ts, s)
{ lemma_target(a, b, p, p); }
pub proof fn lemma_reached(a: Place, b: Place, p: PathBuf, n: nat)
    requires placed_at(a), placed_at(b), same_place(a, b), reached_in(a, p, n)
    ensures reached_in(b, p, n)
    decreases n
{
    if n > 0 {
        let q = choose|q: PathBuf| reached_in(a, q, (n - 1) as nat) && #[trigger] points(a, q, p);
        lemma_reached(a, b, q, (n - 1) as nat);
        let (ts, s, k) = choose|ts: Seq<Token>, s: Schema, k: Seq<char>| #[trigger] written(a, q, ts, s) && #[trigger] s.imports@.contains_key(k)
            && target(a, q, s.imports@[k].1.path) == Some(p);
        lemma_written(a, b, q, ts, s); lemma_target(a, b, q, s.imports@[k].1.path);
        assert(points(b, q, p));
        assert(reached_in(b, q, (n - 1) as nat) && points(b, q, p));
    }
}
// what was collected is everything reached
pub proof fn lemma_complete(pl: Place, vs: Set<PathBuf>, m: Map<Seq<Seq<char>>, Loaded>, p: PathBuf, n: nat)
    requires collected(pl, vs, m), reached_in(pl, p, n)
    ensures vs.contains(p)
    decreases n
{
    if n > 0 {
        let q = choose|q: PathBuf| reached_in(pl, q, (n - 1) as nat) && #[trigger] points(pl, q, p);
        lemma_complete(pl, vs, m, q, (n - 1) as nat);
        let e = m[pkey(q)];
        assert(entry(pl, q, vs, e));
        let (ts, s, k) = choose|ts: Seq<Token>, s: Schema, k: Seq<char>| #[trigger] written(pl, q, ts, s) && #[trigger] s.imports@.contains_key(k)
            && target(pl, q, s.imports@[k].1.path) == Some(p);
        let (t2, s2) = choose|t2: Seq<Token>, s2: Schema| #[trigger] written(pl, q, t2, s2) && annotated(pl, q, s2, e.1.0) && targets_in(pl, q, s2, vs);
        axiom_tokens(file(pl, q).unwrap(), ts, t2);
        lemma_imports(ts, s, s2);
        assert(s2.imports@.contains_key(k));
    }
}
// the same schema, as far as its views go
pub open spec fn same_schema(a: Schema, b: Schema) -> bool {
    &&& a.imports@.dom() == b.imports@.dom()
    &&& forall|k: Seq<char>| #[trigger] a.imports@.contains_key(k) ==> a.imports@[k].0 == b.imports@[k].0 && a.imports@[k].1.path == b.imports@[k].1.path
        && a.imports@[k].1.source_range == b.imports@[k].1.source_range && a.imports@[k].1.namespace is Some && b.imports@[k].1.namespace is Some
        && a.imports@[k].1.namespace.unwrap().components@ == b.imports@[k].1.namespace.unwrap().components@
    &&& exists|ts: Seq<Token>, s: Schema, t: Schema| #[trigger] spells(ts, s) && #[trigger] spells(ts, t) && a.comment == s.comment && b.comment == t.comment
        && a.declarations == s.declarations && b.declarations == t.declarations
}
pub open spec fn same_entry(a: Loaded, b: Loaded) -> bool { a.0.components@ == b.0.components@ && a.1.1 == b.1.1 && a.1.2@ == b.1.2@ && same_schema(a.1.0, b.1.0) }
pub proof fn lemma_entries(a: Place, b: Place, vs: Set<PathBuf>, p: PathBuf, x: Loaded, y: Loaded)
    requires placed_at(a), placed_at(b), same_place(a, b), entry(a, p, vs, x), entry(b, p, vs, y)
    ensures same_entry(x, y)
{
    lemma_target(a, b, p, p);
    let (ts, s) = choose|ts: Seq<Token>, s: Schema| #[trigger] written(a, p, ts, s) && annotated(a, p, s, x.1.0) && targets_in(a, p, s, vs);
    let (us, t) = choose|us: Seq<Token>, t: Schema| #[trigger] written(b, p, us, t) && annotated(b, p, t, y.1.0) && targets_in(b, p, t, vs);
    axiom_tokens(file(a, p).unwrap(), ts, us);
    lemma_imports(ts, s, t);
    assert forall|k: Seq<char>| #[trigger] x.1.0.imports@.contains_key(k) implies x.1.0.imports@[k].0 == y.1.0.imports@[k].0 && x.1.0.imports@[k].1.path == y.1.0.imports@[k].1.path
        && x.1.0.imports@[k].1.source_range == y.1.0.imports@[k].1.source_range && x.1.0.imports@[k].1.namespace is Some && y.1.0.imports@[k].1.namespace is Some
        && x.1.0.imports@[k].1.namespace.unwrap().components@ == y.1.0.imports@[k].1.namespace.unwrap().components@ by {
        assert(s.imports@.contains_key(k)); assert(t.imports@.contains_key(k));
        lemma_target(a, b, p, s.imports@[k].1.path);
        assert(same_import(a, p, s.imports@[k], x.1.0.imports@[k])); assert(same_import(b, p, t.imports@[k], y.1.0.imports@[k]));
    }
    assert(spells(ts, s) && spells(ts, t));
}
// Two paths to the same schema load the same schemas under the same names.
pub proof fn lemma_pure(a: PathBuf, b: PathBuf, m: Map<Seq<Seq<char>>, Loaded>, w: Map<Seq<Seq<char>>, Loaded>, c: Place, d: Place)
    requires loaded(a, m), loaded(b, w), place_of(a, c), place_of(b, d), same_place(c, d)
    ensures m.dom() == w.dom(), forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) ==> same_entry(m[k], w[k])
{
    let (x, vs) = choose|x: Place, vs: Set<PathBuf>| #[trigger] place_of(a, x) && #[trigger] collected(x, vs, m);
    let (y, us) = choose|y: Place, us: Set<PathBuf>| #[trigger] place_of(b, y) && #[trigger] collected(y, us, w);
    assert(x.cbase == c.cbase && x.main == c.main); assert(y.cbase == d.cbase && y.main == d.main);
    assert forall|p: PathBuf| vs.contains(p) == us.contains(p) by {
        if vs.contains(p) { let n = choose|n: nat| reached_in(x, p, n); lemma_reached(x, y, p, n); lemma_complete(y, us, w, p, n); }
        if us.contains(p) { let n = choose|n: nat| reached_in(y, p, n); lemma_reached(y, x, p, n); lemma_complete(x, vs, m, p, n); }
    }
    assert(vs =~= us);
    assert forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) implies w.contains_key(k) && same_entry(m[k], w[k]) by {
        let p = choose|p: PathBuf| #[trigger] vs.contains(p) && pkey(p) == k;
        assert(us.contains(p)); lemma_entries(x, y, vs, p, m[k], w[k]);
    }
    assert forall|k: Seq<Seq<char>>| #[trigger] w.contains_key(k) implies m.contains_key(k) by {
        let p = choose|p: PathBuf| #[trigger] us.contains(p) && pkey(p) == k; assert(vs.contains(p));
    }
    assert(m.dom() =~= w.dom());
}
}
