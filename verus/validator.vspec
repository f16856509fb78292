@@ include common.vspec
@@ include schema_types.vspec
@@ module schema src/schema.rs
use crate::shim::*;
use crate::error::SourceRange;
use crate::identifier::Identifier;
@@ take Schema Import Declaration DeclarationVariant Field Rule Type TypeVariant Namespace
@@ raw
impl Clone for Namespace {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@@ endmodule
@@ module validator src/validator.rs
use crate::shim::*;
use crate::error::{listing, throw, Error};
use crate::identifier::Identifier;
use crate::schema;
use vstd::prelude::*;
@@ raw
pub type Node = (schema::Namespace, Identifier);
pub type Table<'a> = Map<Node, (&'a schema::Schema, &'a schema::Declaration)>;
pub type Schemas = Map<schema::Namespace, (schema::Schema, PathBuf, String)>;

pub open spec fn max_index() -> int { 0x3fff_ffff_ffff_ffff }

// ---------- well-formedness (C09), stated from the property, not from the code ----------------
pub open spec fn declared(s: Schemas, n: Node) -> bool {
    s.contains_key(n.0) && exists|i: int| 0 <= i < s[n.0].0.declarations@.len() && (#[trigger] s[n.0].0.declarations@[i]).name == n.1
}
pub open spec fn target(sch: schema::Schema, ns: schema::Namespace, t: schema::Type) -> Option<Node>
    decreases t
{
    match t.variant {
        schema::TypeVariant::Array(inner) => target(sch, ns, *inner),
        schema::TypeVariant::Custom(Some(imp), name) => Some((sch.imports@[imp].namespace.unwrap(), name)),
        schema::TypeVariant::Custom(None, name) => Some((ns, name)),
        _ => None,
    }
}
pub open spec fn type_ok(s: Schemas, sch: schema::Schema, ns: schema::Namespace, t: schema::Type) -> bool
    decreases t
{
    match t.variant {
        schema::TypeVariant::Array(inner) => type_ok(s, sch, ns, *inner),
        schema::TypeVariant::Custom(Some(imp), name) =>
            sch.imports@.contains_key(imp) && declared(s, (sch.imports@[imp].namespace.unwrap(), name)),
        schema::TypeVariant::Custom(None, name) => declared(s, (ns, name)),
        _ => true,
    }
}
pub open spec fn used(d: schema::Declaration, i: int) -> bool {
    (0 <= i <= usize::MAX && d.deleted@.contains(i as usize)) || exists|k: int| 0 <= k < d.fields@.len() && (#[trigger] d.fields@[k]).index == i
}
pub open spec fn no_gap(d: schema::Declaration) -> bool {
    forall|i: int, j: int| 0 <= i < j && #[trigger] used(d, j) ==> #[trigger] used(d, i)
}
pub open spec fn field_ok(s: Schemas, sch: schema::Schema, ns: schema::Namespace, d: schema::Declaration, k: int) -> bool {
    let f = d.fields@[k];
    &&& (forall|j: int| 0 <= j < k ==> (#[trigger] d.fields@[j]).name != f.name)
    &&& (forall|j: int| 0 <= j < k ==> (#[trigger] d.fields@[j]).index != f.index)
    &&& !d.deleted@.contains(f.index)
    &&& f.index <= max_index()
    &&& type_ok(s, sch, ns, f.r#type)
}
pub open spec fn decl_ok(s: Schemas, sch: schema::Schema, ns: schema::Namespace, d: schema::Declaration) -> bool {
    &&& (forall|k: int| 0 <= k < d.fields@.len() ==> #[trigger] field_ok(s, sch, ns, d, k))
    &&& no_gap(d)
}
pub open spec fn name_new(sch: schema::Schema, i: int) -> bool {
    forall|j: int| 0 <= j < i ==> (#[trigger] sch.declarations@[j]).name != sch.declarations@[i].name
}
pub open spec fn file_ok(s: Schemas, sch: schema::Schema, ns: schema::Namespace) -> bool {
    &&& (forall|i: int| 0 <= i < sch.declarations@.len() ==> #[trigger] name_new(sch, i))
    &&& (forall|i: int| 0 <= i < sch.declarations@.len() ==> decl_ok(s, sch, ns, #[trigger] sch.declarations@[i]))
}
pub open spec fn well_formed(s: Schemas) -> bool {
    forall|ns: schema::Namespace| #[trigger] s.contains_key(ns) ==> file_ok(s, s[ns].0, ns)
}

// ---------- recursion (C10) ---------------------------------------------------------------------
pub open spec fn edge(s: Schemas, a: Node, b: Node) -> bool {
    s.contains_key(a.0) && exists|i: int, k: int| #![trigger s[a.0].0.declarations@[i].fields@[k]]
        0 <= i < s[a.0].0.declarations@.len() && s[a.0].0.declarations@[i].name == a.1
        && 0 <= k < s[a.0].0.declarations@[i].fields@.len()
        && target(s[a.0].0, a.0, s[a.0].0.declarations@[i].fields@[k].r#type) == Some(b)
}
pub open spec fn is_path(s: Schemas, p: Seq<Node>) -> bool {
    forall|i: int| 0 <= i < p.len() - 1 ==> edge(s, #[trigger] p[i], p[i + 1])
}
pub open spec fn is_cycle(s: Schemas, p: Seq<Node>) -> bool {
    p.len() >= 2 && p[0] == p[p.len() - 1] && is_path(s, p)
}
pub open spec fn has_cycle(s: Schemas) -> bool { exists|p: Seq<Node>| #[trigger] is_cycle(s, p) }

// every import carries a namespace of a loaded file (what the loader guarantees, C15), and the
// index arithmetic `fields + deleted` fits a machine word (collections fit in memory)
pub open spec fn loaded(s: Schemas) -> bool {
    &&& (forall|ns: schema::Namespace, imp: Identifier| #![trigger s[ns].0.imports@.contains_key(imp)]
        s.contains_key(ns) && s[ns].0.imports@.contains_key(imp) ==> s[ns].0.imports@[imp].namespace.is_some())
    &&& (forall|ns: schema::Namespace, i: int| #![trigger s[ns].0.declarations@[i]]
        s.contains_key(ns) && 0 <= i < s[ns].0.declarations@.len() ==>
            s[ns].0.declarations@[i].fields@.len() + s[ns].0.declarations@[i].deleted@.len() <= usize::MAX)
}

// lookup table built by `validate`
pub open spec fn table_ok(s: Schemas, m: Table) -> bool {
    &&& (forall|n: Node| m.contains_key(n) <==> #[trigger] declared(s, n))
    &&& (forall|n: Node| #[trigger] m.contains_key(n) ==> *m[n].0 == s[n.0].0
        && exists|i: int| 0 <= i < s[n.0].0.declarations@.len() && (#[trigger] s[n.0].0.declarations@[i]) == *m[n].1 && m[n].1.name == n.1)
}


// the same notions over the lookup table
pub open spec fn tedge(m: Table, a: Node, b: Node) -> bool {
    m.contains_key(a) && exists|k: int| 0 <= k < m[a].1.fields@.len() && target(*m[a].0, a.0, (#[trigger] m[a].1.fields@[k]).r#type) == Some(b)
}
pub open spec fn tpath(s: Table, p: Seq<Node>) -> bool {
    forall|i: int| 0 <= i < p.len() - 1 ==> tedge(s, #[trigger] p[i], p[i + 1])
}
pub open spec fn tcycle(s: Table, p: Seq<Node>) -> bool {
    p.len() >= 2 && p[0] == p[p.len() - 1] && tpath(s, p)
}
pub open spec fn thas_cycle(s: Table) -> bool { exists|p: Seq<Node>| #[trigger] tcycle(s, p) }
pub open spec fn type_resolves(m: Table, sch: schema::Schema, ns: schema::Namespace, t: schema::Type) -> bool
    decreases t
{
    match t.variant {
        schema::TypeVariant::Array(inner) => type_resolves(m, sch, ns, *inner),
        schema::TypeVariant::Custom(Some(imp), name) =>
            sch.imports@.contains_key(imp) && m.contains_key((sch.imports@[imp].namespace.unwrap(), name)),
        schema::TypeVariant::Custom(None, name) => m.contains_key((ns, name)),
        _ => true,
    }
}
pub proof fn lemma_resolves(s: Schemas, m: Table, sch: schema::Schema, ns: schema::Namespace, t: schema::Type)
    requires table_ok(s, m)
    ensures type_resolves(m, sch, ns, t) == type_ok(s, sch, ns, t)
    decreases t
{
    match t.variant {
        schema::TypeVariant::Array(inner) => { lemma_resolves(s, m, sch, ns, *inner); }
        schema::TypeVariant::Custom(Some(imp), name) => { assert(m.contains_key((sch.imports@[imp].namespace.unwrap(), name)) <==> declared(s, (sch.imports@[imp].namespace.unwrap(), name))); }
        schema::TypeVariant::Custom(None, name) => { assert(m.contains_key((ns, name)) <==> declared(s, (ns, name))); }
        _ => {}
    }
}
pub open spec fn imports_named(sch: schema::Schema) -> bool {
    forall|imp: Identifier| #[trigger] sch.imports@.contains_key(imp) ==> sch.imports@[imp].namespace.is_some()
}
// what the cycle search needs: every type mentioned anywhere resolves
pub open spec fn table_closed(m: Table) -> bool {
    forall|a: Node, k: int| #![trigger m[a].1.fields@[k]] m.contains_key(a) && 0 <= k < m[a].1.fields@.len() ==>
        imports_named(*m[a].0) && type_resolves(m, *m[a].0, a.0, m[a].1.fields@[k].r#type)
}
proof fn lemma_edges_agree(s: Schemas, m: Table, a: Node, b: Node)
    requires table_ok(s, m), well_formed(s)
    ensures edge(s, a, b) == tedge(m, a, b)
{
    if edge(s, a, b) {
        let (i, k) = choose|i: int, k: int| #![trigger s[a.0].0.declarations@[i].fields@[k]]
            0 <= i < s[a.0].0.declarations@.len() && s[a.0].0.declarations@[i].name == a.1
            && 0 <= k < s[a.0].0.declarations@[i].fields@.len()
            && target(s[a.0].0, a.0, s[a.0].0.declarations@[i].fields@[k].r#type) == Some(b);
        assert(declared(s, a));
        assert(m.contains_key(a));
        let j = choose|j: int| 0 <= j < s[a.0].0.declarations@.len() && (#[trigger] s[a.0].0.declarations@[j]) == *m[a].1;
        assert(file_ok(s, s[a.0].0, a.0));
        assert(name_new(s[a.0].0, i));
        assert(name_new(s[a.0].0, j));
        assert(i == j);
        assert(target(*m[a].0, a.0, (m[a].1.fields@[k]).r#type) == Some(b));
    }
    if tedge(m, a, b) {
        assert(m.contains_key(a) <==> declared(s, a));
        let k = choose|k: int| 0 <= k < m[a].1.fields@.len() && target(*m[a].0, a.0, (#[trigger] m[a].1.fields@[k]).r#type) == Some(b);
        let j = choose|j: int| 0 <= j < s[a.0].0.declarations@.len() && (#[trigger] s[a.0].0.declarations@[j]) == *m[a].1;
        assert(target(s[a.0].0, a.0, s[a.0].0.declarations@[j].fields@[k].r#type) == Some(b));
    }
}
pub proof fn lemma_cycles_agree(s: Schemas, m: Table)
    requires table_ok(s, m), well_formed(s)
    ensures has_cycle(s) == thas_cycle(m)
{
    if has_cycle(s) {
        let p = choose|p: Seq<Node>| #[trigger] is_cycle(s, p);
        assert forall|i: int| 0 <= i < p.len() - 1 implies tedge(m, #[trigger] p[i], p[i + 1]) by { assert(edge(s, p[i], p[i + 1])); lemma_edges_agree(s, m, p[i], p[i + 1]); }
        assert(tcycle(m, p));
    }
    if thas_cycle(m) {
        let p = choose|p: Seq<Node>| #[trigger] tcycle(m, p);
        assert forall|i: int| 0 <= i < p.len() - 1 implies edge(s, #[trigger] p[i], p[i + 1]) by { assert(tedge(m, p[i], p[i + 1])); lemma_edges_agree(s, m, p[i], p[i + 1]); }
        assert(is_cycle(s, p));
    }
}
pub proof fn lemma_table_closed(s: Schemas, m: Table)
    requires table_ok(s, m), well_formed(s), loaded(s)
    ensures table_closed(m)
{
    assert forall|a: Node, k: int| #![trigger m[a].1.fields@[k]] m.contains_key(a) && 0 <= k < m[a].1.fields@.len() implies
        imports_named(*m[a].0) && type_resolves(m, *m[a].0, a.0, m[a].1.fields@[k].r#type) by {
        assert(declared(s, a));
        let j = choose|j: int| 0 <= j < s[a.0].0.declarations@.len() && (#[trigger] s[a.0].0.declarations@[j]) == *m[a].1;
        assert(file_ok(s, s[a.0].0, a.0));
        assert(decl_ok(s, s[a.0].0, a.0, s[a.0].0.declarations@[j]));
        assert(field_ok(s, s[a.0].0, a.0, s[a.0].0.declarations@[j], k));
        lemma_resolves(s, m, s[a.0].0, a.0, m[a].1.fields@[k].r#type);
        assert forall|imp: Identifier| #[trigger] (*m[a].0).imports@.contains_key(imp) implies (*m[a].0).imports@[imp].namespace.is_some() by {
            assert(s[a.0].0.imports@.contains_key(imp));
        }
    }
}
// a set of types all of whose (transitive) contents are in the set, without recursion
pub open spec fn ordered(s: Table, o: Seq<Node>) -> bool {
    forall|i: int, b: Node| 0 <= i < o.len() && #[trigger] tedge(s, o[i], b) ==> exists|j: int| 0 <= j < i && #[trigger] o[j] == b
}
pub open spec fn dag(s: Table, c: Set<Node>) -> bool {
    exists|o: Seq<Node>| #[trigger] ordered(s, o) && (forall|x: Node| o.contains(x) <==> #[trigger] c.contains(x))
}
pub proof fn lemma_dag_empty(s: Table)
    ensures dag(s, Set::empty())
{
    let o = Seq::<Node>::empty();
    assert(ordered(s, o));
    assert forall|x: Node| o.contains(x) <==> #[trigger] Set::<Node>::empty().contains(x) by {}
}
pub proof fn lemma_dag_insert(s: Table, c: Set<Node>, q: Node)
    requires dag(s, c), forall|b: Node| #[trigger] tedge(s, q, b) ==> c.contains(b)
    ensures dag(s, c.insert(q))
{
    let o = choose|o: Seq<Node>| #[trigger] ordered(s, o) && (forall|x: Node| o.contains(x) <==> #[trigger] c.contains(x));
    let p = o.push(q);
    assert forall|i: int, b: Node| 0 <= i < p.len() && #[trigger] tedge(s, p[i], b) implies exists|j: int| 0 <= j < i && #[trigger] p[j] == b by {
        if i < o.len() {
            assert(p[i] == o[i]);
            let j = choose|j: int| 0 <= j < i && #[trigger] o[j] == b;
            assert(p[j] == b);
        } else {
            assert(c.contains(b));
            assert(o.contains(b));
            let j = choose|j: int| 0 <= j < o.len() && o[j] == b;
            assert(p[j] == b);
        }
    }
    assert forall|x: Node| p.contains(x) <==> #[trigger] c.insert(q).contains(x) by {
        if x == q { assert(p[o.len() as int] == q); }
        else {
            if o.contains(x) { let j = choose|j: int| 0 <= j < o.len() && o[j] == x; assert(p[j] == x); }
            if p.contains(x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(o[j] == x); }
        }
    }
    assert(ordered(s, p));
}
// along a path inside an ordered sequence positions strictly decrease
proof fn lemma_descend(s: Table, o: Seq<Node>, p: Seq<Node>, k: int, i: int) -> (j: int)
    requires ordered(s, o), tpath(s, p), 0 <= k < p.len(), 0 <= i < o.len(), o[i] == p[0]
    ensures 0 <= j <= i, o[j] == p[k], k > 0 ==> j < i
    decreases k
{
    if k == 0 { i } else {
        let j1 = lemma_descend(s, o, p, k - 1, i);
        assert(tedge(s, p[k - 1], p[k - 1 + 1]));
        assert(tedge(s, o[j1], p[k]));
        choose|j: int| 0 <= j < j1 && #[trigger] o[j] == p[k]
    }
}
proof fn lemma_no_cycle_at(s: Table, o: Seq<Node>, p: Seq<Node>, i: int)
    requires ordered(s, o), tcycle(s, p), 0 <= i < o.len(), o[i] == p[0]
    ensures false
    decreases i
{
    let j = lemma_descend(s, o, p, p.len() - 1, i);
    lemma_no_cycle_at(s, o, p, j);
}
pub proof fn lemma_dag_no_cycle(s: Table, c: Set<Node>)
    requires dag(s, c), forall|n: Node| #[trigger] s.contains_key(n) ==> c.contains(n)
    ensures !thas_cycle(s)
{
    if thas_cycle(s) {
        let p = choose|p: Seq<Node>| #[trigger] tcycle(s, p);
        let o = choose|o: Seq<Node>| #[trigger] ordered(s, o) && (forall|x: Node| o.contains(x) <==> #[trigger] c.contains(x));
        assert(tedge(s, p[0int], p[0int + 1]));
        assert(s.contains_key(p[0]));
        assert(o.contains(p[0]));
        let i = choose|i: int| 0 <= i < o.len() && o[i] == p[0];
        lemma_no_cycle_at(s, o, p, i);
    }
}
pub open spec fn stack_ok(s: Table, v: Seq<Node>, vs: Set<Node>) -> bool {
    &&& v.no_duplicates()
    &&& (forall|x: Node| v.contains(x) <==> #[trigger] vs.contains(x))
    &&& tpath(s, v)
}
pub open spec fn search_ok(s: Table, checked: Set<Node>, vs: Set<Node>, errors: Seq<Error>) -> bool {
    &&& (errors.len() == 0 ==> dag(s, checked))
    &&& (errors.len() == 0 ==> checked.disjoint(vs))
    &&& (errors.len() > 0 ==> thas_cycle(s))
    &&& (forall|n: Node| #[trigger] vs.contains(n) ==> s.contains_key(n))
}
pub proof fn lemma_stack_cycle(s: Table, v: Seq<Node>, q: Node)
    requires tpath(s, v.push(q)), v.contains(q)
    ensures thas_cycle(s)
{
    let k = choose|k: int| 0 <= k < v.len() && v[k] == q;
    let w = v.push(q);
    let p = w.subrange(k, w.len() as int);
    assert forall|i: int| 0 <= i < p.len() - 1 implies tedge(s, #[trigger] p[i], p[i + 1]) by {
        assert(tedge(s, w[k + i], w[k + i + 1]));
    }
    assert(tcycle(s, p));
}
pub proof fn lemma_target_resolves(m: Table, sch: schema::Schema, ns: schema::Namespace, t: schema::Type)
    requires type_resolves(m, sch, ns, t)
    ensures target(sch, ns, t).is_some() ==> m.contains_key(target(sch, ns, t).unwrap())
    decreases t
{
    match t.variant {
        schema::TypeVariant::Array(inner) => { lemma_target_resolves(m, sch, ns, *inner); }
        _ => {}
    }
}
pub proof fn lemma_visited_bound(m: Table, v: Set<Node>)
    requires forall|n: Node| #[trigger] v.contains(n) ==> m.contains_key(n)
    ensures v.len() <= m.dom().len()
{
    assert(v.subset_of(m.dom()));
    vstd::set_lib::lemma_len_subset(v, m.dom());
}
// the number of distinct indices among the first n fields
pub open spec fn in_idx(d: schema::Declaration, n: int, x: usize) -> bool {
    exists|k: int| 0 <= k < n && (#[trigger] d.fields@[k]).index == x
}
proof fn lemma_below_count(u: Set<usize>, n: nat)
    requires forall|x: usize| #[trigger] u.contains(x) ==> x < n
    ensures u.len() <= n
    decreases n
{
    if n == 0 {
        assert(u =~= Set::empty());
    } else if n - 1 <= usize::MAX {
        let m = (n - 1) as usize;
        let w = u.remove(m);
        lemma_below_count(w, (n - 1) as nat);
    } else {
        lemma_below_count(u, (n - 1) as nat);
    }
}
proof fn lemma_full(u: Set<usize>, n: nat)
    requires n <= usize::MAX + 1, forall|x: usize| x < n ==> #[trigger] u.contains(x)
    ensures u.len() >= n, u.len() == n ==> forall|x: usize| #[trigger] u.contains(x) ==> x < n
    decreases n
{
    if n == 0 {
    } else {
        let m = (n - 1) as usize;
        let w = u.remove(m);
        assert forall|x: usize| x < n - 1 implies #[trigger] w.contains(x) by { assert(u.contains(x)); }
        lemma_full(w, (n - 1) as nat);
        if u.len() == n {
            assert forall|x: usize| #[trigger] u.contains(x) implies x < n by { if x != m { assert(w.contains(x)); } }
        }
    }
}
// "no gap" is the same as "every index below the number of used indices is used"
pub proof fn lemma_gap(d: schema::Declaration, fi: Set<usize>)
    requires
        forall|x: usize| #[trigger] fi.contains(x) <==> in_idx(d, d.fields@.len() as int, x),
        fi.disjoint(d.deleted@),
        fi.len() + d.deleted@.len() <= usize::MAX,
    ensures
        no_gap(d) <==> (forall|i: int| 0 <= i < fi.len() + d.deleted@.len() ==> #[trigger] used(d, i))
{
    let u = fi.union(d.deleted@);
    vstd::set_lib::lemma_set_disjoint_lens(fi, d.deleted@);
    let n = u.len();
    assert(n == fi.len() + d.deleted@.len());
    assert forall|i: usize| #[trigger] u.contains(i) == used(d, i as int) by {
        assert(fi.contains(i) == in_idx(d, d.fields@.len() as int, i));
    }
    if forall|i: int| 0 <= i < n ==> #[trigger] used(d, i) {
        assert forall|x: usize| x < n implies #[trigger] u.contains(x) by { assert(used(d, x as int)); }
        lemma_full(u, n);
        assert forall|i: int, j: int| 0 <= i < j && #[trigger] used(d, j) implies #[trigger] used(d, i) by {
            assert(u.contains(j as usize));
        }
    }
    if no_gap(d) {
        assert forall|i: int| 0 <= i < n implies #[trigger] used(d, i) by {
            if !used(d, i) {
                assert forall|x: usize| #[trigger] u.contains(x) implies x < i by {
                    assert(used(d, x as int));
                    if x == i { assert(false); }
                    if x > i { assert(used(d, i)); }
                }
                lemma_below_count(u, i as nat);
            }
        }
    }
}
@@ take MAX_FIELD_INDEX validate validate_type check_declaration_for_cycles check_type_for_cycles
@@ takefns
@@ raw
// ---------- the properties as lemmas over the contracts ------------------------------------------
// C09 and C10 together characterise acceptance; see `validate`'s postcondition.
@@ endmodule
@@ raw
fn main() {}
} // verus!
@@ fn validator::validate ret r
    requires loaded(schemas@),
    ensures
        /* C09 C10: accepted exactly when well-formed and free of recursion */
        r.is_ok() <==> (well_formed(schemas@) && !has_cycle(schemas@)),
        /* an error list is never empty */
        r.is_err() ==> r->Err_0@.len() > 0,
@@ fn validator::validate loop 0 kind map
@@ fn validator::validate loop 0 inv
    invariant
        is_entries(__it0@, schemas@),
        forall|n: Node| #[trigger] all_types@.contains_key(n) <==> exists|i: int| 0 <= i < __i0 && *(#[trigger] __it0@[i]).0 == n.0 && declared(schemas@, n),
        forall|n: Node| #[trigger] all_types@.contains_key(n) ==> declared(schemas@, n) && *all_types@[n].0 == schemas@[n.0].0
            && exists|i: int| 0 <= i < schemas@[n.0].0.declarations@.len() && (#[trigger] schemas@[n.0].0.declarations@[i]) == *all_types@[n].1 && all_types@[n].1.name == n.1,
@@ fn validator::validate loop 1 inv
    invariant
        is_entries(__it0@, schemas@),
        0 <= __i0 < __it0@.len(),
        *namespace == *__it0@[__i0 as int].0, *schema == __it0@[__i0 as int].1.0,
        *__it1 == schema.declarations,
        forall|n: Node| #[trigger] all_types@.contains_key(n) <==> (
            (exists|i: int| 0 <= i < __i0 && *(#[trigger] __it0@[i]).0 == n.0 && declared(schemas@, n))
            || (n.0 == *namespace && exists|i: int| 0 <= i < __i1 && (#[trigger] schema.declarations@[i]).name == n.1)),
        forall|n: Node| #[trigger] all_types@.contains_key(n) ==> declared(schemas@, n) && *all_types@[n].0 == schemas@[n.0].0
            && exists|i: int| 0 <= i < schemas@[n.0].0.declarations@.len() && (#[trigger] schemas@[n.0].0.declarations@[i]) == *all_types@[n].1 && all_types@[n].1.name == n.1,
@@ fn validator::validate loop 0 post
proof {
    assert forall|n: Node| all_types@.contains_key(n) <==> #[trigger] declared(schemas@, n) by {
        if declared(schemas@, n) { let i = choose|i: int| 0 <= i < __it0@.len() && *(#[trigger] __it0@[i]).0 == n.0; assert(__it0@[i].0 == n.0); }
    }
    assert(table_ok(schemas@, all_types@));
}
@@ fn validator::validate loop 2 kind map
@@ fn validator::validate loop 2 inv
    invariant
        loaded(schemas@), table_ok(schemas@, all_types@), is_entries(__it2@, schemas@),
        errors@.len() == 0 <==> forall|k: int| 0 <= k < __i2 ==> file_ok(schemas@, (#[trigger] __it2@[k]).1.0, *__it2@[k].0),
@@ fn validator::validate loop 3 inv
    invariant
        loaded(schemas@), table_ok(schemas@, all_types@), is_entries(__it2@, schemas@),
        0 <= __i2 < __it2@.len(), *namespace == *__it2@[__i2 as int].0, *schema == __it2@[__i2 as int].1.0,
        *__it3 == schema.declarations,
        forall|x: Identifier| #[trigger] declaration_names@.contains(x) <==> exists|j: int| 0 <= j < __i3 && (#[trigger] schema.declarations@[j]).name == x,
        errors@.len() == 0 <==> (
            (forall|k: int| 0 <= k < __i2 ==> file_ok(schemas@, (#[trigger] __it2@[k]).1.0, *__it2@[k].0))
            && (forall|i: int| 0 <= i < __i3 ==> #[trigger] name_new(*schema, i))
            && (forall|i: int| 0 <= i < __i3 ==> decl_ok(schemas@, *schema, *namespace, #[trigger] schema.declarations@[i]))),
@@ fn validator::validate loop 3 start
    let ghost errors0 = errors@;
    proof { if declaration_names@.contains(declaration.name) { assert(!name_new(*schema, __i3 as int)); } else { assert(name_new(*schema, __i3 as int)); } }
@@ fn validator::validate after ^let mut field_indices = .*
    let ghost errors1 = errors@;
    assert(errors1.len() == 0 <==> errors0.len() == 0 && name_new(*schema, __i3 as int));
@@ fn validator::validate loop 4 inv
    invariant
        loaded(schemas@), table_ok(schemas@, all_types@), schemas@.contains_key(*namespace), *schema == schemas@[*namespace].0,
        *__it4 == declaration.fields,
        forall|x: Identifier| #[trigger] field_names@.contains(x) <==> exists|j: int| 0 <= j < __i4 && (#[trigger] declaration.fields@[j]).name == x,
        forall|x: usize| #[trigger] field_indices@.contains(x) <==> exists|j: int| 0 <= j < __i4 && (#[trigger] declaration.fields@[j]).index == x,
        field_indices@.len() <= __i4,
        errors@.len() == 0 <==> (errors1.len() == 0
            && (forall|k: int| 0 <= k < __i4 ==> #[trigger] field_ok(schemas@, *schema, *namespace, *declaration, k))),
@@ fn validator::validate loop 4 start
    let ghost errors2 = errors@;
    proof {
        assert(field_names@.contains(field.name) <==> !(forall|j: int| 0 <= j < __i4 ==> (#[trigger] declaration.fields@[j]).name != field.name));
        assert(field_indices@.contains(field.index) <==> !(forall|j: int| 0 <= j < __i4 ==> (#[trigger] declaration.fields@[j]).index != field.index));
    }
@@ fn validator::validate loop 4 end
    proof {
        let k = __i4 as int;
        lemma_resolves(schemas@, all_types@, *schema, *namespace, field.r#type);
        assert(declaration.fields@[k] == *field);
        assert(errors@.len() == 0 <==> errors2.len() == 0 && field_ok(schemas@, *schema, *namespace, *declaration, k));
    }
@@ fn validator::validate loop 4 post
    let ghost errors3 = errors@;
    proof {
        assert(declaration == &schemas@[*namespace].0.declarations@[__i3 as int]);
        assert forall|x: usize| #[trigger] field_indices@.contains(x) <==> in_idx(*declaration, declaration.fields@.len() as int, x) by {}
    }
@@ fn validator::validate loop 5 inv
    invariant
        errors@.len() == 0 <==> (errors3.len() == 0 && forall|i: int| 0 <= i < index ==> #[trigger] used(*declaration, i)),
        forall|x: usize| #[trigger] field_indices@.contains(x) <==> in_idx(*declaration, declaration.fields@.len() as int, x),
@@ fn validator::validate loop 5 end
    proof { assert(used(*declaration, index as int) <==> field_indices@.contains(index) || declaration.deleted@.contains(index)); }
@@ fn validator::validate loop 5 start
    let ghost errors4 = errors@;
    proof { assert(field_indices@.contains(index) <==> in_idx(*declaration, declaration.fields@.len() as int, index)); }
@@ fn validator::validate loop 5 post
    proof {
        if errors3.len() == 0 {
            assert(field_indices@.disjoint(declaration.deleted@)) by {
                assert forall|x: usize| #[trigger] field_indices@.contains(x) implies !declaration.deleted@.contains(x) by {
                    let j = choose|j: int| 0 <= j < declaration.fields@.len() && (#[trigger] declaration.fields@[j]).index == x;
                    assert(field_ok(schemas@, *schema, *namespace, *declaration, j));
                }
            }
            lemma_gap(*declaration, field_indices@);
        }
        assert(errors@.len() == 0 <==> errors1.len() == 0 && decl_ok(schemas@, *schema, *namespace, *declaration));
    }
@@ fn validator::validate loop 2 post
    let ghost errs_wf = errors@;
    proof {
        if errors@.len() == 0 {
            assert forall|ns: schema::Namespace| #[trigger] schemas@.contains_key(ns) implies file_ok(schemas@, schemas@[ns].0, ns) by {
                let i = choose|i: int| 0 <= i < __it2@.len() && *(#[trigger] __it2@[i]).0 == ns;
                assert(file_ok(schemas@, __it2@[i].1.0, *__it2@[i].0));
            }
        } else {
            let k = choose|k: int| 0 <= k < __it2@.len() && !file_ok(schemas@, (#[trigger] __it2@[k]).1.0, *__it2@[k].0);
            assert(schemas@.contains_key(*__it2@[k].0));
        }
        assert(errors@.len() == 0 <==> well_formed(schemas@));
    }
@@ fn validator::validate after ^let mut types_visited_vec = .*
    proof { lemma_table_closed(schemas@, all_types@); lemma_cycles_agree(schemas@, all_types@); lemma_dag_empty(all_types@); assert(stack_ok(all_types@, types_visited_vec@, types_visited_set@)); }
@@ fn validator::validate loop 6 kind map
@@ fn validator::validate loop 6 inv
    invariant
        loaded(schemas@), well_formed(schemas@), table_ok(schemas@, all_types@), table_closed(all_types@), is_entries(__it6@, schemas@),
        types_visited_vec@.len() == 0, types_visited_set@ =~= Set::<Node>::empty(),
        search_ok(all_types@, types_checked@, types_visited_set@, errors@),
        forall|k: int, n: Node| #![trigger __it6@[k], declared(schemas@, n)] 0 <= k < __i6 && *__it6@[k].0 == n.0 && declared(schemas@, n) ==> types_checked@.contains(n),
@@ fn validator::validate loop 7 inv
    invariant
        loaded(schemas@), well_formed(schemas@), table_ok(schemas@, all_types@), table_closed(all_types@), is_entries(__it6@, schemas@),
        0 <= __i6 < __it6@.len(), *namespace == *__it6@[__i6 as int].0, *schema == __it6@[__i6 as int].1.0, *__it7 == schema.declarations,
        types_visited_vec@.len() == 0, types_visited_set@ =~= Set::<Node>::empty(),
        search_ok(all_types@, types_checked@, types_visited_set@, errors@),
        forall|k: int, n: Node| #![trigger __it6@[k], declared(schemas@, n)] 0 <= k < __i6 && *__it6@[k].0 == n.0 && declared(schemas@, n) ==> types_checked@.contains(n),
        forall|i: int| 0 <= i < __i7 ==> types_checked@.contains((*namespace, (#[trigger] schema.declarations@[i]).name)),
@@ fn validator::validate loop 7 start
    proof { assert(declared(schemas@, (*namespace, declaration.name))); assert(stack_ok(all_types@, types_visited_vec@, types_visited_set@)); }
@@ fn validator::validate loop 6 post
    proof {
        if errors@.len() == 0 {
            assert forall|n: Node| #[trigger] declared(schemas@, n) implies types_checked@.contains(n) by {
                let i = choose|i: int| 0 <= i < __it6@.len() && *(#[trigger] __it6@[i]).0 == n.0;
                assert(__it6@[i].0 == n.0);
            }
            lemma_dag_no_cycle(all_types@, types_checked@);
        }
    }
@@ fn validator::validate_type
    requires imports_named(*schema),
    ensures
        /* the error list grows exactly when the type does not resolve */
        type_resolves(all_types@, *schema, *namespace, *r#type) ==> final(errors)@ == old(errors)@,
        !type_resolves(all_types@, *schema, *namespace, *r#type) ==> final(errors)@.len() == old(errors)@.len() + 1,
    decreases *r#type,
@@ fn validator::check_declaration_for_cycles
    requires
        table_closed(all_types@),
        all_types@.contains_key((*namespace, *name)),
        stack_ok(all_types@, old(types_visited_vec)@, old(types_visited_set)@),
        tpath(all_types@, old(types_visited_vec)@.push((*namespace, *name))),
        search_ok(all_types@, old(types_checked)@, old(types_visited_set)@, old(errors)@),
    ensures
        final(types_visited_vec)@ == old(types_visited_vec)@,
        final(types_visited_set)@ =~= old(types_visited_set)@,
        search_ok(all_types@, final(types_checked)@, final(types_visited_set)@, final(errors)@),
        old(types_checked)@.subset_of(final(types_checked)@),
        final(types_checked)@.contains((*namespace, *name)),
        final(errors)@.len() >= old(errors)@.len(),
    decreases all_types@.dom().len() - old(types_visited_set)@.len(), 0int, *name,
@@ fn validator::check_declaration_for_cycles entry
    proof { lemma_visited_bound(all_types@, types_visited_set@); }
@@ fn validator::check_declaration_for_cycles before ^errors.push\(
    proof { lemma_stack_cycle(all_types@, old(types_visited_vec)@, qualified_type); }
@@ fn validator::check_declaration_for_cycles before ^let \(schema, declaration\) = .*
    proof {
        assert(!old(types_visited_vec)@.contains(qualified_type));
        assert(stack_ok(all_types@, types_visited_vec@, types_visited_set@)) by {
            let v0 = old(types_visited_vec)@; let v = types_visited_vec@;
            assert(v =~= v0.push(qualified_type));
            assert forall|x: Node| v.contains(x) <==> #[trigger] types_visited_set@.contains(x) by {
                if v0.contains(x) { let j = choose|j: int| 0 <= j < v0.len() && v0[j] == x; assert(v[j] == x); }
                if v.contains(x) && x != qualified_type { let j = choose|j: int| 0 <= j < v.len() && v[j] == x; assert(v0[j] == x); }
                assert(v[v0.len() as int] == qualified_type);
            }
        }
        lemma_visited_bound(all_types@, types_visited_set@);
    }
@@ fn validator::check_declaration_for_cycles loop 0 inv
    invariant
        table_closed(all_types@),
        all_types@.contains_key(qualified_type), qualified_type == (*namespace, *name),
        *__it0 == declaration.fields, **schema == *all_types@[qualified_type].0, **declaration == *all_types@[qualified_type].1,
        types_visited_vec@ == old(types_visited_vec)@.push(qualified_type),
        types_visited_set@ =~= old(types_visited_set)@.insert(qualified_type),
        !old(types_visited_set)@.contains(qualified_type),
        stack_ok(all_types@, old(types_visited_vec)@, old(types_visited_set)@),
        stack_ok(all_types@, types_visited_vec@, types_visited_set@),
        old(types_visited_set)@.len() + 1 <= all_types@.dom().len(),
        search_ok(all_types@, types_checked@, types_visited_set@, errors@),
        old(types_checked)@.subset_of(types_checked@),
        errors@.len() >= old(errors)@.len(),
        forall|k: int| 0 <= k < __i0 ==> (target(**schema, *namespace, (#[trigger] declaration.fields@[k]).r#type).is_some()
            ==> types_checked@.contains(target(**schema, *namespace, declaration.fields@[k].r#type).unwrap())),
@@ fn validator::check_declaration_for_cycles loop 0 start
    proof {
        assert(type_resolves(all_types@, **schema, *namespace, declaration.fields@[__i0 as int].r#type));
        if target(**schema, *namespace, field.r#type).is_some() {
            assert(tedge(all_types@, qualified_type, target(**schema, *namespace, field.r#type).unwrap()));
        }
    }
@@ fn validator::check_declaration_for_cycles loop 0 post
    proof {
        assert forall|b: Node| #[trigger] tedge(all_types@, qualified_type, b) implies types_checked@.contains(b) by {
            let k = choose|k: int| 0 <= k < all_types@[qualified_type].1.fields@.len() && target(*all_types@[qualified_type].0, qualified_type.0, (#[trigger] all_types@[qualified_type].1.fields@[k]).r#type) == Some(b);
            assert(target(**schema, *namespace, declaration.fields@[k].r#type) == Some(b));
        }
        if errors@.len() == 0 { lemma_dag_insert(all_types@, types_checked@, qualified_type); }
    }
@@ fn validator::check_declaration_for_cycles exit
    proof { assert(types_visited_vec@ =~= old(types_visited_vec)@); }
@@ fn validator::check_type_for_cycles
    requires
        table_closed(all_types@), imports_named(*schema),
        type_resolves(all_types@, *schema, *namespace, *r#type),
        stack_ok(all_types@, old(types_visited_vec)@, old(types_visited_set)@),
        old(types_visited_vec)@.len() > 0,
        target(*schema, *namespace, *r#type).is_some() ==>
            tedge(all_types@, old(types_visited_vec)@.last(), target(*schema, *namespace, *r#type).unwrap()),
        search_ok(all_types@, old(types_checked)@, old(types_visited_set)@, old(errors)@),
    ensures
        final(types_visited_vec)@ == old(types_visited_vec)@,
        final(types_visited_set)@ =~= old(types_visited_set)@,
        search_ok(all_types@, final(types_checked)@, final(types_visited_set)@, final(errors)@),
        old(types_checked)@.subset_of(final(types_checked)@),
        target(*schema, *namespace, *r#type).is_some() ==> final(types_checked)@.contains(target(*schema, *namespace, *r#type).unwrap()),
        final(errors)@.len() >= old(errors)@.len(),
    decreases all_types@.dom().len() - old(types_visited_set)@.len(), 1int, *r#type,
@@ fn validator::check_type_for_cycles entry
    proof {
        lemma_target_resolves(all_types@, *schema, *namespace, *r#type);
        if target(*schema, *namespace, *r#type).is_some() {
            let v = types_visited_vec@;
            let w = v.push(target(*schema, *namespace, *r#type).unwrap());
            assert forall|i: int| 0 <= i < w.len() - 1 implies tedge(all_types@, #[trigger] w[i], w[i + 1]) by { if i < v.len() - 1 { assert(tedge(all_types@, v[i], v[i + 1])); } }
        }
    }
@@ fn validator::validate subst
let mut all_types = HashMap::new\(\); ==> let mut all_types: HashMap<Node, (&schema::Schema, &schema::Declaration)> = HashMap::new();
@@ fn validator::check_declaration_for_cycles subst
qualified_type\.clone\(\) ==> crate::shim::clone_pair(&qualified_type)
@@ const validator::MAX_FIELD_INDEX
    ensures MAX_FIELD_INDEX == max_index(),
@@ constproof validator::MAX_FIELD_INDEX
    assert((1usize << 62usize) == 0x4000_0000_0000_0000usize) by (bit_vector);
