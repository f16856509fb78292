@# The grammar of schema files over tokens, and what a schema spelled by tokens contains (C08)
@@ raw
pub mod grammar {
use vstd::prelude::*;
use crate::text::*;
use crate::lst::*;
use crate::placed::*;
use crate::shim::*;
use crate::token::{Token, Variant};
use crate::schema::*;
use crate::identifier::Identifier;
use crate::error::SourceRange;
pub open spec fn at(ts: Seq<Token>, i: int) -> Option<Variant> { if 0 <= i < ts.len() { Some(ts[i].variant) } else { None } }
pub open spec fn ident_at(ts: Seq<Token>, i: int) -> bool { at(ts, i) matches Some(Variant::Identifier(_)) }
pub open spec fn ident(ts: Seq<Token>, i: int) -> Identifier { ts[i].variant->Identifier_0 }
pub open spec fn int_at(ts: Seq<Token>, i: int) -> bool { at(ts, i) matches Some(Variant::Integer(_)) }
pub open spec fn int_of(ts: Seq<Token>, i: int) -> usize { ts[i].variant->Integer_0 }
pub open spec fn comment_at(ts: Seq<Token>, i: int) -> bool { at(ts, i) matches Some(Variant::Comment(_)) }
pub open spec fn after_comment(ts: Seq<Token>, i: int) -> int { if comment_at(ts, i) { i + 1 } else { i } }
pub open spec fn has_comment(ts: Seq<Token>, i: int, c: Vec<String>) -> bool {
    if comment_at(ts, i) { c@ == ts[i].variant->Comment_0@ } else { c@.len() == 0 }
}
// the source range of the tokens i .. j
pub open spec fn range_is(ts: Seq<Token>, i: int, j: int, r: SourceRange) -> bool {
    if i < j { r.start == ts[i].source_range.start && r.end == ts[j - 1].source_range.end }
    else if i < ts.len() { r.start == ts[i].source_range.start && r.end == r.start }
    else if ts.len() > 0 { r.start == ts.last().source_range.end && r.end == r.start } else { r.start == 0 && r.end == 0 }
}
// ---- types: `[` type `]` | keyword | name | name `.` name ----------------------------------------
pub open spec fn qualified(ts: Seq<Token>, i: int) -> bool { i + 2 < ts.len() && at(ts, i + 1) == Some(Variant::Dot) }
pub open spec fn plain_type(ts: Seq<Token>, i: int) -> bool {
    match at(ts, i) {
        Some(Variant::Bool) | Some(Variant::Bytes) | Some(Variant::F64) | Some(Variant::S64) | Some(Variant::String) | Some(Variant::U64) | Some(Variant::Unit) => true,
        _ => false,
    }
}
pub open spec fn type_end(ts: Seq<Token>, i: int) -> Option<int> decreases ts.len() - i {
    if !(0 <= i < ts.len()) { None }
    else if at(ts, i) == Some(Variant::LeftSquare) {
        match type_end(ts, i + 1) {
            Some(j) => if at(ts, j) == Some(Variant::RightSquare) { Some(j + 1) } else { None },
            None => None,
        }
    }
    else if plain_type(ts, i) { Some(i + 1) }
    else if !ident_at(ts, i) { None }
    else if qualified(ts, i) { if ident_at(ts, i + 2) { Some(i + 3) } else { None } }
    else { Some(i + 1) }
}
pub open spec fn is_type(ts: Seq<Token>, i: int, j: int, x: Type) -> bool decreases x {
    range_is(ts, i, j, x.source_range) && match x.variant {
        TypeVariant::Array(y) => at(ts, i) == Some(Variant::LeftSquare) && at(ts, j - 1) == Some(Variant::RightSquare) && is_type(ts, i + 1, j - 1, *y),
        TypeVariant::Bool => j == i + 1 && at(ts, i) == Some(Variant::Bool),
        TypeVariant::Bytes => j == i + 1 && at(ts, i) == Some(Variant::Bytes),
        TypeVariant::F64 => j == i + 1 && at(ts, i) == Some(Variant::F64),
        TypeVariant::S64 => j == i + 1 && at(ts, i) == Some(Variant::S64),
        TypeVariant::String => j == i + 1 && at(ts, i) == Some(Variant::String),
        TypeVariant::U64 => j == i + 1 && at(ts, i) == Some(Variant::U64),
        TypeVariant::Unit => j == i + 1 && at(ts, i) == Some(Variant::Unit),
        TypeVariant::Custom(None, n) => j == i + 1 && ident_at(ts, i) && n == ident(ts, i),
        TypeVariant::Custom(Some(m), n) => j == i + 3 && ident_at(ts, i) && at(ts, i + 1) == Some(Variant::Dot) && ident_at(ts, i + 2)
            && m == ident(ts, i) && n == ident(ts, i + 2),
    }
}
// ---- fields: comment? rule? name (`:` type)? `=` integer -----------------------------------------
pub open spec fn rule_at(ts: Seq<Token>, i: int) -> Rule {
    match at(ts, i) { Some(Variant::Asymmetric) => Rule::Asymmetric, Some(Variant::Optional) => Rule::Optional, _ => Rule::Required }
}
pub open spec fn after_rule(ts: Seq<Token>, i: int) -> int { if rule_at(ts, i) == Rule::Required { i } else { i + 1 } }
pub open spec fn after_type(ts: Seq<Token>, i: int) -> Option<int> {
    if at(ts, i) == Some(Variant::Colon) { type_end(ts, i + 1) } else { Some(i) }
}
pub open spec fn field_name(ts: Seq<Token>, i: int) -> int { after_rule(ts, after_comment(ts, i)) }
pub open spec fn field_end(ts: Seq<Token>, i: int) -> Option<int> {
    let n = field_name(ts, i);
    if !ident_at(ts, n) { None } else {
        match after_type(ts, n + 1) {
            Some(k) => if at(ts, k) == Some(Variant::Equals) && int_at(ts, k + 1) { Some(k + 2) } else { None },
            None => None,
        }
    }
}
pub open spec fn is_field(ts: Seq<Token>, i: int, f: Field) -> bool {
    let n = field_name(ts, i);
    let k = after_type(ts, n + 1).unwrap();
    &&& range_is(ts, i, k + 2, f.source_range)
    &&& has_comment(ts, i, f.comment)
    &&& f.rule == rule_at(ts, after_comment(ts, i))
    &&& f.name == ident(ts, n)
    &&& f.index == int_of(ts, k + 1)
    &&& if at(ts, n + 1) == Some(Variant::Colon) { is_type(ts, n + 2, k, f.type_) }
        else { f.type_.variant == TypeVariant::Unit && range_is(ts, n + 1, n + 1, f.type_.source_range) }
}
// ---- lists ----------------------------------------------------------------------------------------
pub struct List { pub starts: Seq<int>, pub end: Option<int> }
pub open spec fn cons(i: int, l: List) -> List { List { starts: seq![i] + l.starts, end: l.end } }
pub open spec fn none() -> List { List { starts: Seq::empty(), end: None } }
pub open spec fn nil(i: int) -> List { List { starts: Seq::empty(), end: Some(i) } }
#[verifier::opaque]
pub open spec fn field_list(ts: Seq<Token>, i: int) -> List decreases ts.len() - i {
    if !(0 <= i < ts.len()) || at(ts, i) == Some(Variant::Deleted) || at(ts, i) == Some(Variant::RightCurly) { nil(i) }
    else { match field_end(ts, i) { Some(j) => if i < j <= ts.len() { cons(i, field_list(ts, j)) } else { none() }, None => none() } }
}
pub open spec fn ints_end(ts: Seq<Token>, i: int) -> int decreases ts.len() - i { if i < ts.len() && int_at(ts, i) { ints_end(ts, i + 1) } else { i } }
pub open spec fn ints(ts: Seq<Token>, i: int, j: int) -> Seq<usize> { Seq::new((j - i) as nat, |k: int| int_of(ts, i + k)) }
pub open spec fn distinct<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
// the deleted indices: `deleted` integer*, no index twice
pub open spec fn deleted_end(ts: Seq<Token>, i: int) -> int { if at(ts, i) == Some(Variant::Deleted) { ints_end(ts, i + 1) } else { i } }
pub open spec fn deleted(ts: Seq<Token>, i: int) -> Seq<usize> { if at(ts, i) == Some(Variant::Deleted) { ints(ts, i + 1, ints_end(ts, i + 1)) } else { Seq::empty() } }
// ---- declarations: comment? (`struct` | `choice`) name `{` field* deleted? `}` ---------------------
pub open spec fn keyword_at(ts: Seq<Token>, i: int) -> bool { at(ts, i) == Some(Variant::Struct) || at(ts, i) == Some(Variant::Choice) }
pub open spec fn decl_end(ts: Seq<Token>, i: int) -> Option<int> {
    let k = after_comment(ts, i);
    if keyword_at(ts, k) && ident_at(ts, k + 1) && at(ts, k + 2) == Some(Variant::LeftCurly) {
        match field_list(ts, k + 3).end {
            Some(j) => if distinct(deleted(ts, j)) && at(ts, deleted_end(ts, j)) == Some(Variant::RightCurly) { Some(deleted_end(ts, j) + 1) } else { None },
            None => None,
        }
    } else { None }
}
pub open spec fn are_fields(ts: Seq<Token>, starts: Seq<int>, fs: Seq<Field>) -> bool {
    fs.len() == starts.len() && forall|k: int| 0 <= k < fs.len() ==> is_field(ts, starts[k], #[trigger] fs[k])
}
pub open spec fn is_decl(ts: Seq<Token>, i: int, d: Declaration) -> bool {
    let k = after_comment(ts, i);
    let fs = field_list(ts, k + 3);
    let j = fs.end.unwrap();
    &&& range_is(ts, i, decl_end(ts, i).unwrap(), d.source_range)
    &&& has_comment(ts, i, d.comment)
    &&& d.variant == (if at(ts, k) == Some(Variant::Struct) { DeclarationVariant::Struct } else { DeclarationVariant::Choice })
    &&& d.name == ident(ts, k + 1)
    &&& are_fields(ts, fs.starts, d.fields@)
    &&& d.deleted@ == deleted(ts, j).to_set()
}
#[verifier::opaque]
pub open spec fn decl_list(ts: Seq<Token>, i: int) -> List decreases ts.len() - i {
    if !(0 <= i < ts.len()) { nil(i) }
    else { match decl_end(ts, i) { Some(j) => if i < j <= ts.len() { cons(i, decl_list(ts, j)) } else { none() }, None => none() } }
}
pub open spec fn are_decls(ts: Seq<Token>, starts: Seq<int>, ds: Seq<Declaration>) -> bool {
    ds.len() == starts.len() && forall|k: int| 0 <= k < ds.len() ==> is_decl(ts, starts[k], #[trigger] ds[k])
}
// ---- imports: `import` path (`as` name)? -----------------------------------------------------------
pub open spec fn path_of(ts: Seq<Token>, i: int) -> PathBuf { ts[i].variant->Path_0 }
pub open spec fn import_end(ts: Seq<Token>, i: int) -> Option<int> {
    if at(ts, i) == Some(Variant::Import) && at(ts, i + 1) matches Some(Variant::Path(p)) {
        if at(ts, i + 2) == Some(Variant::As) { if ident_at(ts, i + 3) { Some(i + 4) } else { None } }
        else if crate::names::stem_of(path_of(ts, i + 1)) is Some { Some(i + 2) } else { None }
    } else { None }
}
pub open spec fn import_name(ts: Seq<Token>, i: int) -> Identifier {
    if at(ts, i + 2) == Some(Variant::As) { ident(ts, i + 3) } else { crate::names::from_text(crate::names::stem_of(path_of(ts, i + 1)).unwrap()) }
}
pub open spec fn is_import(ts: Seq<Token>, i: int, x: Import) -> bool {
    range_is(ts, i, import_end(ts, i).unwrap(), x.source_range) && x.path == path_of(ts, i + 1) && x.namespace is None
}
#[verifier::opaque]
pub open spec fn import_list(ts: Seq<Token>, i: int) -> List decreases ts.len() - i {
    if at(ts, i) != Some(Variant::Import) || i < 0 { nil(i) }
    else { match import_end(ts, i) { Some(j) => if i < j <= ts.len() { cons(i, import_list(ts, j)) } else { none() }, None => none() } }
}
pub open spec fn import_keys(ts: Seq<Token>, starts: Seq<int>) -> Seq<Seq<char>> { starts.map_values(|i: int| crate::names::key(import_name(ts, i))) }
pub open spec fn are_imports(ts: Seq<Token>, starts: Seq<int>, m: Map<Seq<char>, (Identifier, Import)>) -> bool {
    &&& m.dom() =~= import_keys(ts, starts).to_set()
    &&& forall|k: int| 0 <= k < starts.len() ==> {
        let e = m[crate::names::key(import_name(ts, #[trigger] starts[k]))];
        e.0 == import_name(ts, starts[k]) && is_import(ts, starts[k], e.1)
    }
}
// ---- schemas: comment? import* declaration* --------------------------------------------------------
// the first comment is the schema's unless it directly precedes a declaration
pub open spec fn opening(ts: Seq<Token>) -> bool {
    comment_at(ts, 0) && (keyword_at(ts, 1) ==> ts[0].source_range.end + 1 < ts[1].source_range.start)
}
pub open spec fn after_opening(ts: Seq<Token>) -> int { if opening(ts) { 1 } else { 0 } }
pub open spec fn grammatical(ts: Seq<Token>) -> bool {
    let im = import_list(ts, after_opening(ts));
    im.end is Some && distinct(import_keys(ts, im.starts)) && decl_list(ts, im.end.unwrap()).end is Some
}
pub open spec fn spells(ts: Seq<Token>, s: Schema) -> bool {
    let im = import_list(ts, after_opening(ts));
    &&& if opening(ts) { s.comment@ == ts[0].variant->Comment_0@ } else { s.comment@.len() == 0 }
    &&& are_imports(ts, im.starts, s.imports@)
    &&& are_decls(ts, decl_list(ts, im.end.unwrap()).starts, s.declarations@)
}
// ---- bounds ------------------------------------------------------------------------------------------
pub proof fn lemma_type_end(ts: Seq<Token>, i: int)
    requires 0 <= i
    ensures type_end(ts, i) matches Some(j) ==> i < j <= ts.len()
    decreases ts.len() - i
{ if i < ts.len() { lemma_type_end(ts, i + 1); } }
pub proof fn lemma_field_end(ts: Seq<Token>, i: int)
    requires 0 <= i
    ensures field_end(ts, i) matches Some(j) ==> i + 2 < j <= ts.len()
{ lemma_type_end(ts, field_name(ts, i) + 2); }
pub proof fn lemma_fields_end(ts: Seq<Token>, i: int)
    requires 0 <= i <= ts.len()
    ensures field_list(ts, i).end matches Some(j) ==> i <= j <= ts.len()
    decreases ts.len() - i
{ reveal(field_list); match field_end(ts, i) { Some(j) => { if i < j <= ts.len() { lemma_fields_end(ts, j); } } None => { } } }
pub proof fn lemma_ints_end(ts: Seq<Token>, i: int)
    requires 0 <= i <= ts.len()
    ensures i <= ints_end(ts, i) <= ts.len()
    decreases ts.len() - i
{ if i < ts.len() && int_at(ts, i) { lemma_ints_end(ts, i + 1); } }
// the range of tokens i .. j can be listed
pub proof fn lemma_tokens_span(t: Seq<char>, ts: Seq<Token>, i: int, j: int, r: SourceRange)
    requires placed(t, ts), 0 <= i <= j <= ts.len(), range_is(ts, i, j, r)
    ensures range_fine(t, r)
{
    if i < j {
        let a = from(t, ts[i]); let b = to(t, ts[j - 1]);
        assert(lies(t, ts[i])); assert(lies(t, ts[j - 1]));
        let v = choose|v: int| #[trigger] visible_end(t, from(t, ts[j - 1]), to(t, ts[j - 1]), v);
        assert(visible_end(t, a, b, v)) by { if i < j - 1 { assert(to(t, ts[i]) <= from(t, ts[j - 1])); let w = choose|v: int| #[trigger] visible_end(t, from(t, ts[i]), to(t, ts[i]), v); } }
        lemma_range(t, r, a, b);
    } else {
        let a = if i < ts.len() { from(t, ts[i]) } else if ts.len() > 0 { to(t, ts.last()) } else { 0 };
        if i < ts.len() { assert(lies(t, ts[i])); } else if ts.len() > 0 { assert(lies(t, ts[ts.len() - 1])); } else { lemma_bpos(t, 0, 0); }
        lemma_range(t, r, a, a);
    }
}
// ---- list steps --------------------------------------------------------------------------------------
// the items already seen, then the rest
pub open spec fn after(done: Seq<int>, l: List) -> List { List { starts: done + l.starts, end: l.end } }
pub proof fn lemma_prefix_nil(l: List) ensures after(Seq::empty(), l) == l { assert(Seq::<int>::empty() + l.starts =~= l.starts); }
pub proof fn lemma_after_nil(done: Seq<int>, i: int) ensures after(done, nil(i)) == (List { starts: done, end: Some(i) }) { assert(done + Seq::<int>::empty() =~= done); }
pub proof fn lemma_after_cons(done: Seq<int>, i: int, l: List)
    ensures after(done, cons(i, l)) == after(done.push(i), l), after(done, cons(i, l)).starts.len() > done.len()
{ assert(done + (seq![i] + l.starts) =~= done.push(i) + l.starts); }
pub proof fn lemma_import_bad(ts: Seq<Token>, a: int, done: Seq<int>, i: int)
    requires a == after_opening(ts), 0 <= i < ts.len(), at(ts, i) == Some(Variant::Import), import_list(ts, a) == after(done, import_list(ts, i))
    ensures import_end(ts, i) is None ==> !grammatical(ts),
        import_end(ts, i) is Some ==> import_list(ts, a) == after(done.push(i), import_list(ts, import_end(ts, i).unwrap())),
        import_end(ts, i) is Some && import_keys(ts, done).contains(crate::names::key(import_name(ts, i))) ==> !grammatical(ts),
{
    reveal(import_list);
    if import_end(ts, i) is Some {
        let j = import_end(ts, i).unwrap();
        lemma_after_cons(done, i, import_list(ts, j));
        let k = crate::names::key(import_name(ts, i));
        if import_keys(ts, done).contains(k) {
            let p = choose|p: int| 0 <= p < done.len() && import_keys(ts, done)[p] == k;
            let all = import_keys(ts, import_list(ts, a).starts);
            assert(all[p] == k); assert(all[done.len() as int] == k);
        }
    }
}
pub proof fn lemma_import_step(ts: Seq<Token>, done: Seq<int>, i: int, m: Map<Seq<char>, (Identifier, Import)>, x: Import)
    requires distinct(import_keys(ts, done)), are_imports(ts, done, m), is_import(ts, i, x), !m.contains_key(crate::names::key(import_name(ts, i)))
    ensures distinct(import_keys(ts, done.push(i))), are_imports(ts, done.push(i), m.insert(crate::names::key(import_name(ts, i)), (import_name(ts, i), x)))
{
    let k = crate::names::key(import_name(ts, i));
    let ks = import_keys(ts, done); let ks2 = import_keys(ts, done.push(i));
    assert(ks2 =~= ks.push(k));
    assert(!ks.to_set().contains(k));
    assert(!ks.contains(k));
    assert(ks.push(k).to_set() =~= ks.to_set().insert(k)) by {
        assert forall|y: Seq<char>| ks.push(k).contains(y) == (ks.contains(y) || y == k) by {
            if ks.contains(y) { let p = choose|p: int| 0 <= p < ks.len() && ks[p] == y; assert(ks.push(k)[p] == y); }
            if y == k { assert(ks.push(k)[ks.len() as int] == y); }
        }
    }
    let m2 = m.insert(k, (import_name(ts, i), x));
    assert forall|p: int| 0 <= p < done.push(i).len() implies ({
        let e = m2[crate::names::key(import_name(ts, #[trigger] done.push(i)[p]))];
        e.0 == import_name(ts, done.push(i)[p]) && is_import(ts, done.push(i)[p], e.1)
    }) by {
        if p < done.len() { assert(ks[p] == crate::names::key(import_name(ts, done[p]))); assert(ks.contains(ks[p])); assert(is_import(ts, done[p], m[ks[p]].1)); }
    }
}
pub proof fn lemma_ints_step(ts: Seq<Token>, n: int, i: int)
    requires 0 <= n <= i < ts.len(), int_at(ts, i)
    ensures ints(ts, n, i + 1) == ints(ts, n, i).push(int_of(ts, i)),
        ints(ts, n, i + 1).to_set() == ints(ts, n, i).to_set().insert(int_of(ts, i)),
        distinct(ints(ts, n, i)) && !ints(ts, n, i).to_set().contains(int_of(ts, i)) ==> distinct(ints(ts, n, i + 1)),
        ints(ts, n, i).to_set().contains(int_of(ts, i)) ==> !distinct(ints(ts, n, i + 1)),
        forall|e: int| e >= i + 1 && #[trigger] distinct(ints(ts, n, e)) ==> distinct(ints(ts, n, i + 1)),
{
    let s = ints(ts, n, i); let v = int_of(ts, i);
    assert(ints(ts, n, i + 1) =~= s.push(v));
    s.lemma_push_to_set_commute(v);
    if s.contains(v) { let p = choose|p: int| 0 <= p < s.len() && s[p] == v; assert(s.push(v)[p] == v); assert(s.push(v)[s.len() as int] == v); }
    assert forall|e: int| e >= i + 1 && #[trigger] distinct(ints(ts, n, e)) implies distinct(ints(ts, n, i + 1)) by {
        assert forall|p: int, q: int| 0 <= p < q < ints(ts, n, i + 1).len() implies #[trigger] ints(ts, n, i + 1)[p] != #[trigger] ints(ts, n, i + 1)[q] by {
            assert(ints(ts, n, e)[p] != ints(ts, n, e)[q]);
        }
    }
}
// every range of tokens can be listed
pub proof fn lemma_spans(t: Seq<char>, ts: Seq<Token>)
    requires placed(t, ts)
    ensures forall|i: int, j: int, r: SourceRange| 0 <= i <= j <= ts.len() && #[trigger] range_is(ts, i, j, r) ==> range_fine(t, r)
{
    assert forall|i: int, j: int, r: SourceRange| 0 <= i <= j <= ts.len() && #[trigger] range_is(ts, i, j, r) implies range_fine(t, r) by {
        lemma_tokens_span(t, ts, i, j, r);
    }
}
// a token ends within the text
pub proof fn lemma_ends(t: &str, ts: Seq<Token>)
    requires placed(t@, ts)
    ensures forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i].source_range.end <= isize::MAX
{
    axiom_fits(t);
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] ts[i].source_range.end <= isize::MAX by {
        assert(lies(t@, ts[i])); lemma_bpos(t@, to(t@, ts[i]), t@.len() as int);
    }
}
pub proof fn lemma_fields_push(ts: Seq<Token>, starts: Seq<int>, fs: Seq<Field>, i: int, f: Field)
    ensures are_fields(ts, starts, fs) && is_field(ts, i, f) ==> are_fields(ts, starts.push(i), fs.push(f)), are_fields(ts, Seq::empty(), Seq::empty())
{ }
pub proof fn lemma_decls_push(ts: Seq<Token>, starts: Seq<int>, ds: Seq<Declaration>, i: int, d: Declaration)
    ensures are_decls(ts, starts, ds) && is_decl(ts, i, d) ==> are_decls(ts, starts.push(i), ds.push(d)), are_decls(ts, Seq::empty(), Seq::empty())
{ }
pub proof fn lemma_empty(ts: Seq<Token>)
    ensures are_imports(ts, Seq::empty(), Map::empty()), distinct(import_keys(ts, Seq::empty())), distinct(Seq::<usize>::empty()), Seq::<usize>::empty().to_set() == Set::<usize>::empty()
{ assert(import_keys(ts, Seq::empty()) =~= Seq::empty()); assert(Seq::<usize>::empty().to_set() =~= Set::<usize>::empty()); assert(Map::<Seq<char>, (Identifier, Import)>::empty().dom() =~= import_keys(ts, Seq::empty()).to_set()); }
pub proof fn lemma_known(ts: Seq<Token>, starts: Seq<int>, m: Map<Seq<char>, (Identifier, Import)>, k: Seq<char>)
    ensures are_imports(ts, starts, m) ==> m.contains_key(k) == import_keys(ts, starts).contains(k)
{ }
// the imports of a schema were spelled by its tokens
pub proof fn lemma_import_starts(ts: Seq<Token>, i: int)
    requires 0 <= i
    ensures forall|j: int| 0 <= j < import_list(ts, i).starts.len() ==> {
        let s = #[trigger] import_list(ts, i).starts[j];
        0 <= s < ts.len() && import_end(ts, s) is Some && s < import_end(ts, s).unwrap() <= ts.len() }
    decreases ts.len() - i
{
    reveal(import_list);
    if at(ts, i) == Some(Variant::Import) { if let Some(j) = import_end(ts, i) { if i < j <= ts.len() { lemma_import_starts(ts, j); 
        let l = import_list(ts, i).starts; assert forall|q: int| 0 <= q < l.len() implies 0 <= #[trigger] l[q] < ts.len() && import_end(ts, l[q]) is Some && l[q] < import_end(ts, l[q]).unwrap() <= ts.len() by {
            if q > 0 { assert(l[q] == import_list(ts, j).starts[q - 1]); } }
    } } }
}
pub proof fn lemma_import_ranges(t: Seq<char>, ts: Seq<Token>, s: Schema)
    requires placed(t, ts), grammatical(ts), spells(ts, s)
    ensures forall|k: Seq<char>| #[trigger] s.imports@.contains_key(k) ==> range_fine(t, s.imports@[k].1.source_range)
{
    let l = import_list(ts, after_opening(ts)).starts;
    lemma_import_starts(ts, after_opening(ts)); lemma_spans(t, ts);
    assert forall|k: Seq<char>| #[trigger] s.imports@.contains_key(k) implies range_fine(t, s.imports@[k].1.source_range) by {
        assert(import_keys(ts, l).contains(k));
        let j = choose|j: int| 0 <= j < l.len() && import_keys(ts, l)[j] == k;
        assert(is_import(ts, l[j], s.imports@[k].1));
        assert(range_is(ts, l[j], import_end(ts, l[j]).unwrap(), s.imports@[k].1.source_range));
    }
}
}
