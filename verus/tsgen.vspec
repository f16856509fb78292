@# generate_typescript.rs: the module tree and every type reference (C13)
@@ include common.vspec
@@ include schema_types.vspec
@@ include namespace.vspec
@@ include writer.vspec
@@ fmt text
@@ raw
pub trait IntoIdentifier { fn into_identifier(&self) -> (r: crate::identifier::Identifier); }
impl IntoIdentifier for &str {
    #[verifier::external_body]
    fn into_identifier(&self) -> (r: crate::identifier::Identifier) ensures r == crate::identifier::Identifier::of((*self)@) { unimplemented!() }
}
impl crate::identifier::Identifier {
    pub uninterp spec fn snake(&self) -> Seq<char>;
    pub uninterp spec fn camel(&self) -> Seq<char>;
    pub uninterp spec fn pascal(&self) -> Seq<char>;
    pub uninterp spec fn joined(&self, o: &Self) -> Self;
    pub uninterp spec fn of(s: Seq<char>) -> Self;
    #[verifier::external_body]
    pub fn snake_case(&self) -> (r: String) ensures r@ == self.snake() { unimplemented!() }
    #[verifier::external_body]
    pub fn camel_case(&self) -> (r: String) ensures r@ == self.camel() { unimplemented!() }
    #[verifier::external_body]
    pub fn pascal_case(&self) -> (r: String) ensures r@ == self.pascal() { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, other: &Self) -> (r: Self) ensures r == self.joined(other) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Self) ensures r == Self::of(s@) { unimplemented!() }
}
@@ module generate_typescript src/generate_typescript.rs
use crate::shim::*;
use crate::out::*;
use crate::identifier::Identifier;
use crate::schema;
use crate::IntoIdentifier;
use vstd::prelude::*;
@@ take CaseConvention Direction Module INDENTATION TYPESCRIPT_KEYWORDS
@@ raw
use CaseConvention::{Camel, Pascal};
use Direction::{Atlas, In, Out};

// ---- what a reference has to denote: the path from the root of the output -------------------
pub open spec fn path(s: Seq<Identifier>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { path(s.drop_last()) + ident(s.last(), CaseConvention::Pascal, None) + "."@ }
}
pub uninterp spec fn typescript_keywords() -> Seq<&'static str>;
pub open spec fn among(s: Seq<&'static str>, t: Seq<char>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i])@ == t }
pub open spec fn suffix_text(d: Direction) -> Seq<char> {
    match d { Direction::Atlas => "Atlas"@, Direction::In => "In"@, Direction::Out => "Out"@ }
}
pub open spec fn cased(i: Identifier, case: CaseConvention, suffix: Option<Direction>) -> Seq<char> {
    let j = match suffix { Some(d) => i.joined(&Identifier::of(suffix_text(d))), None => i };
    match case { CaseConvention::Pascal => j.pascal(), CaseConvention::Camel => j.camel() }
}
pub open spec fn ident(i: Identifier, case: CaseConvention, suffix: Option<Direction>) -> Seq<char> {
    let c = cased(i, case, suffix);
    if among(typescript_keywords(), c, typescript_keywords().len() as int) { "_"@ + c } else { c }
}
pub open spec fn target(c: Ctx, import: Option<Identifier>) -> Seq<Identifier> {
    match import { Some(i) => c.imports[i].components@, None => c.ns }
}
pub open spec fn opt(i: Option<&Identifier>) -> Option<Identifier> { match i { Some(i) => Some(*i), None => None } }
pub open spec fn reference(c: Ctx, import: Option<Identifier>, name: Identifier, d: Option<Direction>) -> Seq<char> {
    path(target(c, import)) + ident(name, CaseConvention::Pascal, d)
}
pub open spec fn is_plain(v: schema::TypeVariant) -> bool { v is Bool || v is F64 || v is S64 || v is U64 || v is Unit }
// The text written for a type: every named type in it is the reference which denotes its declaration.
pub open spec fn type_text(c: Ctx, tv: schema::TypeVariant, d: Direction) -> Seq<char>
    decreases tv
{
    match tv {
        schema::TypeVariant::Array(inner) => match d {
            Direction::Atlas => if is_plain(inner.variant) { "number"@ }
                else { "{ $size: number; $elements: "@ + type_text(c, inner.variant, d) + "[] }"@ },
            _ => type_text(c, inner.variant, d) + "[]"@,
        },
        schema::TypeVariant::Custom(import, name) => reference(c, import, name, Some(d)),
        _ => literal(tv, d),
    }
}
pub open spec fn literal(tv: schema::TypeVariant, d: Direction) -> Seq<char> {
    match tv {
        schema::TypeVariant::Bool => if d == Direction::Atlas { "number"@ } else { "boolean"@ },
        schema::TypeVariant::Bytes => if d == Direction::Atlas { "number"@ } else { "ArrayBuffer"@ },
        schema::TypeVariant::F64 => "number"@,
        schema::TypeVariant::S64 => if d == Direction::Atlas { "number"@ } else { "bigint"@ },
        schema::TypeVariant::String => if d == Direction::Atlas { "Uint8Array"@ } else { "string"@ },
        schema::TypeVariant::U64 => if d == Direction::Atlas { "number"@ } else { "bigint"@ },
        _ => if d == Direction::Atlas { "number"@ } else { "null"@ },
    }
}
pub open spec fn module_items(ns: Seq<Identifier>, name: Identifier, m: Module) -> Seq<Item>
    decreases height(m.children), 3int, 0int
{
    chars(indent(ns.len() as int) + "export namespace "@ + ident(name, CaseConvention::Pascal, None) + " {\n"@)
        + contents_items(ns.push(name), m.children, m.schema)
        + chars(indent(ns.len() as int) + "}\n"@)
}
@@ include gentree.vspec GEN=generate_typescript
@@ takefns
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ auto generate_typescript requires import: Option<&Identifier>
    import.is_some() ==> imports@.contains_key(*import.unwrap()),
@@ fn generate_typescript::write_identifier ret r
    ensures r.is_ok(), kept(final(buffer)@, old(buffer)@), final(buffer)@ == after_put(old(buffer)@, ident(*identifier, case, suffix)),
@@ fn generate_typescript::write_identifier entry
    broadcast use text_lemmas;
@@ fn generate_typescript::write_identifier attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ fn generate_typescript::write_identifier subst
    converted_identifier == \*keyword ==> crate::shimt::text_eq(&converted_identifier, *keyword)
    \.into\(\) ==> .into_identifier()
@@ fn generate_typescript::write_identifier loop any0 inv
    invariant any__ == among(typescript_keywords(), converted_identifier@, iA__ as int), itA__@ == typescript_keywords(),
@@ fn generate_typescript::write_type ret r
    requires
        in_schema(old(buffer)@),
        imports@ == old(buffer)@.inside.unwrap().imports,
        namespace.components@ == old(buffer)@.inside.unwrap().ns,
        known(imports@, *type_variant),
    ensures
        r.is_ok(), kept(final(buffer)@, old(buffer)@),
        final(buffer)@ == after_put(old(buffer)@, type_text(old(buffer)@.inside.unwrap(), *type_variant, direction)),
    decreases *type_variant
@@ fn generate_typescript::write_type entry
    broadcast use text_lemmas;
@@ fn generate_typescript::write_custom_type ret r
    requires
        in_schema(old(buffer)@),
        imports@ == old(buffer)@.inside.unwrap().imports,
        namespace.components@ == old(buffer)@.inside.unwrap().ns,
        import.is_some() ==> imports@.contains_key(*import.unwrap()),
    ensures
        r.is_ok(), kept(final(buffer)@, old(buffer)@),
        final(buffer)@ == after_put(old(buffer)@, reference(old(buffer)@.inside.unwrap(), opt(import), *name, direction)),
@@ fn generate_typescript::write_custom_type loop 0 pre
    proof { lemma_put_nothing(buffer@); }
@@ fn generate_typescript::write_custom_type loop 0 inv
    invariant
        kept(buffer@, old(buffer)@), buffer@ == after_put(old(buffer)@, path(__it0@.take(__i0 as int))),
@@ fn generate_typescript::write_custom_type loop 0 start
    let ghost p = path(__it0@.take(__i0 as int));
    let ghost i = ident(__it0@[__i0 as int], CaseConvention::Pascal, None);
    proof { assert(__it0@.take(__i0 + 1).drop_last() =~= __it0@.take(__i0 as int)); }
@@ fn generate_typescript::write_custom_type loop 0 end
    proof {
        lemma_put(old(buffer)@, p, i); lemma_put(old(buffer)@, p + i, "."@);
        assert(path(__it0@.take(__i0 + 1)) == p + i + "."@);
    }
@@ fn generate_typescript::write_custom_type loop 0 post
    proof { assert(__it0@.take(__it0@.len() as int) =~= __it0@);
        lemma_put(old(buffer)@, path(__it0@), ident(*name, CaseConvention::Pascal, direction)); }
@@ fn generate_typescript::write_custom_type attr
#[verifier::loop_isolation(false)]
@@ const generate_typescript::TYPESCRIPT_KEYWORDS
    ensures TYPESCRIPT_KEYWORDS@ == typescript_keywords()
@@ constattr generate_typescript::TYPESCRIPT_KEYWORDS
#[verifier::external_body]
