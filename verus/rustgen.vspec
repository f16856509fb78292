@# generate_rust.rs: the module tree and every type reference (C13)
@@ include common.vspec
@@ include schema_types.vspec
@@ include namespace.vspec
@@ include writer.vspec
@@ fmt text
@@ raw
pub trait IntoIdentifier { fn into_identifier(&self) -> (r: crate::identifier::Identifier); }
impl IntoIdentifier for &str {
    #[verifier::external_body]
    fn into_identifier(&self) -> (r: crate::identifier::Identifier) ensures r == crate::identifier::Identifier::of((*self)@) { unimplemented!() }
}
impl crate::identifier::Identifier {
    pub uninterp spec fn snake(&self) -> Seq<char>;
    pub uninterp spec fn pascal(&self) -> Seq<char>;
    pub uninterp spec fn joined(&self, o: &Self) -> Self;
    pub uninterp spec fn of(s: Seq<char>) -> Self;
    #[verifier::external_body]
    pub fn snake_case(&self) -> (r: String) ensures r@ == self.snake() { unimplemented!() }
    #[verifier::external_body]
    pub fn pascal_case(&self) -> (r: String) ensures r@ == self.pascal() { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, other: &Self) -> (r: Self) ensures r == self.joined(other) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Self) ensures r == Self::of(s@) { unimplemented!() }
}
@@ module generate_rust src/generate_rust.rs
use crate::shim::*;
use crate::out::*;
use crate::identifier::Identifier;
use crate::schema::{self, relativize_namespace, leads};
use crate::IntoIdentifier;
use vstd::prelude::*;
@@ take CaseConvention Direction Module INDENTATION RUST_KEYWORDS RUST_NON_RAW_KEYWORDS TRAITS_TO_DERIVE
@@ raw
use CaseConvention::{Pascal, Snake};
use Direction::{Atlas, In, Out};

// ---- what a reference has to denote ---------------------------------------------------------
pub open spec fn supers(n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { supers(n - 1) + "super::"@ } }
pub open spec fn path(s: Seq<Identifier>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { path(s.drop_last()) + ident(s.last(), CaseConvention::Snake, None) + "::"@ }
}
// A constant is a constant: its value is a name for whatever the source says.
pub uninterp spec fn rust_keywords() -> Seq<&'static str>;
pub uninterp spec fn rust_non_raw_keywords() -> Seq<&'static str>;
pub open spec fn among(s: Seq<&'static str>, t: Seq<char>, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i])@ == t }
pub open spec fn suffix_text(d: Direction) -> Seq<char> {
    match d { Direction::Atlas => "Atlas"@, Direction::In => "In"@, Direction::Out => "Out"@ }
}
pub open spec fn cased(i: Identifier, case: CaseConvention, suffix: Option<Direction>) -> Seq<char> {
    let j = match suffix { Some(d) => i.joined(&Identifier::of(suffix_text(d))), None => i };
    match case { CaseConvention::Pascal => j.pascal(), CaseConvention::Snake => j.snake() }
}
pub open spec fn ident(i: Identifier, case: CaseConvention, suffix: Option<Direction>) -> Seq<char> {
    let c = cased(i, case, suffix);
    if among(rust_non_raw_keywords(), c, rust_non_raw_keywords().len() as int) { c + "_"@ }
    else if among(rust_keywords(), c, rust_keywords().len() as int) { "r#"@ + c }
    else { c }
}
// `t` denotes the item `tail` of module `to` when written in module `from`.
pub open spec fn denotes(t: Seq<char>, from: Seq<Identifier>, to: Seq<Identifier>, tail: Seq<char>) -> bool {
    exists|up: int, rest: Seq<Identifier>| #[trigger] leads(from, up, rest, to) && t == supers(up) + path(rest) + tail
}
pub open spec fn target(c: Ctx, import: Option<Identifier>) -> Seq<Identifier> {
    match import { Some(i) => c.imports[i].components@, None => c.ns }
}
pub open spec fn is_plain(v: schema::TypeVariant) -> bool { v is Bool || v is F64 || v is S64 || v is U64 || v is Unit }
pub open spec fn wrapped(t: Seq<char>, a: Seq<char>, u: Seq<char>, b: Seq<char>) -> bool { t == a + u + b }
// The text written for a type: every named type in it is a reference which denotes its declaration.
pub open spec fn type_text(t: Seq<char>, c: Ctx, tv: schema::TypeVariant, d: Direction) -> bool
    decreases tv
{
    match tv {
        schema::TypeVariant::Array(inner) => match d {
            Direction::Atlas => if is_plain(inner.variant) { t == "usize"@ }
                else { exists|u: Seq<char>| #[trigger] wrapped(t, "(usize, Vec<"@, u, ">)"@) && type_text(u, c, inner.variant, d) },
            _ => exists|u: Seq<char>| #[trigger] wrapped(t, "Vec<"@, u, ">"@) && type_text(u, c, inner.variant, d),
        },
        schema::TypeVariant::Custom(import, name) => denotes(t, c.ns, target(c, import), ident(name, CaseConvention::Pascal, Some(d))),
        _ => t == literal(tv, d),
    }
}
pub open spec fn literal(tv: schema::TypeVariant, d: Direction) -> Seq<char> {
    match tv {
        schema::TypeVariant::Bool => if d == Direction::Atlas { "usize"@ } else { "bool"@ },
        schema::TypeVariant::Bytes => if d == Direction::Atlas { "usize"@ } else { "Vec<u8>"@ },
        schema::TypeVariant::F64 => if d == Direction::Atlas { "usize"@ } else { "f64"@ },
        schema::TypeVariant::S64 => if d == Direction::Atlas { "usize"@ } else { "i64"@ },
        schema::TypeVariant::String => if d == Direction::Atlas { "usize"@ } else { "String"@ },
        schema::TypeVariant::U64 => if d == Direction::Atlas { "usize"@ } else { "u64"@ },
        _ => if d == Direction::Atlas { "usize"@ } else { "()"@ },
    }
}
pub open spec fn module_items(ns: Seq<Identifier>, name: Identifier, m: Module) -> Seq<Item>
    decreases height(m.children), 3int, 0int
{
    chars(indent(ns.len() as int) + "pub mod "@ + ident(name, CaseConvention::Snake, None) + " {\n"@)
        + contents_items(ns.push(name), m.children, m.schema)
        + chars(indent(ns.len() as int) + "}\n"@)
}
@@ include gentree.vspec GEN=generate_rust
@@ takefns
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ auto generate_rust requires supers: usize
    supers == old(buffer)@.inside.unwrap().ns.len(),
@@ fn generate_rust::write_supers ret r
    ensures r.is_ok(), kept(final(buffer)@, old(buffer)@), final(buffer)@ == after_put(old(buffer)@, supers(count as int)),
@@ fn generate_rust::write_supers loop 0 pre
    proof { lemma_put_nothing(buffer@); }
@@ fn generate_rust::write_supers loop 0 end
    proof { lemma_put(old(buffer)@, supers(__k0 as int), "super::"@); }
@@ fn generate_rust::write_supers loop 0 inv
    invariant kept(buffer@, old(buffer)@), buffer@ == after_put(old(buffer)@, supers(__k0 as int)),
@@ fn generate_rust::write_identifier ret r
    ensures r.is_ok(), kept(final(buffer)@, old(buffer)@), final(buffer)@ == after_put(old(buffer)@, ident(*identifier, case, suffix)),
@@ fn generate_rust::write_type ret r
    requires
        in_schema(old(buffer)@),
        imports@ == old(buffer)@.inside.unwrap().imports,
        namespace.components@ == old(buffer)@.inside.unwrap().ns,
        known(imports@, *type_variant),
    ensures
        r.is_ok(), final(buffer)@.inside == old(buffer)@.inside, final(buffer)@.outline == old(buffer)@.outline,
        type_text(since(final(buffer)@, old(buffer)@), old(buffer)@.inside.unwrap(), *type_variant, direction),
        final(buffer)@ == after_put(old(buffer)@, since(final(buffer)@, old(buffer)@)),
    decreases *type_variant
@@ fn generate_rust::write_type entry
    let ghost mut u = Seq::<char>::empty();
@@ fn generate_rust::write_type before write_type ?\(
    let ghost b1 = buffer@;
@@ fn generate_rust::write_type after write_type ?\(
    proof { u = since(buffer@, b1); }
@@ fn generate_rust::write_identifier entry
    broadcast use text_lemmas;
@@ fn generate_rust::write_type loop 0 start
    proof { assert(__it0@.take(__i0 + 1).drop_last() =~= __it0@.take(__i0 as int)); }
@@ fn generate_rust::write_type loop 0 end
    proof { assert(path(__it0@.take(__i0 + 1)) == path(__it0@.take(__i0 as int)) + ident(__it0@[__i0 as int], CaseConvention::Snake, None) + "::"@);
        lemma_assoc(u, path(__it0@.take(__i0 as int)), ident(__it0@[__i0 as int], CaseConvention::Snake, None));
        lemma_assoc(u, path(__it0@.take(__i0 as int)) + ident(__it0@[__i0 as int], CaseConvention::Snake, None), "::"@); }
@@ fn generate_rust::write_type loop 0 post
    proof { assert(__it0@.take(__it0@.len() as int) =~= __it0@); }
@@ fn generate_rust::write_type loop 0 inv
    invariant
        in_schema(old(buffer)@),
        kept(buffer@, old(buffer)@), buffer@ == after_put(old(buffer)@, u + path(__it0@.take(__i0 as int))),
@@ fn generate_rust::write_type loop 0 pre
    proof { u = since(buffer@, old(buffer)@); assert(u + path(__it0@.take(0)) =~= u); }
@@ fn generate_rust::write_type entry
    broadcast use text_lemmas;
    let ghost mut u = Seq::<char>::empty();
@@ fn generate_rust::write_identifier attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ fn generate_rust::write_identifier subst
    converted_identifier == \*keyword ==> crate::shimt::text_eq(&converted_identifier, *keyword)
    \.into\(\) ==> .into_identifier()
@@ fn generate_rust::write_identifier loop any0 inv
    invariant any__ == among(rust_non_raw_keywords(), converted_identifier@, iA__ as int), itA__@ == rust_non_raw_keywords(),
@@ fn generate_rust::write_identifier loop any1 inv
    invariant any__ == among(rust_keywords(), converted_identifier@, iA__ as int), itA__@ == rust_keywords(),
@@ fn generate_rust::write_type attr
#[verifier::loop_isolation(false)]
@@ fn generate_rust::write_supers attr
#[verifier::loop_isolation(false)]
@@ fn generate_rust::write_type before Ok\( ?\( ?\) ?\)
    proof {
        let t = since(buffer@, old(buffer)@);
        let c = old(buffer)@.inside.unwrap();
        if let schema::TypeVariant::Custom(import, name) = type_variant {
            let tail = ident(*name, CaseConvention::Pascal, Some(direction));
            assert(denotes(t, c.ns, target(c, *import), tail));
        } else if let schema::TypeVariant::Array(inner) = type_variant {
            if direction != Direction::Atlas { assert(wrapped(t, "Vec<"@, u, ">"@)); }
            else if is_plain(inner.variant) { assert(t == "usize"@); }
            else { assert(wrapped(t, "(usize, Vec<"@, u, ">)"@)); }
        }
        assert(type_text(t, c, *type_variant, direction));
    }
@@ const generate_rust::RUST_KEYWORDS
    ensures RUST_KEYWORDS@ == rust_keywords()
@@ constattr generate_rust::RUST_KEYWORDS
#[verifier::external_body]
@@ const generate_rust::RUST_NON_RAW_KEYWORDS
    ensures RUST_NON_RAW_KEYWORDS@ == rust_non_raw_keywords()
@@ constattr generate_rust::RUST_NON_RAW_KEYWORDS
#[verifier::external_body]
@@ const generate_rust::TRAITS_TO_DERIVE
    ensures true
@@ constattr generate_rust::TRAITS_TO_DERIVE
#[verifier::external_body]
