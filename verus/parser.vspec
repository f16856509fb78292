@# parser.rs (C08, C06)
@@ include common.vspec
@@ include text.vspec
@@ fmt string
@@ methods
    is_empty/0 ==> crate::lst::is_empty(&$R)
    clone/0 ==> ($R).dup_()
    clone_from/1 ==> $R = ($1).dup_()
    code_str/0 ==> crate::names::code(&$R)
    to_string/0 ==> crate::names::text(&$R)
    to_string_lossy/0 ==> $R
    as_ref/0 ==> $R
    as_str/0 ==> $R
    into/0 ==> crate::names::named(&$R)
    file_stem/0 ==> crate::names::stem(&$R)
    last/0 ==> crate::names::last($R)
    get/1 ==> crate::shim::vec_get($R, $1)
@@ include lst.vspec
@@ module error src/error.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
@@ raw
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub fn throw<M: StrShim + ?Sized, E>(message: &M, path: Option<&Path>, listing: Option<&String>, reason: Option<E>) -> (r: Error) { unimplemented!() }
impl Clone for SourceRange { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for SourceRange {}
@@ take SourceRange listing
@@ endmodule
@@ fn error::listing external
@@ fn error::listing ret r
    requires range_fine(source_contents@, source_range)
@@ module identifier src/identifier.rs
use vstd::prelude::*;
@@ raw
#[verifier::external_body]
pub struct Identifier { p: u8 }
impl Clone for Identifier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@@ endmodule
@@ include names.vspec
@@ subst schema
    \bBTreeMap<Identifier, Import> ==> NameMap<Import>
@@ subst parser
    \bBTreeMap::new\(\) ==> NameMap::new()
    \bthrow::<Error>\( ==> throw::<_, Error>(
    &\[token::Token\] ==> &Vec<token::Token>
@@ module token src/token.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::error::SourceRange;
use crate::identifier::Identifier;
@@ take Token Variant
@@ endmodule
@@ module schema src/schema.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::names::*;
use crate::error::SourceRange;
use crate::identifier::Identifier;
@@ take Schema Import Declaration DeclarationVariant Field Rule Type TypeVariant Namespace
@@ endmodule
@@ include placed.vspec
@@ include grammar.vspec
@@ module parser src/parser.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
use crate::names::*;
use crate::grammar::*;
use crate::placed::*;
use crate::token;
use crate::token::Variant;
use crate::schema;
use crate::identifier::Identifier;
use crate::error::{listing, throw, Error, SourceRange};
@@ take token_source_range span_tokens unexpected_token parse parse_schema parse_import parse_field parse_type
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ fn parser::token_source_range ret r
    requires position <= tokens@.len()
    ensures if position < tokens@.len() { r == tokens@[position as int].source_range && range_is(tokens@, position as int, position + 1, r) } else { range_is(tokens@, position as int, position as int, r) }
@@ fn parser::span_tokens ret r
    requires start <= end <= tokens@.len()
    ensures range_is(tokens@, start as int, end as int, r)
@@ fn parser::unexpected_token sig
    fn unexpected_token\( ==> fn unexpected_token<E_: StrShim + Show + ?Sized>(
    expectation: &str ==> expectation: &E_
@@ fn parser::unexpected_token ret r
    requires position <= tokens@.len(), placed(source_contents@, tokens@)
@@ fn parser::unexpected_token after let source_range
    proof { lemma_spans(source_contents@, tokens@); }
@@ fn parser::parse_type ret r
    requires 2 <= tokens@.len(), *old(position) <= tokens@.len(), placed(source_contents@, tokens@)
    ensures ({
        let i = *old(position) as int;
        &&& r.is_some() == type_end(tokens@, i).is_some()
        &&& i <= *final(position) <= tokens@.len()
        &&& match r {
            Some(x) => final(errors)@ == old(errors)@ && *final(position) == type_end(tokens@, i).unwrap() && is_type(tokens@, i, *final(position) as int, x),
            None => final(errors)@.len() > old(errors)@.len(),
        }
    })
    decreases tokens@.len() - *old(position)
@@ fn parser::parse_type entry
    hide(crate::lst::range_fine); hide(crate::placed::placed); hide(crate::grammar::range_is);
    proof { lemma_type_end(tokens@, *position as int); }
@@ fn parser::parse_field ret r
    requires *old(position) < tokens@.len(), placed(source_contents@, tokens@)
    ensures ({
        let i = *old(position) as int;
        &&& r.is_some() == field_end(tokens@, i).is_some()
        &&& i <= *final(position) <= tokens@.len()
        &&& match r {
            Some(x) => final(errors)@ == old(errors)@ && *final(position) == field_end(tokens@, i).unwrap() && is_field(tokens@, i, x),
            None => final(errors)@.len() > old(errors)@.len(),
        }
    })
@@ fn parser::parse_field entry
    hide(crate::lst::range_fine); hide(crate::placed::placed); hide(crate::grammar::range_is); hide(crate::grammar::is_type);
    proof { lemma_field_end(tokens@, *position as int); lemma_type_end(tokens@, field_name(tokens@, *position as int) + 2); }
@@ fn parser::parse_import ret r
    requires *old(position) < tokens@.len(), placed(source_contents@, tokens@), at(tokens@, *old(position) as int) == Some(Variant::Import)
    ensures ({
        let i = *old(position) as int;
        &&& i < *final(position) <= tokens@.len()
        &&& match import_end(tokens@, i) {
            Some(j) => final(errors)@ == old(errors)@ && r.is_some() && *final(position) == j && r.unwrap().0 == import_name(tokens@, i) && is_import(tokens@, i, r.unwrap().1),
            None => final(errors)@.len() > old(errors)@.len(),
        }
        // whatever it is named, it can be listed
        &&& r.is_some() ==> range_fine(source_contents@, r.unwrap().1.source_range)
    })
@@ fn parser::parse_import entry
    hide(crate::lst::range_fine); hide(crate::placed::placed); hide(crate::grammar::range_is);
    proof { lemma_spans(source_contents@, tokens@); }
@@ fn parser::parse_schema entry
    hide(crate::grammar::is_field); hide(crate::grammar::field_end); hide(crate::grammar::is_type); hide(crate::grammar::type_end); hide(crate::grammar::is_import);
    hide(crate::grammar::import_end); hide(crate::grammar::import_name); hide(crate::grammar::are_imports); hide(crate::grammar::are_decls); hide(crate::grammar::are_fields);
    hide(crate::grammar::distinct); hide(crate::grammar::range_is); hide(crate::grammar::ints); hide(crate::grammar::import_keys); hide(crate::lst::range_fine); hide(crate::placed::placed);
    proof { lemma_empty(tokens@); lemma_fields_push(tokens@, Seq::empty(), Seq::empty(), 0, arbitrary()); lemma_decls_push(tokens@, Seq::empty(), Seq::empty(), 0, arbitrary()); lemma_spans(source_contents@, tokens@); lemma_ends(source_contents, tokens@); }
@@ fn parser::parse_type attr
    #[verifier::rlimit(200)]
@@ fn parser::parse_field attr
    #[verifier::rlimit(200)]
@@ fn parser::parse_schema ret r
    requires *old(position) == 0, old(errors)@.len() == 0, placed(source_contents@, tokens@)
    ensures *final(position) <= tokens@.len(),
        final(errors)@.len() == 0 ==> grammatical(tokens@) && spells(tokens@, r) && *final(position) == tokens@.len(),
        final(errors)@.len() > 0 ==> !grammatical(tokens@)
@@ fn parser::parse ret r
    requires placed(source_contents@, tokens@)
    ensures r is Ok <==> grammatical(tokens@),
        r matches Ok(s) ==> spells(tokens@, s),
        r matches Err(es) ==> es@.len() > 0
@@ fn parser::parse_schema attr
    #[verifier::rlimit(300)]
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
@@ fn parser::parse_schema loop 0 pre
    let ghost a = *position as int;
    let ghost mut idone: Seq<int> = Seq::empty();
    proof { lemma_prefix_nil(import_list(tokens@, a)); }
@@ fn parser::parse_schema loop 0 inv
    invariant
        a == after_opening(tokens@), *position <= tokens@.len(),
        errors@.len() == 0 ==> import_list(tokens@, a) == after(idone, import_list(tokens@, *position as int)) && distinct(import_keys(tokens@, idone)) && are_imports(tokens@, idone, imports@),
        errors@.len() > 0 ==> !grammatical(tokens@),
    ensures
        errors@.len() == 0 ==> import_list(tokens@, *position as int) == nil(*position as int),
    decreases tokens@.len() - *position,
@@ fn parser::parse_schema loop 0 start
    let ghost i = *position as int;
    let ghost e0 = errors@.len();
    let ghost m0 = imports@;
    proof { reveal(import_list); if e0 == 0 && at(tokens@, i) == Some(Variant::Import) { lemma_import_bad(tokens@, a, idone, i); lemma_known(tokens@, idone, m0, key(import_name(tokens@, i))); } }
@@ fn parser::parse_schema loop 0 end
    proof {
        if errors@.len() == 0 {
            lemma_import_step(tokens@, idone, i, m0, imports@[key(import_name(tokens@, i))].1);
        }
        idone = idone.push(i);
    }
@@ fn parser::parse_schema loop 0 post
    let ghost b = *position as int;
    let ghost eb = errors@.len();
    let ghost mut ddone: Seq<int> = Seq::empty();
    proof { reveal(import_list); lemma_prefix_nil(decl_list(tokens@, b)); lemma_after_nil(idone, b); assert(errors@.len() == 0 ==> import_list(tokens@, a) == List { starts: idone, end: Some(b) }); }
@@ fn parser::parse_schema loop 1 inv
    invariant
        b <= *position <= tokens@.len(), errors@.len() >= eb,
        errors@.len() == 0 ==> decl_list(tokens@, b) == after(ddone, decl_list(tokens@, *position as int)) && are_decls(tokens@, ddone, declarations@),
        errors@.len() > 0 ==> !grammatical(tokens@),
    decreases tokens@.len() - *position,
@@ fn parser::parse_schema loop 1 start
    let ghost i = *position as int;
    let ghost e0 = errors@.len();
    let ghost d0 = declarations@;
    proof { reveal(decl_list); assert(decl_end(tokens@, i) is None ==> !grammatical(tokens@)); }
@@ fn parser::parse_schema loop 1 end
    proof { lemma_decls_push(tokens@, ddone, d0, i, declarations@.last()); assert(declarations@ == d0.push(declarations@.last())); assert(errors@.len() == 0 ==> decl_end(tokens@, i) == Some(*position as int)); lemma_after_cons(ddone, i, decl_list(tokens@, *position as int)); assert(errors@.len() == 0 ==> is_decl(tokens@, i, declarations@.last())); ddone = ddone.push(i); }
@@ fn parser::parse_schema loop 1 post
    proof { reveal(decl_list); lemma_after_nil(ddone, *position as int); 
    }
@@ fn parser::parse_schema loop 2 pre
    let ghost f0 = *position as int;
    let ghost mut fdone: Seq<int> = Seq::empty();
    proof { lemma_prefix_nil(field_list(tokens@, f0)); }
@@ fn parser::parse_schema loop 2 inv
    invariant
        f0 <= *position <= tokens@.len(), errors@.len() >= e0,
        errors@.len() == 0 ==> field_list(tokens@, f0) == after(fdone, field_list(tokens@, *position as int)) && are_fields(tokens@, fdone, fields@),
        errors@.len() > 0 ==> !grammatical(tokens@),
    ensures
        errors@.len() == 0 ==> field_list(tokens@, *position as int) == nil(*position as int),
    decreases tokens@.len() - *position,
@@ fn parser::parse_schema loop 2 start
    let ghost fi = *position as int;
    let ghost fs0 = fields@;
    proof { reveal(field_list); lemma_field_end(tokens@, fi); if field_end(tokens@, fi).is_some() { lemma_after_cons(fdone, fi, field_list(tokens@, field_end(tokens@, fi).unwrap())); } }
@@ fn parser::parse_schema loop 2 end
    proof { lemma_fields_push(tokens@, fdone, fs0, fi, fields@.last()); assert(fields@ == fs0.push(fields@.last())); fdone = fdone.push(fi); }
@@ fn parser::parse_schema loop 2 post
    let ghost j = *position as int;
    let ghost ej = errors@.len();
    proof { reveal(field_list); lemma_after_nil(fdone, j); assert(errors@.len() == 0 ==> field_list(tokens@, f0) == List { starts: fdone, end: Some(j) }); }
@@ fn parser::parse_schema loop 3 inv
    invariant *position <= tokens@.len(), f0 <= *position,
    decreases tokens@.len() - *position,
@@ fn parser::parse_schema loop 4 pre
    let ghost n0 = *position as int;
    proof { lemma_ints_end(tokens@, n0); assert(ints(tokens@, n0, n0) == Seq::<usize>::empty()) by { reveal(crate::grammar::ints); assert(ints(tokens@, n0, n0) =~= Seq::<usize>::empty()); } }
@@ fn parser::parse_schema loop 4 inv
    invariant
        n0 <= *position <= tokens@.len(), errors@.len() >= ej,
        ints_end(tokens@, n0) == ints_end(tokens@, *position as int),
        errors@.len() == 0 ==> deleted@ == ints(tokens@, n0, *position as int).to_set() && distinct(ints(tokens@, n0, *position as int)),
        errors@.len() > 0 ==> !grammatical(tokens@),
    ensures
        *position == ints_end(tokens@, n0),
    decreases tokens@.len() - *position,
@@ fn parser::parse_schema loop 4 start
    let ghost ni = *position as int;
    let ghost del0 = deleted@;
    proof { lemma_ints_end(tokens@, ni); if int_at(tokens@, ni) { lemma_ints_step(tokens@, n0, ni); } }
