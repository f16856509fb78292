@# schema.rs: the formatter (C11)
@@ include common.vspec
@@ include text.vspec
@@ fmt text
@@ methods
    len/0 ==> crate::lst::length(&$R)
    is_empty/0 ==> crate::lst::is_empty(&$R)
    to_string_lossy/0 ==> $R
    as_ref/0 ==> ($R).as_ref()
    into/0 ==> crate::names::named(&$R)
    file_stem/0 ==> crate::names::stem(&$R)
    display/0 ==> crate::layout::display(&$R)
    split_whitespace/0 ==> crate::wrap::split(&$R)
    collect/0 ==> $R
    join/1 ==> crate::wrap::join(&$R, $1)
    lines/0 ==> crate::wrap::lines(&$R)
    contains/1 ==> crate::wrap::listed($R, $1)
@@ binops
    == Some\(name\) ==> crate::layout::same_name($L, $R)
@@ include lst.vspec
@@ module error src/error.rs
use vstd::prelude::*;
@@ take SourceRange
@@ endmodule
@@ module identifier src/identifier.rs
use vstd::prelude::*;
@@ raw
#[verifier::external_body]
pub struct Identifier { p: u8 }
@@ endmodule
@@ include names.vspec
@@ subst schema
    \bBTreeMap<Identifier, Import> ==> NameMap<Import>
    crate::shim::(put|lit|show|cat|entries|elements)\( ==> crate::layout::\1(
    crate::textfn::cat\( ==> crate::layout::cat(
    crate::names::named\(&\((\w+)\)\.as_ref\(\)\) ==> crate::names::named(&\1)
    \|(\w+)\| crate::names::named\(&\1\) ==> |\1: String| -> (q: Identifier) ensures q == from_text(\1@) { crate::names::named(&\1) }
    textwrap::fill\( ==> crate::wrap::fill(
    pub const KEYWORDS: &(?:'static )?\[&(?:'static )?str\] = &\[([^\]]*)\]; ==> pub fn keywords_() -> (r: &'static [&'static str]) ensures forall|s: Seq<char>| (exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == s) == #[trigger] is_keyword(s) { &[\1] }
    \bKEYWORDS\b(?!\() ==> keywords_()
@@ module token src/token.rs
use vstd::prelude::*;
@@ take ASYMMETRIC_KEYWORD AS_KEYWORD BOOL_KEYWORD BYTES_KEYWORD CHOICE_KEYWORD DELETED_KEYWORD F64_KEYWORD IMPORT_KEYWORD OPTIONAL_KEYWORD S64_KEYWORD STRING_KEYWORD STRUCT_KEYWORD U64_KEYWORD UNIT_KEYWORD
@@ endmodule
@@ module tokenizer src/tokenizer.rs
use vstd::prelude::*;
@@ take RAW_IDENTIFIER_SIGIL
@@ endmodule
@@ include layout.vspec
@@ module schema src/schema.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::names::*;
use crate::wrap::*;
use crate::layout::*;
use crate::token::*;
use crate::tokenizer::RAW_IDENTIFIER_SIGIL;
use crate::error::SourceRange;
use crate::identifier::Identifier;
@@ take Namespace Schema Import Declaration DeclarationVariant Field Rule Type TypeVariant MAX_COLUMNS KEYWORDS
@@ take write_comment write_identifier impl:Schema:write impl:Import:write impl:Declaration:write impl:DeclarationVariant:write impl:Field:write impl:Type:write impl:TypeVariant:write
@@ take inherent:DisplayforSchema=Schema:fmt inherent:DisplayforType=Type:fmt
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ fn schema::write_comment sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::write_comment ret r
    requires indentation@ == ""@ || indentation@ == "    "@
    ensures r is Ok, final(f)@ == old(f)@ + comment_text(indentation@, paragraphs@)
@@ fn schema::write_identifier sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::write_identifier ret r
    ensures r is Ok, final(f)@ == old(f)@ + name_text(identifier@)
@@ fn schema::Schema::write sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::Schema::write ret r
    ensures r is Ok, final(f)@ == old(f)@ + schema_text(*self)
@@ fn schema::Import::write sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::Import::write ret r
    ensures r is Ok, final(f)@ == old(f)@ + import_text(*name, *self)
@@ fn schema::Declaration::write sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::Declaration::write ret r
    ensures r is Ok, final(f)@ == old(f)@ + decl_text(*self)
@@ fn schema::DeclarationVariant::write sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::DeclarationVariant::write ret r
    ensures r is Ok, final(f)@ == old(f)@ + (if *self is Struct { STRUCT_KEYWORD@ } else { CHOICE_KEYWORD@ })
@@ fn schema::Field::write sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::Field::write ret r
    ensures r is Ok, final(f)@ == old(f)@ + field_text(*self)
@@ fn schema::Type::write sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::Type::write ret r
    ensures r is Ok, final(f)@ == old(f)@ + type_text(*self)
@@ fn schema::TypeVariant::write sig
    (fn \w+)<W: Write> ==> \1
    &mut W ==> &mut Out
    fmt::Result ==> Result<(), FmtError>
@@ fn schema::TypeVariant::write ret r
    ensures r is Ok, final(f)@ == old(f)@ + variant_text(*self)
@@ fn schema::write_comment loop 0 inv
    invariant crate::text::blen(indentation@) == indentation@.len(), indentation@.len() <= 4, __it0@ == paragraphs@, indentation@ == ""@ || indentation@ == "    "@, f@ == g0 + comment_upto(indentation@, paragraphs@, __i0 as int)
@@ fn schema::write_comment loop 0 pre
    let ghost g0 = f@; assert(f@ == g0 + comment_upto(indentation@, paragraphs@, 0));
@@ fn schema::write_comment loop 0 start
    let ghost gi = f@;
@@ fn schema::write_comment loop 1 inv
    invariant __it1@.len() == rows_of(indentation@, paragraphs@[__i0 as int]@).len(), forall|i: int| 0 <= i < __it1@.len() ==> (#[trigger] __it1@[i])@ == rows_of(indentation@, paragraphs@[__i0 as int]@)[i],
        f@ == g1 + lines_text(indentation@, rows_of(indentation@, paragraphs@[__i0 as int]@), __i1 as int)
@@ fn schema::write_comment loop 1 pre
    let ghost g1 = f@; assert(f@ == g1 + lines_text(indentation@, rows_of(indentation@, paragraphs@[__i0 as int]@), 0));
@@ fn schema::write_comment loop 1 start
    let ghost gl = f@;
@@ fn schema::write_comment loop 1 end
    assert(f@ == g1 + lines_text(indentation@, rows_of(indentation@, paragraphs@[__i0 as int]@), __i1 + 1));
@@ fn schema::write_comment loop 0 end
    assert(f@ == g0 + comment_upto(indentation@, paragraphs@, __i0 + 1));
@@ fn schema::Schema::write loop 0 kind map
@@ fn schema::Declaration::write loop 1 kind set
@@ fn schema::Schema::write loop 0 inv
    invariant __it0@.len() == in_order(self.imports@).len(), forall|i: int| 0 <= i < __it0@.len() ==> *(#[trigger] __it0@[i]).0 == self.imports@[in_order(self.imports@)[i]].0 && *__it0@[i].1 == self.imports@[in_order(self.imports@)[i]].1,
        f@ == g0 + imports_text(self.imports@, in_order(self.imports@), __i0 as int)
@@ fn schema::Schema::write loop 0 pre
    let ghost g0 = f@; assert(f@ == g0 + imports_text(self.imports@, in_order(self.imports@), 0));
@@ fn schema::Schema::write loop 0 end
    assert(f@ == g0 + imports_text(self.imports@, in_order(self.imports@), __i0 + 1));
@@ fn schema::Schema::write loop 1 inv
    invariant __it1@ == self.declarations@, skip_blank_line == (__i1 == 0 && in_order(self.imports@).len() == 0),
        f@ == g1 + decls_text(self.declarations@, __i1 as int, in_order(self.imports@).len() > 0)
@@ fn schema::Schema::write loop 1 pre
    let ghost g1 = f@; assert(f@ == g1 + decls_text(self.declarations@, 0, in_order(self.imports@).len() > 0));
@@ fn schema::Schema::write loop 1 end
    assert(f@ == g1 + decls_text(self.declarations@, __i1 + 1, in_order(self.imports@).len() > 0));
@@ fn schema::Declaration::write loop 0 inv
    invariant __it0@ == self.fields@, previous_field_has_comment == (__i0 > 0 && self.fields@[__i0 - 1].comment@.len() > 0),
        f@ == g0 + fields_text(self.fields@, __i0 as int)
@@ fn schema::Declaration::write loop 0 pre
    let ghost f0 = old(f)@; let ghost g0 = f@; assert(f@ == g0 + fields_text(self.fields@, 0)); assert(g0 == f0 + decl_head(*self));
@@ fn schema::Declaration::write loop 0 post
    let ghost g2 = f@; assert(g2 == f0 + (decl_head(*self) + fields_text(self.fields@, self.fields@.len() as int)));
@@ fn schema::Declaration::write loop 0 end
    assert(f@ == g0 + fields_text(self.fields@, __i0 + 1));
@@ fn schema::Declaration::write loop 1 inv
    invariant __it1@ == ascending(self.deleted@), f@ == g1 + indices_text(__it1@, __i1 as int)
@@ fn schema::Declaration::write loop 1 pre
    let ghost g1 = f@; assert(f@ == g1 + indices_text(__it1@, 0));
@@ fn schema::Declaration::write loop 1 end
    assert(f@ == g1 + indices_text(__it1@, __i1 + 1));
@@ fn schema::Schema::write entry
    broadcast use sums; proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@@ fn schema::Declaration::write entry
    broadcast use sums; proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@@ fn schema::write_comment entry
    broadcast use sums; proof { lemma_indentation(indentation@); }
@@ fn schema::write_identifier entry
    broadcast use sums;
@@ fn schema::Import::write entry
    broadcast use sums;
@@ fn schema::Field::write entry
    broadcast use sums;
@@ fn schema::TypeVariant::write entry
    broadcast use sums;
@@ fn schema::DisplayforSchema::fmt sig
    &mut Formatter(?:<'_>)? ==> &mut Out
    (?:std::)?fmt::Result ==> Result<(), FmtError>
@@ fn schema::DisplayforSchema::fmt ret r
    ensures r is Ok, final(f)@ == old(f)@ + schema_text(*self)
@@ fn schema::DisplayforType::fmt sig
    &mut Formatter(?:<'_>)? ==> &mut Out
    (?:std::)?fmt::Result ==> Result<(), FmtError>
@@ fn schema::DisplayforType::fmt ret r
    ensures r is Ok, final(f)@ == old(f)@ + type_text(*self)
