@# schema_loader.rs (C15)
@@ include common.vspec
@@ include text.vspec
@@ fmt drop
@@ methods
    is_empty/0 ==> crate::fsys::is_empty(&$R)
    as_os_str/0 ==> crate::fsys::os_str(&$R)
    clone/0 ==> ($R).dup_()
    to_owned/0 ==> ($R).dup_()
    to_path_buf/0 ==> ($R).dup_()
    canonicalize/0 ==> crate::fsys::canonicalize(&$R)
    parent/0 ==> crate::fsys::parent(&$R)
    file_name/0 ==> crate::fsys::file_name(&$R)
    join/1 ==> crate::fsys::join(&$R, &$1)
    strip_prefix/1 ==> crate::fsys::strip_prefix(&$R, $1)
    set_extension/1 ==> crate::fsys::set_extension(&mut $R, $1)
    pop/0 ==> crate::fsys::pop(&mut $R)
    components/0 ==> crate::fsys::components(&$R)
    extend_from_slice/1 ==> crate::fsys::extend(&mut $R, $1)
    to_string_lossy/0 ==> crate::fsys::lossy(&$R)
    to_string/0 ==> ($R).dup_()
    as_str/0 ==> $R
    into/0 ==> crate::names::named(&$R)
@@ include lst.vspec
@@ module error src/error.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
@@ raw
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub fn throw<M: StrShim + ?Sized, E>(message: &M, path: Option<&Path>, listing: Option<&String>, reason: Option<E>) -> (r: Error) { unimplemented!() }
impl Clone for SourceRange { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for SourceRange {}
@@ take SourceRange listing
@@ endmodule
@@ fn error::listing external
@@ fn error::listing sig
    source_contents: &str ==> source_contents: &String
@@ fn error::listing ret r
    requires range_fine(source_contents@, source_range)
@@ module identifier src/identifier.rs
use vstd::prelude::*;
@@ raw
#[verifier::external_body]
pub struct Identifier { p: u8 }
impl Clone for Identifier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@@ endmodule
@@ include names.vspec
@@ subst schema
    \bBTreeMap<Identifier, Import> ==> NameMap<Import>
@@ subst schema_loader
    \bthrow::<Error>\( ==> throw::<_, Reason>(
    \bBTreeMap::new\(\) ==> crate::fsys::NsMap::new()
    \bHashSet::new\(\) ==> crate::fsys::PathSet::new()
    \bBTreeMap<schema::Namespace, ==> crate::fsys::NsMap<
    \bNone as Option<\(PathBuf, String\)> ==> crate::fsys::no_origin()
    \bAsRef::<Path>::as_ref\( ==> (
    \bPath::new\("."\) ==> crate::fsys::dot_path()
@@ module token src/token.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::error::SourceRange;
use crate::identifier::Identifier;
@@ take Token Variant
@@ endmodule
@@ module schema src/schema.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::names::*;
use crate::error::SourceRange;
use crate::identifier::Identifier;
@@ take Schema Import Declaration DeclarationVariant Field Rule Type TypeVariant Namespace
@@ endmodule
@@ include placed.vspec
@@ include grammar.vspec
@@ include loading.vspec
@@ include purity.vspec
@@ module tokenizer src/tokenizer.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::placed::*;
use crate::loading::*;
use crate::error::Error;
use crate::token::Token;
@@ take tokenize
@@ endmodule
@@ fn tokenizer::tokenize external
@@ fn tokenizer::tokenize sig
    schema_contents: &str ==> schema_contents: &String
@@ fn tokenizer::tokenize ret r
    ensures match r {
        Ok(ts) => tokens_of(schema_contents@, ts@) && placed(schema_contents@, ts@),
        Err(es) => !lexes(schema_contents@) && es@.len() > 0,
    }
@@ module parser src/parser.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::grammar::*;
use crate::placed::*;
use crate::error::Error;
use crate::token;
use crate::schema;
@@ take parse
@@ endmodule
@@ fn parser::parse external
@@ fn parser::parse sig
    source_contents: &str ==> source_contents: &String
    &\[token::Token\] ==> &Vec<token::Token>
@@ fn parser::parse ret r
    requires placed(source_contents@, tokens@)
    ensures r is Ok <==> grammatical(tokens@),
        r matches Ok(s) ==> spells(tokens@, s),
        r matches Err(es) ==> es@.len() > 0
@@ module schema_loader src/schema_loader.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
use crate::names::*;
use crate::fsys::*;
use crate::loading::*;
use crate::grammar::*;
use crate::schema;
use crate::token::Token;
use crate::parser::parse;
use crate::tokenizer::tokenize;
use crate::identifier::Identifier;
use crate::error::{listing, throw, Error, SourceRange};
@@ take path_to_namespace load_schemas
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ fn schema_loader::path_to_namespace ret r
    requires normal(*path)
    ensures r.components@ == names(*path)
@@ fn schema_loader::path_to_namespace entry
    let ghost c = comps(bare(*path));
    proof { reveal_strlit(""); assert(c.skip(0) =~= c); }
@@ fn schema_loader::path_to_namespace loop chain0 inv
    invariant $OUT@.len() <= c.len(), $IT.rest() == c.skip($OUT@.len() as int), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] is Normal,
        forall|i: int| 0 <= i < $OUT@.len() ==> #[trigger] $OUT@[i] == from_text(c[i]->Normal_0),
    ensures $OUT@.len() == c.len(),
    decreases $IT.rest().len(),
@@ fn schema_loader::path_to_namespace loop chain0 post
    proof { assert($OUT@ =~= c.map_values(|c: Comp| from_text(c->Normal_0))); }
@@ fn schema_loader::load_schemas ret r
    ensures r matches Ok(m) ==> loaded(*schema_path, m@),
        r matches Err(es) ==> es@.len() > 0,
        r matches Err(es) ==> forall|pl: Place| #[trigger] place_of(*schema_path, pl) ==> trouble(pl),
@@ fn schema_loader::load_schemas attr
    #[verifier::rlimit(200)]
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
@@ fn schema_loader::load_schemas loop 0 pre
    let ghost pl = Place { base: *base_path, cbase: canonical_base_path, main: *based_schema_path };
    let ghost mut done: Set<PathBuf> = Set::empty();
    let ghost all = universe(pl);
    proof {
        lemma_start(pl, schemas_to_load@);
        assert(visited_paths@ =~= set![pl.main]);
    }
@@ fn schema_loader::load_schemas loop 0 inv
    invariant
        known(pl, visited_paths@), frontier(visited_paths@, schemas_to_load@, done),
        errors@.len() == 0 ==> covered(visited_paths@, schemas_to_load@, done) && stored(pl, done, visited_paths@, schemas@),
        errors@.len() > 0 ==> trouble(pl),
    ensures
        schemas_to_load@.len() == 0,
    decreases all.len() - visited_paths@.len(), schemas_to_load@.len(),
@@ fn schema_loader::load_schemas loop 0 start
    let ghost p = path;
    let ghost e0 = errors@.len();
    let ghost v0 = visited_paths@;
    let ghost st0 = schemas_to_load@;
    let ghost done0 = done;
    proof {
        let before = st0.push((namespace, path, origin));
        assert(before.drop_last() =~= st0);
        lemma_pop(v0, before, done);
        done = done.insert(p);
        lemma_room(pl, v0);
        assert(v0.contains(p));
        axiom_same_file(pl.base, pl.cbase, p);
        assert(broken(pl, p) ==> trouble(pl));
    }
@@ fn schema_loader::load_schemas loop 1 pre
    let ghost s0 = schema;
    let ghost ts = tokens@;
    proof { lemma_import_ranges(contents@, ts, s0); assert(written(pl, p, ts, s0)); }
@@ fn schema_loader::load_schemas loop 1 inv
    invariant
        __i1 <= __it1@.len(), listed(s0.imports@, __it1@), alike(s0, schema),
        known(pl, visited_paths@), frontier(visited_paths@, schemas_to_load@, done), v0.subset_of(visited_paths@),
        visited_paths@.len() - v0.len() == schemas_to_load@.len() - st0.len(),
        errors@.len() >= e0,
        errors@.len() == 0 ==> covered(visited_paths@, schemas_to_load@, done),
        errors@.len() == 0 ==> annotated_upto(pl, p, s0, schema.imports@, __it1@, __i1 as int),
        errors@.len() == 0 ==> targets_upto(pl, p, s0, __it1@, __i1 as int, visited_paths@),
        errors@.len() > 0 ==> trouble(pl),
    decreases __it1@.len() - __i1,
@@ fn schema_loader::load_schemas loop 1 start
    let ghost ip = import.path;
    let ghost ik = key(__it1@[__i1 - 1]);
    let ghost v1 = visited_paths@;
    let ghost st1 = schemas_to_load@;
    proof {
        if target(pl, p, ip) is None { lemma_stray(pl, p, ts, s0, ik); }
        else { lemma_points(pl, p, ts, s0, ik, target(pl, p, ip).unwrap()); lemma_reach(pl, p, target(pl, p, ip).unwrap()); }
    }
@@ fn schema_loader::load_schemas loop 1 post
    proof {
        if errors@.len() == 0 { lemma_all_annotated(pl, p, s0, schema, __it1@); lemma_all_targets(pl, p, s0, __it1@, visited_paths@); }
        lemma_more(pl, done0, v0, visited_paths@, schemas@);
        lemma_room(pl, visited_paths@); vstd::set_lib::lemma_len_subset(v0, visited_paths@);
        if e0 == 0 { if schemas@.contains_key(pkey(p)) { lemma_clash(pl, done0, visited_paths@, schemas@, p); } }
    }
    let ghost m0 = schemas@;
@@ fn schema_loader::load_schemas loop 0 end
    proof {
        if errors@.len() == 0 { lemma_store(pl, done0, visited_paths@, m0, p, schemas@[pkey(p)]); }
    }
@@ fn schema_loader::load_schemas loop 0 post
    proof {
        assert(place_of(*schema_path, pl));
        if errors@.len() > 0 { assert forall|q: Place| #[trigger] place_of(*schema_path, q) implies trouble(q) by { assert(q == pl); } }
        if errors@.len() == 0 { assert(visited_paths@ =~= done); assert(stored(pl, visited_paths@, visited_paths@, schemas@)); assert(collected(pl, visited_paths@, schemas@)); assert(loaded(*schema_path, schemas@)); }
    }
@@ fn schema_loader::load_schemas loop 1 end
    proof {
        if schemas_to_load@.len() > st1.len() {
            assert(schemas_to_load@ == st1.push(schemas_to_load@.last()));
            lemma_push(pl, v1, st1, done, schemas_to_load@.last());
        }
    }
