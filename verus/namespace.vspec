@# schema.rs: types and relativize_namespace (C13)
@@ raw
impl vstd::std_specs::cmp::PartialEqSpecImpl for crate::identifier::Identifier {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}
impl PartialEq for crate::identifier::Identifier { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }
impl Eq for crate::identifier::Identifier {}
@@ module schema src/schema.rs
use crate::shim::*;
use crate::error::SourceRange;
use crate::identifier::Identifier;
use vstd::prelude::*;
@@ take Schema Import Declaration DeclarationVariant Field Rule Type TypeVariant Namespace
@@ raw
impl Clone for Namespace {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Schema {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn tail_owned(v: &Vec<Identifier>, from: usize) -> (r: Vec<Identifier>)
    requires from <= v.len()
    ensures r@ == v@.skip(from as int)
{ unimplemented!() }
// Going up `up` levels from `from` and then down along `rest` arrives at `to`.
pub open spec fn leads(from: Seq<Identifier>, up: int, rest: Seq<Identifier>, to: Seq<Identifier>) -> bool {
    0 <= up <= from.len() && from.take(from.len() - up) + rest == to
}
@@ take relativize_namespace
@@ endmodule
@@ fn schema::relativize_namespace ret r
    ensures leads(namespace2.components@, r.1 as int, r.0.components@, namespace1.components@),
@@ fn schema::relativize_namespace entry
    proof { assert(namespace1.components@.take(0) =~= namespace2.components@.take(0)); }
@@ fn schema::relativize_namespace loop 0 inv
    invariant
        common_components <= namespace1.components@.len(),
        common_components <= namespace2.components@.len(),
        namespace1.components@.take(common_components as int) =~= namespace2.components@.take(common_components as int),
    ensures
        common_components <= namespace1.components@.len(),
        common_components <= namespace2.components@.len(),
        namespace1.components@.take(common_components as int) =~= namespace2.components@.take(common_components as int),
    decreases namespace1.components@.len() - common_components
@@ fn schema::relativize_namespace after common_components \+= 1
    proof {
        let c = common_components as int;
        assert(namespace1.components@.take(c) =~= namespace1.components@.take(c - 1).push(namespace1.components@[c - 1]));
        assert(namespace2.components@.take(c) =~= namespace2.components@.take(c - 1).push(namespace2.components@[c - 1]));
    }
@@ fn schema::relativize_namespace before \( Namespace
    proof { assert(namespace1.components@ =~= namespace1.components@.take(common_components as int) + namespace1.components@.skip(common_components as int)); }
@@ fn schema::relativize_namespace subst
    crate::shim::slice_from\(&namespace1\.components,\s*(\w+)\)\.to_owned\(\) ==> tail_owned(&namespace1.components, \1)
    (\w+)\.components\.get\((\w+)\) ==> crate::shim::vec_get(&\1.components, \2)
