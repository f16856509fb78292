@# schema.rs / error.rs / identifier.rs types shared by units that treat identifiers as opaque values
@@ module identifier -
use crate::shim::*;
@@ raw
// Identifier: opaque; spec equality stands for the tool's own (case-insensitive) equality.
// Justified by the contracts proved on identifier.rs in unit `identifier` (Eq/Ord/Hash agree).
#[verifier::external_body]
pub struct Identifier { p: String }
impl Clone for Identifier {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@@ endmodule
@@ module error src/error.rs
use crate::shim::*;
@@ take SourceRange
@@ raw
#[verifier::external_body]
pub struct Error { p: u8 }
#[verifier::external_body]
pub fn throw<T>(message: &String, source_path: Option<&Path>, listing: Option<&String>, reason: Option<T>) -> Error { unimplemented!() }
#[verifier::external_body]
pub fn listing(source_contents: &str, source_range: SourceRange) -> String { unimplemented!() }
impl Clone for SourceRange { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for SourceRange {}
@@ endmodule
