@@ include common.vspec
@@ include schema_types.vspec
@@ include namespace.vspec
@@ raw
} // verus!
fn main() {}
