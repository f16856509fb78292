@# Where the tokens of a text lie in it (guaranteed by tokenize, relied on by everything that reports errors)
@@ raw
pub mod placed {
use vstd::prelude::*;
use crate::text::*;
use crate::lst::*;
use crate::token::Token;
pub open spec fn from(t: Seq<char>, x: Token) -> int { ci(t, x.source_range.start as int) }
pub open spec fn to(t: Seq<char>, x: Token) -> int { ci(t, x.source_range.end as int) }
// a token begins and ends between characters, and the line on which it ends shows something of it
pub open spec fn lies(t: Seq<char>, x: Token) -> bool {
    &&& is_at(t, x.source_range.start as int, from(t, x)) &&& is_at(t, x.source_range.end as int, to(t, x))
    &&& exists|v: int| #[trigger] visible_end(t, from(t, x), to(t, x), v)
}
pub open spec fn placed(t: Seq<char>, xs: Seq<Token>) -> bool {
    &&& forall|i: int| 0 <= i < xs.len() ==> lies(t, #[trigger] xs[i])
    &&& forall|i: int, j: int| 0 <= i < j < xs.len() ==> to(t, #[trigger] xs[i]) <= from(t, #[trigger] xs[j])
}
}
