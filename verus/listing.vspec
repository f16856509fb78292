@# error.rs listing, error_merger.rs (C18)
@@ include common.vspec
@@ include text.vspec
@@ fmt string
@@ subst error_merger
    &\[Error\] ==> &Vec<Error>
@@ subst error
    Option<Rc<dyn error::Error>> ==> Option<Reason>
@@ methods
    join/1 ==> crate::textfn::join(&$R, $1)
    len/0 ==> crate::lst::length(&$R)
    trim_end/0 ==> ($R).trim_end_()
    trim_start/0 ==> ($R).trim_start_()
    trim/0 ==> ($R).trim_()
    repeat/1 ==> ($R).repeat_($1)
    to_string/0 ==> ($R).shown_()
    to_owned/0 ==> ($R).owned_()
    pad/4 ==> crate::textfn::pad_left(&$R, $1)
    red/0 ==> ($R).paint_(Style::Red)
    split/1 ==> crate::textfn::split(&$R, $1)
    last/0 ==> crate::lst::last(&$R)
    should_colorize/0 ==> crate::text::should_colorize()
@@ subst
    \.find\(\|c: char\| !c\.is_whitespace\(\)\) ==> .find_visible_()
    \.chars\(\)\s*\.count\(\) ==> .count_chars_()
    \.blue\(\)\s*\.bold\(\) ==> .paint_(Style::BlueBold)
    section_start == section_end ==> *section_start == *section_end
@@ include lst.vspec
@@ module error src/error.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
use crate::textfn::{max, min, pad_left};
@@ raw
// the underlying cause of an error (Rc<dyn std::error::Error>)
#[verifier::external_body]
pub struct Reason { p: u8 }
// Display for Error: some text made of the message and the reason
impl Show for Error { uninterp spec fn shown(&self) -> Seq<char>; }
@@ take Error SourceRange listing
@@ endmodule
@@ module error_merger src/error_merger.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
use crate::error::Error;
pub open spec fn messages(es: Seq<Error>) -> Seq<Seq<char>> { es.map_values(|e: Error| e.shown()) }
@@ take merge_errors
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ fn error::listing ret r
    requires range_fine(source_contents@, source_range)
    ensures forall|a: int, b: int| #[trigger] is_at(source_contents@, source_range.start as int, a) && #[trigger] is_at(source_contents@, source_range.end as int, b) ==>
        r@ == joined(rendered(rows(source_contents@, lines(source_contents@).len() as int, a, b)), "\n"@)
@@ fn error::listing entry
    let ghost t = source_contents@;
    let ghost a = ci(t, source_range.start as int);
    let ghost b = ci(t, source_range.end as int);
    let ghost ps = crate::lst::lines(t);
    proof {
        axiom_fits(source_contents);
        assert forall|i: int| #[trigger] is_at(t, source_range.start as int, i) implies i == a by { lemma_ci(t, i); }
        assert forall|i: int| #[trigger] is_at(t, source_range.end as int, i) implies i == b by { lemma_ci(t, i); }
        lemma_pieces(t, '\n');
        lemma_bpos(t, 0, t.len() as int);
        lemma_bpos(t, a, b);
    }
@@ fn error::listing subst
    let mut lines = Vec::new\(\); ==> let mut lines: Vec<(String, &str, usize, usize)> = Vec::new();
@@ fn error::listing loop 0 inv
    invariant views($IT@) == ps, ps == crate::lst::lines(t), t == source_contents@, tokens_span(t, a, b), $I <= ps.len(),
        is_at(t, source_range.start as int, a), is_at(t, source_range.end as int, b), blen(t) <= isize::MAX,
        forall|k: int| 0 <= k < ps.len() ==> piece_at(t, #[trigger] pieces(t, '\n'), k, '\n'),
        are_rows(lines@, rows(t, $I as int, a, b)),
        $I < ps.len() ==> pos == bpos(t, cstart(ps, $I as int)),
        pos <= blen(t) + 1,
    ensures are_rows(lines@, rows(t, ps.len() as int, a, b))
    decreases $IT.len() - $I
@@ fn error::listing loop 0 start
    let ghost k = $I - 1;
    let ghost s = cstart(ps, k);
    let ghost had = lines@;
    proof {
        assert(views($IT@)[k] == $IT@[k]@);
        assert(piece_at(t, pieces(t, '\n'), k, '\n'));
        lemma_bpos(t, s, s + ps[k].len());
        lemma_bpos(t, s + ps[k].len(), t.len() as int);
        if k + 1 < ps.len() { lemma_step(t, s + ps[k].len()); lemma_bpos(t, s, s + ps[k].len() + 1); }
        if s >= b { lemma_bpos(t, b, s); lemma_rows_end(t, k, ps.len() as int, a, b); } else { lemma_bpos(t, s, b); }
        if s < b && a <= s + ps[k].len() { lemma_row(t, k, a, b);
            if k + 1 < ps.len() { lemma_bpos(t, a, s + ps[k].len() + 1); } else { lemma_bpos(t, a, t.len() as int); } }
        else if s < b { lemma_bpos(t, s + ps[k].len() + 1, a); }
        lemma_bpos(t, 0, a); lemma_bpos(t, 0, b);
    }
@@ fn error::listing loop 0 end
    proof { assert(lines@.drop_last() =~= had); }
@@ fn error::listing after let gutter_width
    let ghost rs = rows(t, ps.len() as int, a, b);
    proof { assert(rs.take(rs.len() as int) =~= rs); }
@@ fn error::listing loop chain0 inv
    invariant are_rows($IT@, rows(t, ps.len() as int, a, b)), $OUT == crate::lst::width(rows(t, ps.len() as int, a, b).take($I as int))
@@ fn error::listing loop chain0 start
    proof { lemma_take_rows(rows(t, ps.len() as int, a, b), $I as int); assert(is_row($IT@[$I as int], rows(t, ps.len() as int, a, b)[$I as int])); }
@@ fn error::listing loop chain1 inv
    invariant $IT@ == lines@, are_rows(lines@, rs), gutter_width == crate::lst::width(rs), colorized == crate::text::colorized(),
        sviews($OUT@) == rendered(rs).take($I as int)
@@ fn error::listing loop chain1 pre
    proof { assert(sviews($OUT@) =~= rendered(rs).take(0)); }
@@ fn error::listing loop chain1 start
    let ghost had = $OUT@;
    let ghost x = $IT@[$I as int];
    let ghost rr = rs[$I as int];
    proof {
        assert(is_row(x, rr));
        lemma_ci(rr.text, rr.from); lemma_ci(rr.text, rr.to); lemma_ci(rr.text, 0);
        lemma_bpos(rr.text, rr.from, rr.to); lemma_bpos(rr.text, 0, rr.from);
        assert(rr.text.subrange(0, rr.from) =~= rr.text.take(rr.from));
        assert((rr.from == rr.to) == (x.2 == x.3));
        reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
    }
@@ fn error::listing loop chain1 end
    proof {
        assert($OUT@.drop_last() =~= had);
        assert($OUT@.last()@ =~= render(rs, $I as int));
        assert(sviews(had).len() == $I);
        assert($OUT@.len() == $I + 1);
        assert(sviews($OUT@.drop_last()) == rendered(rs).take($I as int));
        assert($OUT@.last()@ == render(rs, $I as int));
        lemma_rendered(rs, $OUT@, $I as int);
    }
@@ fn error::listing loop chain1 post
    proof { assert(rendered(rs).take(rs.len() as int) =~= rendered(rs)); }
@@ fn error_merger::merge_errors ret r
    ensures r.reason.is_none(), says(r.message@, messages(errors@))
@@ fn error_merger::merge_errors entry
    let ghost mut seps: Seq<Seq<char>> = Seq::empty();
    let ghost ms = messages(errors@);
@@ fn error_merger::merge_errors loop chain0 inv
    invariant $IT@ == errors@, ms == messages(errors@), seps.len() == $I, forall|i: int| 0 <= i < seps.len() ==> feeds(#[trigger] seps[i]),
        $OUT@ == woven(seps, ms, $I as int)
@@ fn error_merger::merge_errors loop chain0 start
    let ghost had = $OUT@;
    let ghost m = ms[$I as int];
    proof { lemma_pieces($OUT@, '\n'); reveal_strlit("\n"); reveal_strlit(""); }
@@ fn error_merger::merge_errors loop chain0 end
    proof {
        let sep = $OUT@.subrange(had.len() as int, $OUT@.len() - m.len());
        assert($OUT@ =~= had + sep + m);
        assert(feeds(sep));
        let more = seps.push(sep);
        lemma_woven(seps, more, ms, $I as int);
        seps = more;
    }
@@ fn error_merger::merge_errors loop chain0 post
    proof { assert(seps.len() == ms.len()); }
