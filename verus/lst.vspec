@# What listings and merged errors are (C18); used by every unit that reports errors
@@ raw
pub mod lst {
use vstd::prelude::*;
use crate::text::*;
pub trait Length { spec fn length_of(&self) -> int; }
impl Length for str { open spec fn length_of(&self) -> int { blen(self@) } }
impl Length for String { open spec fn length_of(&self) -> int { blen(self@) } }
impl<T> Length for Vec<T> { open spec fn length_of(&self) -> int { self@.len() as int } }
impl<T: Length + ?Sized> Length for &T { open spec fn length_of(&self) -> int { (**self).length_of() } }
#[verifier::external_body]
pub fn length<T: Length + ?Sized>(x: &T) -> (r: usize) ensures r == x.length_of(), r <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn last<'a>(v: &Vec<&'a str>) -> (r: Option<&'a str>) ensures v@.len() > 0 ==> r == Some(v@.last()), v@.len() == 0 ==> r.is_none() { unimplemented!() }
pub trait Emptiness { spec fn none(&self) -> bool; }
impl Emptiness for str { open spec fn none(&self) -> bool { self@.len() == 0 } }
impl Emptiness for String { open spec fn none(&self) -> bool { self@.len() == 0 } }
impl<T> Emptiness for Vec<T> { open spec fn none(&self) -> bool { self@.len() == 0 } }
impl<T: Emptiness + ?Sized> Emptiness for &T { open spec fn none(&self) -> bool { (**self).none() } }
#[verifier::external_body]
pub fn is_empty<T: Emptiness + ?Sized>(x: &T) -> (r: bool) ensures r == x.none() { unimplemented!() }
// ---- WHAT A MERGED ERROR SAYS: every message, in order, with nothing but line feeds between ----
pub open spec fn feeds(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '\n' }
pub open spec fn woven(seps: Seq<Seq<char>>, ms: Seq<Seq<char>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { woven(seps, ms, n - 1) + seps[n - 1] + ms[n - 1] }
}
pub open spec fn says(r: Seq<char>, ms: Seq<Seq<char>>) -> bool {
    exists|seps: Seq<Seq<char>>| seps.len() == ms.len() && (forall|i: int| 0 <= i < seps.len() ==> feeds(#[trigger] seps[i]))
        && r == end_trimmed(start_trimmed(#[trigger] woven(seps, ms, ms.len() as int)))
}
pub proof fn lemma_woven(a: Seq<Seq<char>>, b: Seq<Seq<char>>, ms: Seq<Seq<char>>, n: int)
    requires 0 <= n <= a.len(), a.len() <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures woven(a, ms, n) == woven(b, ms, n)
    decreases n
{ if n > 0 { lemma_woven(a, b, ms, n - 1); } }
// ---- WHAT A LISTING SHOWS --------------------------------------------------------------------
// t: the source text, characters a .. b of it are meant
pub open spec fn lines(t: Seq<char>) -> Seq<Seq<char>> { pieces(t, '\n') }
pub open spec fn touched(t: Seq<char>, k: int, a: int, b: int) -> bool {
    cstart(lines(t), k) < b && a <= cstart(lines(t), k) + lines(t)[k].len()
}
pub struct Row { pub number: int, pub text: Seq<char>, pub from: int, pub to: int }
pub open spec fn lesser(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn row(t: Seq<char>, k: int, a: int, b: int) -> Row {
    let s = cstart(lines(t), k);
    let text = end_trimmed(lines(t)[k]);
    let to = lesser(b - s, text.len() as int);
    let from = if a > s { lesser(a - s, text.len() as int) } else { lesser(first_visible(text), to) };
    Row { number: k + 1, text, from, to }
}
pub open spec fn rows(t: Seq<char>, n: int, a: int, b: int) -> Seq<Row> decreases n {
    if n <= 0 { Seq::empty() } else {
        let r = rows(t, n - 1, a, b);
        if touched(t, n - 1, a, b) { r.push(row(t, n - 1, a, b)) } else { r }
    }
}
pub open spec fn width(rs: Seq<Row>) -> int decreases rs.len() {
    if rs.len() == 0 { 0 } else { let w = width(rs.drop_last()); let v = blen(decimal(rs.last().number)); if w > v { w } else { v } }
}
pub open spec fn blanks(n: int) -> Seq<char> { repeated(" "@, n) }
pub open spec fn render(rs: Seq<Row>, i: int) -> Seq<char> {
    let r = rs[i];
    let w = width(rs);
    let n = decimal(r.number);
    let gutter = painted(Style::BlueBold, repeated(seq![' '], w - n.len()) + n + " \u{2502} "@);
    let under = if colorized() { Seq::empty() } else {
        let side = if i == rs.len() - 1 { " "@ } else { "\u{250a}"@ };
        if r.from == r.to { "\n"@ + blanks(w) + " "@ + side }
        else { "\n"@ + blanks(w) + " "@ + side + " "@ + blanks(r.from) + repeated("\u{203e}"@, r.to - r.from) }
    };
    gutter + r.text.take(r.from) + painted(Style::Red, r.text.subrange(r.from, r.to)) + r.text.skip(r.to) + under
}
pub open spec fn rendered(rs: Seq<Row>) -> Seq<Seq<char>> { Seq::new(rs.len(), |i: int| render(rs, i)) }
// ---- the ranges that are listed: they begin with a visible character and on the line on which they
// end there is a visible one too (consecutive tokens; no token extends over a line break)
pub open spec fn visible_end(t: Seq<char>, a: int, b: int, v: int) -> bool {
    a <= v < b && !is_blank(t[v]) && forall|i: int| v <= i < b ==> #[trigger] t[i] != '\n'
}
pub open spec fn tokens_span(t: Seq<char>, a: int, b: int) -> bool {
    0 <= a <= b <= t.len() && (a == b || exists|v: int| visible_end(t, a, b, v))
}
pub open spec fn range_fine(t: Seq<char>, r: crate::error::SourceRange) -> bool {
    exists|a: int, b: int| #[trigger] is_at(t, r.start as int, a) && #[trigger] is_at(t, r.end as int, b) && tokens_span(t, a, b)
}
pub proof fn lemma_range(t: Seq<char>, r: crate::error::SourceRange, a: int, b: int)
    requires is_at(t, r.start as int, a), is_at(t, r.end as int, b), tokens_span(t, a, b)
    ensures range_fine(t, r)
{ }
// ---- representation in the code
pub open spec fn is_row(x: (String, &str, usize, usize), r: Row) -> bool {
    &&& x.0@ == decimal(r.number) &&& x.1@ == r.text
    &&& x.2 == bpos(r.text, r.from) &&& x.3 == bpos(r.text, r.to)
    &&& 0 <= r.from <= r.to <= r.text.len()
}
pub open spec fn are_rows(xs: Seq<(String, &str, usize, usize)>, rs: Seq<Row>) -> bool {
    xs.len() == rs.len() && forall|i: int| 0 <= i < xs.len() ==> is_row(#[trigger] xs[i], rs[i])
}
pub proof fn lemma_start_grows(ps: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i <= j <= ps.len()
    ensures cstart(ps, i) + (j - i) <= cstart(ps, j)
    decreases j
{ if i < j { lemma_start_grows(ps, i, j - 1); } }
pub proof fn lemma_rows_end(t: Seq<char>, i: int, j: int, a: int, b: int)
    requires 0 <= i <= j <= lines(t).len(), cstart(lines(t), i) >= b
    ensures rows(t, j, a, b) == rows(t, i, a, b)
    decreases j
{ if i < j { lemma_rows_end(t, i, j - 1, a, b); lemma_start_grows(lines(t), i, j - 1); } }
// byte positions within a line
pub proof fn lemma_within(t: Seq<char>, k: int, x: int)
    requires 0 <= k < lines(t).len(), cstart(lines(t), k) <= x <= t.len()
    ensures ({
        let s = cstart(lines(t), k); let u = end_trimmed(lines(t)[k]);
        let n = bpos(t, x) - bpos(t, s);
        &&& n >= 0
        &&& x - s <= u.len() ==> n == bpos(u, x - s) && n <= blen(u)
        &&& x - s > u.len() ==> n >= blen(u)
        &&& bpos(u, u.len() as int) == blen(u)
        &&& 0 <= s
    })
{
    lemma_pieces(t, '\n');
    let ps = lines(t);
    assert(piece_at(t, ps, k, '\n'));
    let s = cstart(ps, k);
    let p = ps[k];
    let u = end_trimmed(p);
    lemma_end_trimmed(p);
    lemma_bpos(t, s, x);
    lemma_bpos(u, 0, u.len() as int);
    if x - s <= u.len() {
        assert(t.subrange(s, x) =~= u.take(x - s));
        lemma_bpos(u, x - s, u.len() as int);
    } else {
        assert(t.subrange(s, x).take(u.len() as int) =~= u);
        lemma_bpos(t.subrange(s, x), u.len() as int, x - s);
    }
}
pub proof fn lemma_row(t: Seq<char>, k: int, a: int, b: int)
    requires 0 <= k < lines(t).len(), touched(t, k, a, b), tokens_span(t, a, b)
    ensures ({
        let r = row(t, k, a, b); let s = cstart(lines(t), k); let u = r.text; let fv = first_visible(u);
        &&& 0 <= r.from <= r.to <= u.len() && 0 <= s
        &&& a > s ==> lesser(bpos(t, a) - bpos(t, s), blen(u)) == bpos(u, r.from)
        &&& lesser(bpos(t, b) - bpos(t, s), blen(u)) == bpos(u, r.to)
        &&& a <= s && fv < u.len() ==> r.from == fv
        &&& a <= s && fv >= u.len() ==> r.from == r.to
        &&& bpos(t, s) < bpos(t, b)
        &&& (a > s) == (bpos(t, a) > bpos(t, s))
    })
{
    let ps = lines(t);
    lemma_pieces(t, '\n');
    assert(piece_at(t, ps, k, '\n'));
    let s = cstart(ps, k);
    let p = ps[k];
    let u = end_trimmed(p);
    lemma_end_trimmed(p);
    lemma_first_visible(u);
    lemma_bpos(t, s, b);
    if a > s { lemma_within(t, k, a); lemma_bpos(t, s, a); lemma_bpos(t, a, b); } else { lemma_bpos(t, a, s); }
    lemma_within(t, k, b);
    let r = row(t, k, a, b);
    let v = choose|v: int| visible_end(t, a, b, v);
    if a <= s {
        if v < s {
            assert(k > 0) by { if k == 0 { assert(s == 0); } }
            assert(piece_at(t, ps, k - 1, '\n'));
            assert(t[s - 1] == '\n');
            assert(false);
        } else if v < s + p.len() {
            assert(p[v - s] == t[v]);
            assert(v - s < u.len());
            assert(u[v - s] == t[v]);
            assert(first_visible(u) <= v - s);
        } else { }
    }
}
pub proof fn lemma_take_rows(rs: Seq<Row>, i: int)
    requires 0 <= i < rs.len()
    ensures rs.take(i + 1).drop_last() == rs.take(i), rs.take(i + 1).last() == rs[i]
{ assert(rs.take(i + 1).drop_last() =~= rs.take(i)); }
// one line of the listing
pub proof fn lemma_rendered(rs: Seq<Row>, v: Seq<String>, i: int)
    requires 0 <= i < rs.len(), v.len() == i + 1, sviews(v.drop_last()) == rendered(rs).take(i), v.last()@ == render(rs, i)
    ensures sviews(v) == rendered(rs).take(i + 1)
{
    assert forall|j: int| 0 <= j < i implies v[j]@ == #[trigger] render(rs, j) by {
        assert(sviews(v.drop_last())[j] == v.drop_last()[j]@); assert(rendered(rs).take(i)[j] == render(rs, j));
    }
    assert(sviews(v) =~= rendered(rs).take(i + 1));
}
}
