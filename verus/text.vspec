@# Shims for std strings and characters (assumptions about std; strings are sequences of characters)
@@ raw
pub mod text {
use vstd::prelude::*;
use crate::shim::*;
pub uninterp spec fn is_upper(c: char) -> bool;          // char::is_uppercase
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;   // str::to_lowercase
pub uninterp spec fn ascii_lower(s: Seq<char>) -> Seq<char>;   // str::to_ascii_lowercase
pub uninterp spec fn upper(c: char) -> Seq<char>;        // char::to_uppercase
pub open spec fn repeated(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { repeated(s, n - 1) + s } }
// colours: some rendering of the text, the same for the same style and text
pub enum Style { BlueBold, Red }
pub uninterp spec fn painted(s: Style, t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub struct Painted { p: u8 }
impl Show for Painted { uninterp spec fn shown(&self) -> Seq<char>; }
pub uninterp spec fn colorized() -> bool;
#[verifier::external_body]
pub fn should_colorize() -> (r: bool) ensures r == colorized() { unimplemented!() }
pub trait ShownShim { fn shown_(&self) -> (r: String); }
pub open spec fn decimal(n: int) -> Seq<char> { (n as usize).shown() }
impl ShownShim for usize { #[verifier::external_body] fn shown_(&self) -> (r: String) ensures r@ == decimal(*self as int) { unimplemented!() } }
pub trait StrShim { 
    spec fn sv(&self) -> Seq<char>;
    fn lower_(&self) -> (r: String) ensures r@ == lower(self.sv());
    fn ascii_lower_(&self) -> (r: String) ensures r@ == ascii_lower(self.sv());
    fn is_empty_(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn chars_(&self) -> (r: CharIter<'_>) ensures r.rest() == self.sv();
    fn len_(&self) -> (r: usize) ensures r == blen(self.sv()), r <= isize::MAX;
    fn count_chars_(&self) -> (r: usize) ensures r == self.sv().len();
    fn trim_end_(&self) -> (r: &str) ensures r@ == end_trimmed(self.sv());
    fn trim_start_(&self) -> (r: &str) ensures r@ == start_trimmed(self.sv());
    fn trim_(&self) -> (r: &str) ensures r@ == end_trimmed(start_trimmed(self.sv()));
    fn find_visible_(&self) -> (r: Option<usize>) ensures r == (if first_visible(self.sv()) < self.sv().len() { Some(bpos(self.sv(), first_visible(self.sv())) as usize) } else { None }),
        r.is_some() ==> r.unwrap() == bpos(self.sv(), first_visible(self.sv()));
    fn repeat_(&self, n: usize) -> (r: String) ensures r@ == repeated(self.sv(), n as int);
    fn paint_(&self, style: Style) -> (r: Painted) ensures r.shown() == painted(style, self.sv());
    fn owned_(&self) -> (r: String) ensures r@ == self.sv();
}
impl StrShim for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn lower_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn ascii_lower_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn is_empty_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chars_(&self) -> (r: CharIter<'_>) { unimplemented!() }
    #[verifier::external_body] fn len_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn count_chars_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn trim_end_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn trim_start_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn trim_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn find_visible_(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn repeat_(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn paint_(&self, style: Style) -> (r: Painted) { unimplemented!() }
    #[verifier::external_body] fn owned_(&self) -> (r: String) { unimplemented!() }
}
impl StrShim for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn lower_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn ascii_lower_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn is_empty_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chars_(&self) -> (r: CharIter<'_>) { unimplemented!() }
    #[verifier::external_body] fn len_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn count_chars_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn trim_end_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn trim_start_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn trim_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn find_visible_(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn repeat_(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn paint_(&self, style: Style) -> (r: Painted) { unimplemented!() }
    #[verifier::external_body] fn owned_(&self) -> (r: String) { unimplemented!() }
}
impl<T: StrShim + ?Sized> StrShim for &T {
    open spec fn sv(&self) -> Seq<char> { (**self).sv() }
    #[verifier::external_body] fn lower_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn ascii_lower_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn is_empty_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn chars_(&self) -> (r: CharIter<'_>) { unimplemented!() }
    #[verifier::external_body] fn len_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn count_chars_(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn trim_end_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn trim_start_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn trim_(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn find_visible_(&self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn repeat_(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn paint_(&self, style: Style) -> (r: Painted) { unimplemented!() }
    #[verifier::external_body] fn owned_(&self) -> (r: String) { unimplemented!() }
}
pub trait CharShim { 
    spec fn cv(&self) -> char;
    fn is_upper_(&self) -> (r: bool) ensures r == is_upper(self.cv());
    fn is_ascii_upper_(&self) -> (r: bool) ensures r == ('A' <= self.cv() <= 'Z');
    fn upper_(&self) -> (r: String) ensures r@ == upper(self.cv());
}
impl CharShim for char {
    open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn is_upper_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn is_ascii_upper_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn upper_(&self) -> (r: String) { unimplemented!() }
}
// std::str::Chars
#[verifier::external_body]
pub struct CharIter<'a> { p: std::str::Chars<'a> }
impl<'a> CharIter<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.rest() { unimplemented!() }
}
#[verifier::external_body]
pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
pub trait EqShim { fn eq_(&self, o: &Self) -> bool; }
impl EqShim for String { #[verifier::external_body] fn eq_(&self, o: &String) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
#[verifier::external_body]
pub fn as_str_(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
// values rendered with `{}`
pub trait Show { spec fn shown(&self) -> Seq<char>; }
impl Show for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for usize { uninterp spec fn shown(&self) -> Seq<char>; }
impl<T: Show + ?Sized> Show for &T { open spec fn shown(&self) -> Seq<char> { (*self).shown() } }
// `Ord for String`: lexicographic by bytes; all that is assumed is that it is a total order on texts
pub uninterp spec fn before(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn order(a: Seq<char>, b: Seq<char>) -> core::cmp::Ordering {
    if a == b { core::cmp::Ordering::Equal } else if before(a, b) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater }
}
pub broadcast axiom fn axiom_before(a: Seq<char>, b: Seq<char>)
    ensures a != b ==> (#[trigger] before(a, b) <==> !before(b, a));
#[verifier::external_body]
pub fn str_cmp(a: &String, b: &String) -> (r: core::cmp::Ordering) ensures r == order(a@, b@) { unimplemented!() }
// hashing: a deterministic function of the state and the text fed in
#[verifier::external_body]
pub struct HState { p: u64 }
impl View for HState { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn fed(s: int, t: Seq<char>) -> int;
#[verifier::external_body]
pub fn feed(s: &mut HState, t: &String) ensures final(s)@ == fed(old(s)@, t@) { unimplemented!() }

// pieces of a text between separators (str::split with a character)
pub open spec fn split_state(s: Seq<char>, c: char) -> (Seq<Seq<char>>, Seq<char>) decreases s.len() {
    if s.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (d, cur) = split_state(s.drop_last(), c);
        if s.last() == c { (d.push(cur), Seq::empty()) } else { (d, cur.push(s.last())) }
    }
}
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> { let (d, cur) = split_state(s, c); d.push(cur) }
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
// ---- byte positions --------------------------------------------------------------------------
pub open spec fn clen(c: char) -> int { let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub open spec fn bpos(s: Seq<char>, i: int) -> int { blen(s.take(i)) }
// n is the byte position of the character i (or of the end)
pub open spec fn is_at(s: Seq<char>, n: int, i: int) -> bool { 0 <= i <= s.len() && bpos(s, i) == n }
pub open spec fn boundary(s: Seq<char>, n: int) -> bool { exists|i: int| is_at(s, n, i) }
pub open spec fn ci(s: Seq<char>, n: int) -> int { choose|i: int| is_at(s, n, i) }
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_blen_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
    }
}
pub proof fn lemma_blen_len(s: Seq<char>) ensures blen(s) >= s.len(), s.len() == 0 ==> blen(s) == 0 decreases s.len()
{ if s.len() > 0 { lemma_blen_len(s.drop_last()); } }
// positions grow with the character index
pub proof fn lemma_bpos(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures bpos(s, j) == bpos(s, i) + blen(s.subrange(i, j)), bpos(s, j) >= bpos(s, i) + (j - i), bpos(s, i) >= i, bpos(s, s.len() as int) == blen(s), bpos(s, 0) == 0
{
    lemma_blen_add(s.take(i), s.subrange(i, j));
    assert(s.take(i) + s.subrange(i, j) =~= s.take(j));
    lemma_blen_len(s.subrange(i, j)); lemma_blen_len(s.take(i));
    assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::empty());
}
pub proof fn lemma_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures bpos(s, i + 1) == bpos(s, i) + clen(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_ci(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures boundary(s, bpos(s, i)), ci(s, bpos(s, i)) == i
{
    assert(is_at(s, bpos(s, i), i));
    let j = ci(s, bpos(s, i));
    if j < i { lemma_bpos(s, j, i); } else { lemma_bpos(s, i, j); }
}
// A text fits into memory.
pub axiom fn axiom_fits(s: &str) ensures blen(s@) <= isize::MAX;
// ---- blank characters ------------------------------------------------------------------------
pub uninterp spec fn is_blank(c: char) -> bool;   // char::is_whitespace
pub broadcast axiom fn axiom_blank() ensures #[trigger] is_blank('\n'), is_blank(' '), is_blank('\r'), is_blank('\t');
pub open spec fn end_trimmed(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_blank(s.last()) { end_trimmed(s.drop_last()) } else { s }
}
pub open spec fn start_trimmed(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_blank(s[0]) { start_trimmed(s.skip(1)) } else { s }
}
pub open spec fn first_visible(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if first_visible(s.drop_last()) < s.len() - 1 { first_visible(s.drop_last()) }
    else if is_blank(s.last()) { s.len() as int } else { s.len() - 1 }
}
pub proof fn lemma_first_visible(s: Seq<char>)
    ensures 0 <= first_visible(s) <= s.len(), forall|i: int| 0 <= i < first_visible(s) ==> is_blank(#[trigger] s[i]),
        first_visible(s) < s.len() ==> !is_blank(s[first_visible(s)]),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_first_visible(d);
        assert forall|i: int| 0 <= i < first_visible(s) implies is_blank(#[trigger] s[i]) by { if i < d.len() { assert(d[i] == s[i]); } }
    }
}
pub proof fn lemma_end_trimmed(s: Seq<char>)
    ensures end_trimmed(s).len() <= s.len(), end_trimmed(s) == s.take(end_trimmed(s).len() as int),
        forall|i: int| end_trimmed(s).len() <= i < s.len() ==> is_blank(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 && is_blank(s.last()) {
        lemma_end_trimmed(s.drop_last());
        assert(s.drop_last().take(end_trimmed(s).len() as int) =~= s.take(end_trimmed(s).len() as int));
        assert forall|i: int| end_trimmed(s).len() <= i < s.len() implies is_blank(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    } else { assert(s.take(s.len() as int) =~= s); }
}
// where the pieces lie
pub open spec fn cstart(ps: Seq<Seq<char>>, k: int) -> int decreases k { if k <= 0 { 0 } else { cstart(ps, k - 1) + ps[k - 1].len() + 1 } }
pub open spec fn piece_at(t: Seq<char>, ps: Seq<Seq<char>>, k: int, c: char) -> bool {
    &&& 0 <= cstart(ps, k)
    &&& cstart(ps, k) + ps[k].len() <= t.len()
    &&& ps[k] == t.subrange(cstart(ps, k), cstart(ps, k) + ps[k].len())
    &&& !ps[k].contains(c)
    &&& k + 1 < ps.len() ==> cstart(ps, k) + ps[k].len() < t.len() && t[cstart(ps, k) + ps[k].len()] == c
    &&& k + 1 == ps.len() ==> cstart(ps, k) + ps[k].len() == t.len()
}
proof fn lemma_cstart_same(a: Seq<Seq<char>>, b: Seq<Seq<char>>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures cstart(a, k) == cstart(b, k)
    decreases k
{ if k > 0 { lemma_cstart_same(a, b, k - 1); } }
pub proof fn lemma_pieces(t: Seq<char>, c: char)
    ensures pieces(t, c).len() >= 1, forall|k: int| 0 <= k < pieces(t, c).len() ==> piece_at(t, #[trigger] pieces(t, c), k, c)
    decreases t.len()
{
    let ps = pieces(t, c);
    if t.len() == 0 {
        assert(ps =~= seq![Seq::<char>::empty()]);
        assert(piece_at(t, ps, 0, c)) by { assert(ps[0] =~= t.subrange(0, 0)); }
    } else {
        let u = t.drop_last();
        lemma_pieces(u, c);
        let qs = pieces(u, c);
        let n = qs.len() - 1;
        assert(piece_at(u, qs, n, c));
        if t.last() == c {
            assert(ps =~= qs.push(Seq::empty()));
            assert forall|k: int| 0 <= k < ps.len() implies piece_at(t, ps, k, c) by {
                if k <= n {
                    assert(piece_at(u, qs, k, c));
                    lemma_cstart_same(ps, qs, k);
                    assert(ps[k] =~= t.subrange(cstart(ps, k), cstart(ps, k) + ps[k].len()));
                    if k < n { assert(u[cstart(ps, k) + ps[k].len()] == t[cstart(ps, k) + ps[k].len()]); }
                } else {
                    lemma_cstart_same(ps, qs, n);
                    assert(cstart(ps, k) == t.len());
                    assert(ps[k] =~= t.subrange(cstart(ps, k), cstart(ps, k) + ps[k].len()));
                }
            }
        } else {
            assert forall|k: int| 0 <= k < ps.len() implies piece_at(t, ps, k, c) by {
                assert(piece_at(u, qs, k, c));
                assert forall|i: int| 0 <= i < n implies ps[i] == qs[i] by { }
                lemma_cstart_same(ps, qs, k);
                if k < n {
                    assert(u[cstart(ps, k) + ps[k].len()] == t[cstart(ps, k) + ps[k].len()]);
                } else {
                    assert(ps[k] =~= qs[k].push(t.last()));
                    assert forall|i: int| 0 <= i < ps[k].len() implies ps[k][i] != c by { if i < qs[k].len() { assert(qs[k].contains(qs[k][i])); } }
                }
                assert(ps[k] =~= t.subrange(cstart(ps, k), cstart(ps, k) + ps[k].len()));
            }
        }
    }
}
// [String]::join
pub open spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn concat(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { concat(v.drop_last()) + v.last() }
}
}
@@ subst
    \bcrate::shim::(split|chars|join|cat|push_to_string|push_to_vec|slice|slice_from)\( ==> crate::textfn::\1(
@@ raw
pub mod textfn {
use vstd::prelude::*;
use crate::text::*;
// str indexing by a byte range; it panics unless both ends are character boundaries
#[verifier::external_body]
pub fn slice<'a, T: StrShim + ?Sized>(s: &'a T, a: usize, b: usize) -> (r: &'a str)
    requires boundary(s.sv(), a as int), boundary(s.sv(), b as int), a <= b
    ensures r@ == s.sv().subrange(ci(s.sv(), a as int), ci(s.sv(), b as int))
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_from<'a, T: StrShim + ?Sized>(s: &'a T, a: usize) -> (r: &'a str)
    requires boundary(s.sv(), a as int)
    ensures r@ == s.sv().skip(ci(s.sv(), a as int))
{ unimplemented!() }
// the `pad` crate: right-aligned in a field at least as wide as the text (ASCII digits)
#[verifier::external_body]
pub fn pad_left(s: &String, width: usize) -> (r: String) ensures r@ == repeated(seq![' '], width as int - s@.len()) + s@ { unimplemented!() }
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
#[verifier::external_body]
pub fn flit(s: &'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn fshow<T: Show + ?Sized>(t: &T) -> (r: String) ensures r@ == t.shown() { unimplemented!() }
#[verifier::external_body]
pub fn fcat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn split<'a, T: StrShim + ?Sized>(s: &'a T, c: char) -> (r: Vec<&'a str>) ensures views(r@) == pieces(s.sv(), c) { unimplemented!() }
#[verifier::external_body]
pub fn first<T: StrShim + ?Sized>(s: &T) -> (r: Option<char>) ensures r == (if s.sv().len() > 0 { Some(s.sv()[0]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn chars<T: StrShim + ?Sized>(s: &T) -> (r: Vec<char>) ensures r@ == s.sv() { unimplemented!() }
#[verifier::external_body]
pub fn join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joined(sviews(v@), sep@) { unimplemented!() }
#[verifier::external_body]
pub fn cat(a: String, b: &String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn push_to_string(s: &mut String, t: String) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
pub fn push_to_vec<T>(s: &mut Vec<T>, t: T) ensures final(s)@ == old(s)@.push(t) { s.push(t); }
}
