@# What the tokens of a text are (C07), by character positions
@@ raw
pub mod lex {
use vstd::prelude::*;
use crate::text::*;
use crate::shim::*;
pub uninterp spec fn is_alpha(c: char) -> bool;      // char::is_alphabetic
pub uninterp spec fn is_number(c: char) -> bool;     // char::is_numeric
// char::is_alphanumeric is documented as is_alphabetic || is_numeric
pub open spec fn is_alnum(c: char) -> bool { is_alpha(c) || is_number(c) }
// Unicode facts about particular ASCII characters
pub open spec fn is_symbol(c: char) -> bool { c == ':' || c == '.' || c == '=' || c == '{' || c == '[' || c == '}' || c == ']' }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub broadcast axiom fn axiom_classes(c: char)
    ensures
        #[trigger] is_alpha(c) ==> !is_symbol(c) && !is_digit(c) && c != '\'' && c != '#' && c != '_' && c != '$' && c != '\n' && !is_blank(c),
        is_number(c) ==> !is_symbol(c) && c != '\'' && c != '#' && c != '_' && c != '$' && c != '\n' && !is_blank(c),
        is_digit(c) ==> is_number(c);
pub broadcast axiom fn axiom_visible(c: char)
    ensures is_symbol(c) || is_digit(c) || c == '\'' || c == '#' || c == '_' || c == '$' ==> !#[trigger] is_blank(c);
// ---- THE TOKENS OF A TEXT ---------------------------------------------------------------------
pub enum Class { Word, Digits, Quoted, Line, Blanks }
pub open spec fn within(k: Class, c: char) -> bool {
    match k {
        Class::Word => is_alnum(c) || c == '_',
        Class::Digits => is_digit(c),
        Class::Quoted => c != '\'',
        Class::Line => c != '\n',
        Class::Blanks => is_blank(c) && c != '\n',
    }
}
// the end of the longest run of such characters from k on
pub open spec fn scan(t: Seq<char>, k: int, w: Class) -> int decreases t.len() - k {
    if 0 <= k < t.len() && within(w, t[k]) { scan(t, k + 1, w) } else { k }
}
// consecutive comment lines: (their texts, the end of the last one, where to go on)
pub struct Comment { pub lines: Seq<Seq<char>>, pub end: int, pub next: int }
pub open spec fn comment(t: Seq<char>, k: int) -> Comment decreases t.len() - k {
    let e = scan(t, k + 1, Class::Line);
    let line = seq![end_trimmed(start_trimmed(t.subrange(k + 1, e)))];
    let n = if e < t.len() { scan(t, e + 1, Class::Blanks) } else { e };
    if k < n < t.len() && t[n] == '#' && e < t.len() {
        let more = comment(t, n);
        Comment { lines: line + more.lines, end: more.end, next: more.next }
    } else { Comment { lines: line, end: e, next: n } }
}
// non-empty lines are joined by a space, empty ones separate paragraphs
pub open spec fn para_state(ls: Seq<Seq<char>>) -> (Seq<Seq<char>>, Seq<char>) decreases ls.len() {
    if ls.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (done, cur) = para_state(ls.drop_last());
        let l = ls.last();
        if l.len() == 0 { (kept(done, cur), Seq::empty()) } else if cur.len() == 0 { (done, l) } else { (done, cur.push(' ') + l) }
    }
}
pub open spec fn kept(done: Seq<Seq<char>>, cur: Seq<char>) -> Seq<Seq<char>> { if cur.len() == 0 { done } else { done.push(cur) } }
pub open spec fn paragraphs(ls: Seq<Seq<char>>) -> Seq<Seq<char>> { kept(para_state(ls).0, para_state(ls).1) }
pub open spec fn value(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + (s.last() as u32 - '0' as u32) }
}
pub open spec fn is_keyword(s: Seq<char>) -> bool {
    s == "as"@ || s == "asymmetric"@ || s == "Bool"@ || s == "Bytes"@ || s == "choice"@ || s == "deleted"@ || s == "F64"@ || s == "import"@
    || s == "optional"@ || s == "S64"@ || s == "String"@ || s == "struct"@ || s == "U64"@ || s == "Unit"@
}
pub ghost enum Kind { Symbol(char), Word(Seq<char>), Name(Seq<char>), Int(int), Path(Seq<char>), Comment(Seq<Seq<char>>) }
pub ghost struct Tok { pub s: int, pub e: int, pub kind: Kind }
pub ghost struct Step { pub tok: Option<Tok>, pub ok: bool, pub next: int }
pub open spec fn one(k: int, e: int, kind: Kind, ok: bool) -> Step { Step { tok: Some(Tok { s: k, e, kind }), ok, next: e } }
// what begins at the character k
#[verifier::opaque]
pub open spec fn step(t: Seq<char>, k: int) -> Step {
    let c = t[k];
    if is_symbol(c) { one(k, k + 1, Kind::Symbol(c), true) }
    else if is_alpha(c) || c == '_' || c == '$' {
        let e = scan(t, k + 1, Class::Word);
        let w = t.subrange(k, e);
        let name = if c == '$' { w.skip(1) } else { w };
        if is_keyword(w) { one(k, e, Kind::Word(w), true) } else { one(k, e, Kind::Name(name), name.len() > 0 && is_alpha(name[0])) }
    } else if is_digit(c) {
        let e = scan(t, k + 1, Class::Digits);
        one(k, e, Kind::Int(value(t.subrange(k, e))), value(t.subrange(k, e)) < 0x1_0000_0000_0000_0000)
    } else if c == '\'' {
        let e = scan(t, k + 1, Class::Quoted);
        if e < t.len() { one(k, e + 1, Kind::Path(t.subrange(k + 1, e)), true) } else { Step { tok: None, ok: false, next: e } }
    } else if c == '#' {
        let m = comment(t, k);
        Step { tok: Some(Tok { s: k, e: m.end, kind: Kind::Comment(paragraphs(m.lines)) }), ok: true, next: m.next }
    } else { Step { tok: None, ok: is_blank(c), next: k + 1 } }
}
pub ghost struct Lexed { pub toks: Seq<Tok>, pub ok: bool }
#[verifier::opaque]
pub open spec fn lexed(t: Seq<char>, k: int) -> Lexed decreases t.len() - k {
    if 0 <= k < t.len() && k < step(t, k).next <= t.len() {
        let st = step(t, k);
        let rest = lexed(t, st.next);
        Lexed { toks: (match st.tok { Some(x) => seq![x], None => Seq::empty() }) + rest.toks, ok: st.ok && rest.ok }
    } else { Lexed { toks: Seq::empty(), ok: true } }
}
// ---- that these are exact: a sanity check of the definition -----------------------------------
pub proof fn lemma_scan(t: Seq<char>, k: int, w: Class)
    requires 0 <= k <= t.len()
    ensures k <= scan(t, k, w) <= t.len(), forall|i: int| k <= i < scan(t, k, w) ==> within(w, #[trigger] t[i]),
        scan(t, k, w) < t.len() ==> !within(w, t[scan(t, k, w)])
    decreases t.len() - k
{ if k < t.len() && within(w, t[k]) { lemma_scan(t, k + 1, w); } }
// every later start of the same run leads to the same end
pub proof fn lemma_scan_on(t: Seq<char>, k: int, j: int, w: Class)
    requires 0 <= k <= j <= scan(t, k, w), k <= t.len()
    ensures scan(t, j, w) == scan(t, k, w)
    decreases j - k
{ if k < j { lemma_scan(t, k, w); lemma_scan_on(t, k + 1, j, w); } }
pub proof fn lemma_comment(t: Seq<char>, k: int)
    requires 0 <= k < t.len(), t[k] == '#'
    ensures k < comment(t, k).end <= comment(t, k).next <= t.len(),
        forall|i: int| comment(t, k).end <= i < comment(t, k).next ==> is_blank(#[trigger] t[i]),
    decreases t.len() - k
{
    let e = scan(t, k + 1, Class::Line);
    lemma_scan(t, k + 1, Class::Line);
    broadcast use axiom_blank;
    if e < t.len() {
        lemma_scan(t, e + 1, Class::Blanks);
        let n = scan(t, e + 1, Class::Blanks);
        if n < t.len() && t[n] == '#' { lemma_comment(t, n); }
    }
}
pub open spec fn blank_between(t: Seq<char>, a: int, b: int) -> bool { a <= b && forall|i: int| a <= i < b ==> is_blank(#[trigger] t[i]) }
pub proof fn lemma_step_next(t: Seq<char>, k: int)
    requires 0 <= k < t.len()
    ensures ({
        let st = step(t, k);
        &&& k < st.next <= t.len()
        &&& st.tok matches Some(x) ==> x.s == k && x.e > k && x.e <= st.next && (st.ok ==> blank_between(t, x.e, st.next))
        &&& st.tok is None && st.ok ==> is_blank(t[k]) && st.next == k + 1
    })
{
    reveal(step);
    let c = t[k];
    if is_symbol(c) { } else if is_alpha(c) || c == '_' || c == '$' { lemma_scan(t, k + 1, Class::Word); }
    else if is_digit(c) { lemma_scan(t, k + 1, Class::Digits); }
    else if c == '\'' { lemma_scan(t, k + 1, Class::Quoted); }
    else if c == '#' { lemma_comment(t, k); }
}
// C07: token ranges are non-empty, in bounds, in order, and only blanks lie outside them
pub open spec fn covers(t: Seq<char>, k: int, toks: Seq<Tok>) -> bool decreases toks.len() {
    if toks.len() == 0 { blank_between(t, k, t.len() as int) } else {
        let x = toks[0];
        k <= x.s < x.e <= t.len() && blank_between(t, k, x.s) && covers(t, x.e, toks.skip(1))
    }
}
pub open spec fn with(done: Seq<Tok>, x: Option<Tok>) -> Seq<Tok> { match x { Some(x) => done.push(x), None => done } }
pub proof fn lemma_lexed(t: Seq<char>, k: int, done: Seq<Tok>)
    requires 0 <= k < t.len()
    ensures lexed(t, k).ok == (step(t, k).ok && lexed(t, step(t, k).next).ok),
        done + lexed(t, k).toks == with(done, step(t, k).tok) + lexed(t, step(t, k).next).toks
{
    reveal(lexed);
    lemma_step_next(t, k);
    let rest = lexed(t, step(t, k).next).toks;
    match step(t, k).tok {
        Some(x) => { assert(done + (seq![x] + rest) =~= done.push(x) + rest); }
        None => { assert(Seq::<Tok>::empty() + rest =~= rest); }
    }
}
proof fn lemma_covers_more(t: Seq<char>, k: int, j: int, toks: Seq<Tok>)
    requires 0 <= k <= j <= t.len(), blank_between(t, k, j), covers(t, j, toks)
    ensures covers(t, k, toks)
{ }
pub proof fn lemma_exact(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(), lexed(t, k).ok
    ensures covers(t, k, lexed(t, k).toks)
    decreases t.len() - k
{
    reveal(lexed);
    if k < t.len() {
        lemma_step_next(t, k);
        let st = step(t, k);
        lemma_exact(t, st.next);
        let rest = lexed(t, st.next).toks;
        match st.tok {
            Some(x) => {
                assert((seq![x] + rest).skip(1) =~= rest);
                lemma_covers_more(t, x.e, st.next, rest);
            }
            None => {
                assert(Seq::<Tok>::empty() + rest =~= rest);
                lemma_covers_more(t, k, st.next, rest);
            }
        }
    }
}
// C07: the kind and content of a token are determined by the characters it covers
proof fn lemma_scan_sub(t: Seq<char>, a: int, j: int, b: int, w: Class)
    requires 0 <= a <= j <= b <= t.len()
    ensures ({ let e = scan(t, j, w); scan(t.subrange(a, b), j - a, w) == (if e < b { e } else { b }) - a })
    decreases b - j
{
    let u = t.subrange(a, b);
    lemma_scan(t, j, w);
    if j < b && within(w, t[j]) { assert(u[j - a] == t[j]); lemma_scan_sub(t, a, j + 1, b, w); lemma_scan_on(t, j, j + 1, w); }
    else if j < b { assert(u[j - a] == t[j]); }
}
proof fn lemma_comment_sub(t: Seq<char>, a: int, k: int)
    requires 0 <= a <= k < t.len(), t[k] == '#'
    ensures ({ let m = comment(t, k); let u = comment(t.subrange(a, m.end), k - a); u.lines == m.lines && u.end == m.end - a })
    decreases t.len() - k
{
    let b = comment(t, k).end;
    let u = t.subrange(a, b);
    let e = scan(t, k + 1, Class::Line);
    lemma_scan(t, k + 1, Class::Line);
    lemma_comment(t, k);
    let n = if e < t.len() { scan(t, e + 1, Class::Blanks) } else { e };
    if e < t.len() { lemma_scan(t, e + 1, Class::Blanks); }
    if n < t.len() && t[n] == '#' && e < t.len() { lemma_comment(t, n); }
    lemma_scan_sub(t, a, k + 1, b, Class::Line);
    assert(u.subrange(k + 1 - a, e - a) =~= t.subrange(k + 1, e));
    if n < t.len() && t[n] == '#' && e < t.len() {
        lemma_scan_sub(t, a, e + 1, b, Class::Blanks);
        assert(u[n - a] == t[n]);
        lemma_comment_sub(t, a, n);
        let x = comment(u, n - a);
        assert(comment(u, k - a).lines == seq![end_trimmed(start_trimmed(u.subrange(k - a + 1, e - a)))] + x.lines);
    } else {
        assert(comment(u, k - a).end == e - a);
    }
}
pub proof fn lemma_determined(t: Seq<char>, k: int)
    requires 0 <= k < t.len(), step(t, k).tok is Some
    ensures ({ let x = step(t, k).tok.unwrap(); step(t.subrange(k, x.e), 0).tok == Some(Tok { s: 0, e: x.e - k, kind: x.kind }) })
{
    reveal(step);
    let c = t[k];
    lemma_step_next(t, k);
    let b = step(t, k).tok.unwrap().e;
    let u = t.subrange(k, b);
    assert(u[0] == c);
    if is_symbol(c) { } else if is_alpha(c) || c == '_' || c == '$' {
        lemma_scan_sub(t, k, k + 1, b, Class::Word); assert(u.subrange(0, b - k) =~= t.subrange(k, b));
    } else if is_digit(c) {
        lemma_scan_sub(t, k, k + 1, b, Class::Digits); assert(u.subrange(0, b - k) =~= t.subrange(k, b));
    } else if c == '\'' {
        lemma_scan(t, k + 1, Class::Quoted);
        lemma_scan_sub(t, k, k + 1, b, Class::Quoted);
        assert(u.subrange(1, b - 1 - k) =~= t.subrange(k + 1, b - 1));
    } else { lemma_comment_sub(t, k, k); }
}
// C07 in one statement: what a user is told about the tokens of an accepted text
pub open spec fn determined(t: Seq<char>, toks: Seq<Tok>) -> bool {
    forall|i: int| 0 <= i < toks.len() ==> step(t.subrange((#[trigger] toks[i]).s, toks[i].e), 0).tok == Some(Tok { s: 0, e: toks[i].e - toks[i].s, kind: toks[i].kind })
}
pub proof fn lemma_all_determined(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(), lexed(t, k).ok
    ensures determined(t, lexed(t, k).toks)
    decreases t.len() - k
{
    reveal(lexed);
    if k < t.len() {
        lemma_step_next(t, k);
        let st = step(t, k);
        lemma_all_determined(t, st.next);
        let rest = lexed(t, st.next).toks;
        if st.tok is Some {
            lemma_determined(t, k);
            let all = seq![st.tok.unwrap()] + rest;
            assert forall|i: int| 0 <= i < all.len() implies step(t.subrange((#[trigger] all[i]).s, all[i].e), 0).tok == Some(Tok { s: 0, e: all[i].e - all[i].s, kind: all[i].kind }) by {
                if i > 0 { assert(all[i] == rest[i - 1]); }
            }
        } else { assert(Seq::<Tok>::empty() + rest =~= rest); }
    }
}
// the line on which a token ends shows something of it
pub open spec fn shows(t: Seq<char>, x: Tok) -> bool { exists|v: int| #[trigger] crate::lst::visible_end(t, x.s, x.e, v) }
proof fn lemma_comment_shows(t: Seq<char>, a: int, k: int)
    requires 0 <= a <= k < t.len(), t[k] == '#'
    ensures exists|v: int| #[trigger] crate::lst::visible_end(t, a, comment(t, k).end, v)
    decreases t.len() - k
{
    broadcast use axiom_visible;
    let e = scan(t, k + 1, Class::Line);
    lemma_scan(t, k + 1, Class::Line);
    let n = if e < t.len() { scan(t, e + 1, Class::Blanks) } else { e };
    if e < t.len() { lemma_scan(t, e + 1, Class::Blanks); }
    if n < t.len() && t[n] == '#' && e < t.len() {
        lemma_comment_shows(t, a, n);
        let v = choose|v: int| #[trigger] crate::lst::visible_end(t, a, comment(t, n).end, v);
        assert(comment(t, k).end == comment(t, n).end);
        assert(crate::lst::visible_end(t, a, comment(t, k).end, v));
    }
    else { assert(comment(t, k).end == e); assert(!is_blank('#')); assert(crate::lst::visible_end(t, a, e, k)); }
}
pub proof fn lemma_shows(t: Seq<char>, k: int)
    requires 0 <= k < t.len(), step(t, k).tok is Some
    ensures shows(t, step(t, k).tok.unwrap())
{
    broadcast use axiom_visible, axiom_classes;
    reveal(step);
    let c = t[k];
    lemma_step_next(t, k);
    let e = step(t, k).tok.unwrap().e;
    assert(is_alpha(c) ==> !is_blank(c)); assert(!is_blank('\''));
    if is_symbol(c) { assert(crate::lst::visible_end(t, k, e, k)); } else if is_alpha(c) || c == '_' || c == '$' {
        lemma_scan(t, k + 1, Class::Word);
        assert forall|i: int| k <= i < e implies #[trigger] t[i] != '\n' by { assert(is_alpha(t[i]) ==> t[i] != '\n'); assert(i > k ==> within(Class::Word, t[i])); }
        assert(crate::lst::visible_end(t, k, e, k));
    } else if is_digit(c) { lemma_scan(t, k + 1, Class::Digits); assert(crate::lst::visible_end(t, k, e, k)); }
    else if c == '\'' { lemma_scan(t, k + 1, Class::Quoted); assert(crate::lst::visible_end(t, k, e, e - 1)); }
    else { lemma_comment_shows(t, k, k); }
}
pub open spec fn shows_all(t: Seq<char>, ks: Seq<Tok>) -> bool { forall|i: int| 0 <= i < ks.len() ==> shows(t, #[trigger] ks[i]) }
pub proof fn lemma_shows_all(t: Seq<char>, k: int)
    requires 0 <= k <= t.len()
    ensures shows_all(t, lexed(t, k).toks)
    decreases t.len() - k
{
    reveal(lexed);
    if k < t.len() {
        lemma_step_next(t, k);
        let st = step(t, k);
        lemma_shows_all(t, st.next);
        let rest = lexed(t, st.next).toks;
        if st.tok is Some {
            lemma_shows(t, k);
            let all = seq![st.tok.unwrap()] + rest;
            assert forall|i: int| 0 <= i < all.len() implies shows(t, #[trigger] all[i]) by { if i > 0 { assert(all[i] == rest[i - 1]); } }
        } else { assert(Seq::<Tok>::empty() + rest =~= rest); }
    }
}
// where the character k lies, and where the characters k .. e lie
pub proof fn lemma_here(t: Seq<char>, k: int)
    requires 0 <= k < t.len()
    ensures bpos(t, k) >= 0, bpos(t, k) < bpos(t, k + 1) <= blen(t), t[k] < '\u{80}' ==> bpos(t, k + 1) == bpos(t, k) + 1,
        is_at(t, bpos(t, k), k), is_at(t, bpos(t, k + 1), k + 1), boundary(t, bpos(t, k)), boundary(t, bpos(t, k + 1)),
        ci(t, bpos(t, k)) == k, ci(t, bpos(t, k + 1)) == k + 1,
        bpos(t, t.len() as int) == blen(t), boundary(t, blen(t)), ci(t, blen(t)) == t.len(), is_at(t, blen(t), t.len() as int),
{
    lemma_step(t, k); lemma_bpos(t, 0, k); lemma_bpos(t, k, k + 1); lemma_bpos(t, k + 1, t.len() as int);
    lemma_ci(t, k); lemma_ci(t, k + 1); lemma_ci(t, t.len() as int);
}
pub proof fn lemma_there(t: Seq<char>, k: int, e: int)
    requires 0 <= k <= e <= t.len()
    ensures bpos(t, k) + (e - k) <= bpos(t, e) <= blen(t), is_at(t, bpos(t, e), e), boundary(t, bpos(t, e)), ci(t, bpos(t, e)) == e
{ lemma_bpos(t, k, e); lemma_bpos(t, e, t.len() as int); lemma_ci(t, e); }
// ---- the iterator: char_indices().peekable() --------------------------------------------------
#[verifier::external_body]
pub struct CIter { p: u8 }
impl CIter {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.at() <= self.text().len() && blen(self.text()) <= isize::MAX }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).text() == old(self).text(),
            old(self).at() < old(self).text().len() ==> final(self).at() == old(self).at() + 1 && r.is_some()
                && r.unwrap().0 == bpos(old(self).text(), old(self).at()) && r.unwrap().1 == old(self).text()[old(self).at()],
            old(self).at() >= old(self).text().len() ==> r.is_none() && final(self).at() == old(self).at(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&(usize, char)>)
        requires self.wf()
        ensures
            self.at() < self.text().len() ==> r.is_some() && r.unwrap().0 == bpos(self.text(), self.at()) && r.unwrap().1 == self.text()[self.at()],
            self.at() >= self.text().len() ==> r.is_none(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn char_indices<T: StrShim + ?Sized>(s: &T) -> (r: CIter) ensures r.wf(), r.text() == s.sv(), r.at() == 0 { unimplemented!() }
pub trait ClassShim {
    spec fn it(&self) -> char;
    fn alphabetic_(&self) -> (r: bool) ensures r == is_alpha(self.it());
    fn alphanumeric_(&self) -> (r: bool) ensures r == is_alnum(self.it());
    fn numeric_(&self) -> (r: bool) ensures r == is_number(self.it());
    fn ascii_digit_(&self) -> (r: bool) ensures r == is_digit(self.it());
    fn whitespace_(&self) -> (r: bool) ensures r == is_blank(self.it());
}
impl ClassShim for char {
    open spec fn it(&self) -> char { *self }
    #[verifier::external_body] fn alphabetic_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn alphanumeric_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn numeric_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn ascii_digit_(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn whitespace_(&self) -> (r: bool) { unimplemented!() }
}
pub struct NotANumber { pub p: u8 }
// str::parse::<usize>
#[verifier::external_body]
pub fn parse_usize<T: StrShim + ?Sized>(s: &T) -> (r: Result<usize, NotANumber>)
    requires s.sv().len() > 0, forall|i: int| 0 <= i < s.sv().len() ==> is_digit(#[trigger] s.sv()[i])
    ensures match r { Ok(n) => n == value(s.sv()), Err(_) => value(s.sv()) > usize::MAX }
{ unimplemented!() }
#[verifier::external_body]
pub fn starts_with_char<T: StrShim + ?Sized>(s: &T, c: char) -> (r: bool) ensures r == (s.sv().len() > 0 && s.sv()[0] == c) { unimplemented!() }
#[verifier::external_body]
pub fn str_is<T: StrShim + ?Sized, U: StrShim + ?Sized>(s: &T, u: &U) -> (r: bool) ensures r == (s.sv() == u.sv()) { unimplemented!() }
// unicode_segmentation::GraphemeCursor over the whole text
#[verifier::external_body]
pub struct GraphemeCursor { p: u8 }
impl GraphemeCursor {
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new(at: usize, len: usize, extended: bool) -> (r: Self) ensures r.at() == at { unimplemented!() }
    #[verifier::external_body]
    pub fn next_boundary<T: StrShim + ?Sized>(&mut self, s: &T, start: usize) -> (r: Result<Option<usize>, ()>)
        requires start == 0, boundary(s.sv(), old(self).at()), old(self).at() < blen(s.sv())
        ensures r.is_ok(), r.unwrap().is_some(), old(self).at() < r.unwrap().unwrap() <= blen(s.sv()), boundary(s.sv(), r.unwrap().unwrap() as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn code<T: StrShim + ?Sized>(s: &T) -> (r: String) { unimplemented!() }
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
#[verifier::external_body]
pub fn path<T: StrShim + ?Sized>(s: &T) -> (r: PathBuf) ensures path_text(r) == s.sv() { unimplemented!() }
impl PathBuf {
    #[verifier::external_body]
    pub fn owned_(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn clear(s: &mut String) ensures final(s)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn push_str<T: StrShim + ?Sized>(s: &mut String, t: &T) ensures final(s)@ == old(s)@ + t.sv() { unimplemented!() }
pub trait Pushed<T>: Sized { spec fn pushed(old: Self, x: T, new: Self) -> bool; }
impl Pushed<char> for String { open spec fn pushed(old: String, x: char, new: String) -> bool { new@ == old@.push(x) } }
impl<T> Pushed<T> for Vec<T> { open spec fn pushed(old: Vec<T>, x: T, new: Vec<T>) -> bool { new@ == old@.push(x) } }
#[verifier::external_body]
pub fn push<T, S: Pushed<T>>(s: &mut S, x: T) ensures S::pushed(*old(s), x, *final(s)) { unimplemented!() }
}
