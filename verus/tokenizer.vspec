@# tokenizer.rs, token.rs (C07)
@@ include common.vspec
@@ include text.vspec
@@ fmt string
@@ methods
    char_indices/0 ==> crate::lex::char_indices(&$R)
    peekable/0 ==> $R
    len/0 ==> crate::lst::length(&$R)
    is_alphabetic/0 ==> ($R).alphabetic_()
    is_alphanumeric/0 ==> ($R).alphanumeric_()
    is_numeric/0 ==> ($R).numeric_()
    is_ascii_digit/0 ==> ($R).ascii_digit_()
    is_whitespace/0 ==> ($R).whitespace_()
    is_empty/0 ==> crate::lst::is_empty(&$R)
    starts_with/1 ==> crate::lex::starts_with_char(&$R, $1)
    parse/0 ==> crate::lex::parse_usize(&$R)
    trim/0 ==> ($R).trim_()
    to_owned/0 ==> ($R).owned_()
    into/0 ==> crate::identifier::named(&$R)
    clone/0 ==> ($R).owned_()
    clear/0 ==> crate::lex::clear(&mut $R)
    push/1 ==> crate::lex::push(&mut $R, $1)
    push_str/1 ==> crate::lex::push_str(&mut $R, $1)
    code_str/0 ==> crate::lex::code(&$R)
@@ binops
    == \w+_KEYWORD ==> crate::lex::str_is($L, $R)
@@ subst tokenizer
    \bthrow::<Error>\( ==> throw::<_, Error>(
    \bPath::new\( ==> crate::lex::path(
@@ include lst.vspec
@@ include lex.vspec
@@ module error src/error.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
@@ raw
#[verifier::external_body]
pub struct Error { p: u8 }
pub struct Reason { p: u8 }
#[verifier::external_body]
pub fn throw<M: StrShim + ?Sized, E>(message: &M, path: Option<&Path>, listing: Option<&String>, reason: Option<E>) -> (r: Error) { unimplemented!() }
@@ take SourceRange listing
@@ endmodule
@@ fn error::listing external
@@ fn error::listing ret r
    requires range_fine(source_contents@, source_range)
@@ module identifier src/identifier.rs
use vstd::prelude::*;
use crate::text::*;
@@ raw
#[verifier::external_body]
pub struct Identifier { p: u8 }
impl Identifier { pub uninterp spec fn name(&self) -> Seq<char>; }
// From<&str> for Identifier keeps the text (the contract of unit identifier)
#[verifier::external_body]
pub fn named<T: StrShim + ?Sized>(s: &T) -> (r: Identifier) ensures r.name() == s.sv() { unimplemented!() }
@@ endmodule
@@ module token src/token.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
use crate::error::SourceRange;
use crate::identifier::Identifier;
@@ take ASYMMETRIC_KEYWORD AS_KEYWORD BOOL_KEYWORD BYTES_KEYWORD CHOICE_KEYWORD DELETED_KEYWORD F64_KEYWORD IMPORT_KEYWORD OPTIONAL_KEYWORD S64_KEYWORD STRING_KEYWORD STRUCT_KEYWORD U64_KEYWORD UNIT_KEYWORD
@@ take Token Variant
@@ endmodule
@@ include placed.vspec
@@ module tokenizer src/tokenizer.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::lst::*;
use crate::lex::*;
use crate::placed::*;
use crate::error::{listing, throw, Error, SourceRange};
use crate::token::*;
pub open spec fn kind_is(v: Variant, k: Kind) -> bool {
    match v {
        Variant::As => k == Kind::Word("as"@),
        Variant::Asymmetric => k == Kind::Word("asymmetric"@),
        Variant::Bool => k == Kind::Word("Bool"@),
        Variant::Bytes => k == Kind::Word("Bytes"@),
        Variant::Choice => k == Kind::Word("choice"@),
        Variant::Colon => k == Kind::Symbol(':'),
        Variant::Comment(ps) => k == Kind::Comment(sviews(ps@)),
        Variant::Deleted => k == Kind::Word("deleted"@),
        Variant::Dot => k == Kind::Symbol('.'),
        Variant::Equals => k == Kind::Symbol('='),
        Variant::F64 => k == Kind::Word("F64"@),
        Variant::Identifier(n) => k == Kind::Name(n.name()),
        Variant::Import => k == Kind::Word("import"@),
        Variant::Integer(n) => k == Kind::Int(n as int),
        Variant::LeftCurly => k == Kind::Symbol('{'),
        Variant::LeftSquare => k == Kind::Symbol('['),
        Variant::Optional => k == Kind::Word("optional"@),
        Variant::Path(p) => k == Kind::Path(path_text(p)),
        Variant::RightCurly => k == Kind::Symbol('}'),
        Variant::RightSquare => k == Kind::Symbol(']'),
        Variant::S64 => k == Kind::Word("S64"@),
        Variant::String => k == Kind::Word("String"@),
        Variant::Struct => k == Kind::Word("struct"@),
        Variant::U64 => k == Kind::Word("U64"@),
        Variant::Unit => k == Kind::Word("Unit"@),
    }
}
pub open spec fn is_tok(t: Seq<char>, x: Token, k: Tok) -> bool {
    x.source_range.start == bpos(t, k.s) && x.source_range.end == bpos(t, k.e) && kind_is(x.variant, k.kind)
}
pub open spec fn are_toks(t: Seq<char>, xs: Seq<Token>, ks: Seq<Tok>) -> bool {
    xs.len() == ks.len() && forall|i: int| 0 <= i < xs.len() ==> is_tok(t, #[trigger] xs[i], ks[i])
}
// some tokens are done, the rest lies from character k on
#[verifier::opaque]
pub open spec fn progress(t: Seq<char>, k: int, xs: Seq<Token>, wrong: bool, done: Seq<Tok>) -> bool {
    if wrong { !lexed(t, 0).ok } else {
        are_toks(t, xs, done) && done + lexed(t, k).toks == lexed(t, 0).toks && lexed(t, k).ok == lexed(t, 0).ok
    }
}
// the step from character k has been taken
#[verifier::opaque]
pub open spec fn taken(t: Seq<char>, k: int, had: Seq<Token>, xs: Seq<Token>, was: bool, wrong: bool, at: int) -> bool {
    &&& at == step(t, k).next
    &&& wrong ==> was || !step(t, k).ok
    &&& !wrong ==> !was && step(t, k).ok && match step(t, k).tok {
            Some(x) => xs.len() == had.len() + 1 && xs.drop_last() == had && is_tok(t, xs.last(), x),
            None => xs == had,
        }
}
pub proof fn lemma_progress(t: Seq<char>, k: int, had: Seq<Token>, xs: Seq<Token>, was: bool, wrong: bool, done: Seq<Tok>, at: int)
    requires 0 <= k < t.len(), progress(t, k, had, was, done), taken(t, k, had, xs, was, wrong, at)
    ensures progress(t, at, xs, wrong, with(done, step(t, k).tok))
{
    reveal(progress); reveal(taken);
    lemma_lexed(t, k, done);
    if !wrong {
        assert forall|i: int| 0 <= i < had.len() && step(t, k).tok.is_some() implies #[trigger] xs[i] == had[i] by { assert(xs.drop_last()[i] == had[i]); }
    }
}
pub proof fn lemma_skip(t: Seq<char>, k: int, had: Seq<Token>, was: bool, done: Seq<Tok>)
    requires 0 <= k < t.len(), progress(t, k, had, was, done), is_blank(t[k])
    ensures progress(t, k + 1, had, was, done)
{
    broadcast use axiom_classes, axiom_visible, axiom_blank;
    reveal(step); reveal(taken);
    assert(is_alpha(t[k]) ==> !is_blank(t[k]));
    lemma_progress(t, k, had, had, was, was, done, k + 1);
}
pub proof fn lemma_start(t: Seq<char>) ensures progress(t, 0, Seq::empty(), false, Seq::empty())
{ reveal(progress); assert(Seq::<Tok>::empty() + lexed(t, 0).toks =~= lexed(t, 0).toks); }
proof fn lemma_apart(t: Seq<char>, k: int, ks: Seq<Tok>, i: int, j: int)
    requires covers(t, k, ks), 0 <= i <= j < ks.len(), 0 <= k
    ensures k <= ks[i].s < ks[i].e <= t.len(), i < j ==> ks[i].e <= ks[j].s
    decreases ks.len()
{
    let r = ks.skip(1);
    if i > 0 { assert(r[i - 1] == ks[i]); assert(r[j - 1] == ks[j]); lemma_apart(t, ks[0].e, r, i - 1, j - 1); }
    else if j > 0 { assert(r[j - 1] == ks[j]); lemma_apart(t, ks[0].e, r, j - 1, j - 1); }
}
proof fn lemma_placed(t: Seq<char>, xs: Seq<Token>, ks: Seq<Tok>)
    requires are_toks(t, xs, ks), covers(t, 0, ks), shows_all(t, ks)
    ensures placed(t, xs)
{
    assert forall|i: int| 0 <= i < xs.len() implies lies(t, #[trigger] xs[i]) && from(t, xs[i]) == ks[i].s && to(t, xs[i]) == ks[i].e by {
        assert(is_tok(t, xs[i], ks[i]));
        lemma_apart(t, 0, ks, i, i);
        lemma_ci(t, ks[i].s); lemma_ci(t, ks[i].e);
        assert(shows(t, ks[i]));
        let v = choose|v: int| #[trigger] visible_end(t, ks[i].s, ks[i].e, v);
        assert(visible_end(t, from(t, xs[i]), to(t, xs[i]), v));
    }
    assert forall|i: int, j: int| 0 <= i < j < xs.len() implies to(t, #[trigger] xs[i]) <= from(t, #[trigger] xs[j]) by {
        assert(lies(t, xs[i])); assert(lies(t, xs[j]));
        lemma_apart(t, 0, ks, i, j);
    }
}
pub proof fn lemma_finish(t: Seq<char>, xs: Seq<Token>, wrong: bool, done: Seq<Tok>)
    requires progress(t, t.len() as int, xs, wrong, done)
    ensures lexed(t, 0).ok == !wrong, !wrong ==> are_toks(t, xs, lexed(t, 0).toks) && covers(t, 0, lexed(t, 0).toks) && determined(t, lexed(t, 0).toks) && placed(t, xs)
{
    reveal(progress); reveal(lexed);
    assert(lexed(t, t.len() as int).toks =~= Seq::empty());
    if !wrong { assert(done + Seq::<Tok>::empty() =~= done); lemma_exact(t, 0); lemma_all_determined(t, 0); lemma_shows_all(t, 0); lemma_placed(t, xs, lexed(t, 0).toks); }
}
@@ take RAW_IDENTIFIER_SIGIL tokenize
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ fn tokenizer::tokenize ret r
    ensures match r {
        Ok(ts) => lexed(schema_contents@, 0).ok && are_toks(schema_contents@, ts@, lexed(schema_contents@, 0).toks)
            && covers(schema_contents@, 0, lexed(schema_contents@, 0).toks) && determined(schema_contents@, lexed(schema_contents@, 0).toks)
            && placed(schema_contents@, ts@),
        Err(es) => !lexed(schema_contents@, 0).ok && es@.len() > 0,
    }
@@ fn tokenizer::tokenize entry
    let ghost t = schema_contents@;
    let ghost mut done: Seq<Tok> = Seq::empty();
    proof {
        axiom_fits(schema_contents);
        lemma_start(t);
        lemma_bpos(t, 0, t.len() as int);
    }
@@ fn tokenizer::tokenize loop 0 inv
    invariant iter.wf(), iter.text() == t, t == schema_contents@, progress(t, iter.at(), tokens@, errors@.len() > 0, done),
        blen(t) <= isize::MAX, bpos(t, t.len() as int) == blen(t)
    ensures iter.at() == t.len()
    decreases t.len() - iter.at()
@@ fn tokenizer::tokenize loop 0 start
    broadcast use axiom_classes, axiom_visible, axiom_blank;
    let ghost k = iter.at() - 1;
    let ghost st = step(t, k);
    let ghost had = tokens@;
    let ghost was = errors@.len();
    let ghost before = done;
    proof {
        lemma_step_next(t, k);
        lemma_here(t, k);
        if is_blank(c) { lemma_skip(t, k, had, was > 0, before); }
        assert(tokens_span(t, k, k));
        lemma_range(t, SourceRange { start: i, end: i }, k, k);
        if c == '\'' { assert(visible_end(t, k, k + 1, k)); assert(tokens_span(t, k, k + 1)); lemma_range(t, SourceRange { start: i, end: (i + 1) as usize }, k, k + 1); }
    }
@@ fn tokenizer::tokenize loop 0 post
    proof { lemma_finish(t, tokens@, errors@.len() > 0, done); }
@@ fn tokenizer::tokenize loop 0 end
    proof {
        lemma_progress(t, k, had, tokens@, was > 0, errors@.len() > 0, before, iter.at());
        done = with(before, st.tok);
    }
@@ fn tokenizer::tokenize attr
    #[verifier::rlimit(300)]
@@ fn tokenizer::tokenize loop 1 inv
    invariant_except_break end == blen(t),
    invariant iter.wf(), iter.text() == t, 0 <= k < t.len(), k + 1 <= iter.at() <= scan(t, k + 1, Class::Word) <= t.len(), bpos(t, t.len() as int) == blen(t),
    ensures iter.at() == scan(t, k + 1, Class::Word), end == bpos(t, iter.at()),
    decreases t.len() - iter.at()
@@ fn tokenizer::tokenize loop 1 pre
    proof { lemma_scan(t, k + 1, Class::Word); }
@@ fn tokenizer::tokenize loop 1 start
    proof { lemma_scan_on(t, k + 1, iter.at(), Class::Word); lemma_scan(t, iter.at() + 1, Class::Word); }
@@ fn tokenizer::tokenize loop 1 post
    let ghost e = iter.at();
    proof {
        assert(iter.at() == e);
        lemma_scan_on(t, k + 1, e, Class::Word);
        lemma_there(t, k, e); lemma_there(t, k + 1, e);
        assert(visible_end(t, k, e, k));
        assert(tokens_span(t, k, e));
        lemma_range(t, SourceRange { start: i, end }, k, e);
        let w = t.subrange(k, e);
        assert(w.skip(1) =~= t.subrange(k + 1, e));
        assert(c == '$' && e > k + 1 ==> t[k + 1] == w.skip(1)[0]);
    }
@@ fn tokenizer::tokenize loop 2 inv
    invariant_except_break end == blen(t),
    invariant iter.wf(), iter.text() == t, 0 <= k < t.len(), k + 1 <= iter.at() <= scan(t, k + 1, Class::Digits) <= t.len(), bpos(t, t.len() as int) == blen(t),
    ensures iter.at() == scan(t, k + 1, Class::Digits), end == bpos(t, iter.at()),
    decreases t.len() - iter.at()
@@ fn tokenizer::tokenize loop 2 pre
    proof { lemma_scan(t, k + 1, Class::Digits); }
@@ fn tokenizer::tokenize loop 2 start
    proof { lemma_scan_on(t, k + 1, iter.at(), Class::Digits); lemma_scan(t, iter.at() + 1, Class::Digits); }
@@ fn tokenizer::tokenize loop 2 post
    let ghost e = iter.at();
    proof {
        lemma_scan_on(t, k + 1, e, Class::Digits);
        lemma_there(t, k, e);
        assert(visible_end(t, k, e, k));
        assert(tokens_span(t, k, e));
        lemma_range(t, SourceRange { start: i, end }, k, e);
        assert forall|x: int| 0 <= x < e - k implies is_digit(#[trigger] t.subrange(k, e)[x]) by { assert(t.subrange(k, e)[x] == t[k + x]); }
    }
@@ fn tokenizer::tokenize loop 3 kind iter
@@ fn tokenizer::tokenize loop 3 inv
    invariant_except_break end == i, k + 1 <= iter.at() <= scan(t, k + 1, Class::Quoted) <= t.len(),
    invariant iter.wf(), iter.text() == t, 0 <= k < t.len(), bpos(t, t.len() as int) == blen(t),
    ensures ({ let e = scan(t, k + 1, Class::Quoted);
        if e < t.len() { end == bpos(t, e) && iter.at() == e + 1 } else { end == i && iter.at() == e } }),
    decreases t.len() - iter.at()
@@ fn tokenizer::tokenize loop 3 pre
    proof { lemma_scan(t, k + 1, Class::Quoted); }
@@ fn tokenizer::tokenize loop 3 start
    proof { lemma_scan_on(t, k + 1, iter.at() - 1, Class::Quoted); lemma_scan(t, iter.at(), Class::Quoted); }
@@ fn tokenizer::tokenize loop 3 post
    let ghost e = scan(t, k + 1, Class::Quoted);
    proof {
        if e < t.len() { lemma_there(t, k + 1, e); lemma_here(t, e); }
    }
@@ fn tokenizer::tokenize loop 4 pre
    let ghost mut q = k;
    proof { assert(sviews(lines@) + comment(t, q).lines =~= comment(t, k).lines); }
@@ fn tokenizer::tokenize loop 4 inv
    invariant_except_break
        line_start == bpos(t, q + 1), line_end == blen(t), iter.at() == q || iter.at() == q + 1,
        comment(t, q).end == comment(t, k).end, comment(t, q).next == comment(t, k).next,
        sviews(lines@) + comment(t, q).lines == comment(t, k).lines,
    invariant iter.wf(), iter.text() == t, t == schema_contents@, 0 <= k <= q < t.len(), t[q] == '#', bpos(t, t.len() as int) == blen(t), blen(t) <= isize::MAX,
    ensures line_end == bpos(t, comment(t, k).end), iter.at() == comment(t, k).next, sviews(lines@) == comment(t, k).lines,
    decreases t.len() - q
@@ fn tokenizer::tokenize loop 4 start
    broadcast use axiom_classes, axiom_visible, axiom_blank;
    let ghost e = scan(t, q + 1, Class::Line);
    let ghost n = if e < t.len() { scan(t, e + 1, Class::Blanks) } else { e };
    let ghost so_far = lines@;
    proof {
        lemma_scan(t, q + 1, Class::Line); lemma_there(t, q + 1, e); lemma_there(t, q, q + 1);
        if e < t.len() { lemma_scan(t, e + 1, Class::Blanks); }
    }
@@ fn tokenizer::tokenize loop 4 end
    proof { q = iter.at(); lemma_here(t, q); }
@@ fn tokenizer::tokenize loop 5 kind iter
@@ fn tokenizer::tokenize loop 5 inv
    invariant_except_break line_end == blen(t), q <= iter.at() <= e <= t.len(),
    invariant iter.wf(), iter.text() == t, 0 <= q < t.len(), t[q] == '#', bpos(t, t.len() as int) == blen(t), e == scan(t, q + 1, Class::Line),
    ensures line_end == bpos(t, e), iter.at() == (if e < t.len() { e + 1 } else { e }),
    decreases t.len() - iter.at()
@@ fn tokenizer::tokenize loop 5 start
    proof { if iter.at() > q + 1 { lemma_scan_on(t, q + 1, iter.at() - 1, Class::Line); } lemma_scan(t, iter.at(), Class::Line); }
@@ fn tokenizer::tokenize loop 6 pre
    proof {
        let line = end_trimmed(start_trimmed(t.subrange(q + 1, e)));
        assert(lines@.len() == so_far.len() + 1 && lines@.last()@ == line);
        assert(sviews(lines@) =~= sviews(so_far) + seq![line]);
        assert(sviews(so_far) + (seq![line] + comment(t, n).lines) =~= sviews(lines@) + comment(t, n).lines);
        assert(sviews(so_far) + seq![line] =~= sviews(lines@));
    }
@@ fn tokenizer::tokenize loop 6 post
    proof { if n < t.len() { lemma_here(t, n); } }
@@ fn tokenizer::tokenize loop 6 inv
    invariant iter.wf(), iter.text() == t, n == (if e < t.len() { scan(t, e + 1, Class::Blanks) } else { e }), 0 <= e <= t.len(),
        (if e < t.len() { e + 1 } else { e }) <= iter.at() <= n <= t.len(),
    ensures iter.at() == n
    decreases t.len() - iter.at()
@@ fn tokenizer::tokenize loop 6 start
    proof { lemma_scan_on(t, e + 1, iter.at(), Class::Blanks); lemma_scan(t, iter.at() + 1, Class::Blanks); }
@@ fn tokenizer::tokenize loop 7 inv
    invariant (sviews(paragraphs@), paragraph@) == para_state(sviews($IT@).take($I as int)), sviews($IT@) == comment(t, k).lines
@@ fn tokenizer::tokenize loop 7 start
    let ghost ls = sviews($IT@);
    let ghost ps = paragraphs@;
    proof { assert(ls.take($I + 1).drop_last() =~= ls.take($I as int)); assert(ls.take($I + 1).last() == ls[$I as int]); }
@@ fn tokenizer::tokenize loop 7 end
    proof { if paragraphs@.len() > ps.len() { assert(sviews(paragraphs@) =~= sviews(ps).push(paragraphs@.last()@)); } }
@@ fn tokenizer::tokenize loop 7 post
    proof {
        assert(comment(t, k).lines.take(comment(t, k).lines.len() as int) =~= comment(t, k).lines);
        assert forall|v: String| v@ == paragraph@ implies sviews(#[trigger] paragraphs@.push(v)) == sviews(paragraphs@).push(paragraph@) by {
            assert(sviews(paragraphs@.push(v)) =~= sviews(paragraphs@).push(paragraph@));
        }
    }
@@ fn tokenizer::tokenize after tokens\.push
    proof { reveal(step); reveal(taken); assert(tokens@.drop_last() =~= had); assert(taken(t, k, had, tokens@, was > 0, errors@.len() > 0, iter.at())); }
@@ fn tokenizer::tokenize after errors\.push
    proof { reveal(step); reveal(taken); assert(taken(t, k, had, tokens@, was > 0, errors@.len() > 0, iter.at())); }
