@# identifier.rs (C14)
@@ include common.vspec
@@ include text.vspec
@@ raw
pub mod words {
use vstd::prelude::*;
use crate::text::*;
pub open spec fn separator(c: char) -> bool { c == '_' || c == '-' }
// THE WORDS OF A NAME: separators end a word and belong to none; an upper-case letter starts a word.
pub open spec fn flush(d: Seq<Seq<char>>, w: Seq<char>) -> Seq<Seq<char>> { if w.len() == 0 { d } else { d.push(w) } }
pub open spec fn word_state(s: Seq<char>) -> (Seq<Seq<char>>, Seq<char>) decreases s.len() {
    if s.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (d, w) = word_state(s.drop_last());
        let c = s.last();
        if separator(c) { (flush(d, w), Seq::empty()) }
        else if is_upper(c) { (flush(d, w), seq![c]) }
        else { (d, w.push(c)) }
    }
}
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>> { let (d, w) = word_state(s); flush(d, w) }
pub open spec fn folded(ws: Seq<Seq<char>>) -> Seq<Seq<char>> { ws.map_values(|w: Seq<char>| lower(w)) }
pub open spec fn underscore() -> Seq<char> { seq!['_'] }
pub open spec fn snake(s: Seq<char>) -> Seq<char> { joined(folded(words(s)), underscore()) }
pub open spec fn capital(w: Seq<char>) -> Seq<char> { if w.len() == 0 { w } else { upper(w[0]) + lower(w.skip(1)) } }
pub open spec fn capitals(ws: Seq<Seq<char>>) -> Seq<char> { concat(ws.map_values(|w: Seq<char>| capital(w))) }
pub open spec fn pascal(s: Seq<char>) -> Seq<char> { capitals(words(s)) }
pub open spec fn camel(s: Seq<char>) -> Seq<char> {
    if words(s).len() == 0 { Seq::empty() } else { lower(words(s)[0]) + capitals(words(s).skip(1)) }
}
// ---- how the code finds them ---------------------------------------------------------------
pub open spec fn snaked(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else {
        let p = snaked(s.drop_last());
        if is_upper(s.last()) { p.push('_').push(s.last()) } else { p.push(s.last()) }
    }
}
pub open spec fn kept(ps: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { ps } else { flush(kept(ps.drop_last()), ps.last()) }
}
pub open spec fn kept2(ps: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { ps } else { kept2(ps.drop_last()) + kept(pieces(ps.last(), '-')) }
}
// word_state without the upper-case rule
pub open spec fn plain_state(s: Seq<char>) -> (Seq<Seq<char>>, Seq<char>) decreases s.len() {
    if s.len() == 0 { (Seq::empty(), Seq::empty()) } else {
        let (d, w) = plain_state(s.drop_last());
        if separator(s.last()) { (flush(d, w), Seq::empty()) } else { (d, w.push(s.last())) }
    }
}
proof fn lemma_snaked(s: Seq<char>)
    ensures plain_state(snaked(s)) == word_state(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_snaked(s.drop_last());
        let p = snaked(s.drop_last());
        let c = s.last();
        if is_upper(c) {
            let q = p.push('_').push(c);
            assert(q.drop_last() =~= p.push('_')); assert(p.push('_').drop_last() =~= p);
            assert(plain_state(p.push('_')) == (flush(plain_state(p).0, plain_state(p).1), Seq::<char>::empty()));
            assert(Seq::<char>::empty().push(c) =~= seq![c]);
        } else {
            assert(p.push(c).drop_last() =~= p);
        }
    }
}
proof fn lemma_kept_plus(a: Seq<Seq<char>>, w: Seq<char>) ensures kept(a.push(w)) == flush(kept(a), w)
{ assert(a.push(w).drop_last() =~= a); }
// the pieces between dashes of a piece without underscores
proof fn lemma_dashes(cur: Seq<char>)
    requires !cur.contains('_')
    ensures kept(split_state(cur, '-').0) == plain_state(cur).0, split_state(cur, '-').1 == plain_state(cur).1
    decreases cur.len()
{
    if cur.len() > 0 {
        assert forall|i: int| 0 <= i < cur.drop_last().len() implies cur.drop_last()[i] != '_' by { assert(cur.contains(cur[i])); }
        lemma_dashes(cur.drop_last());
        assert(cur.contains(cur.last()));
        let (d, w) = split_state(cur.drop_last(), '-');
        lemma_kept_plus(d, w);
    } else { assert(kept(Seq::empty()) =~= Seq::empty()); }
}
proof fn lemma_split(s: Seq<char>)
    ensures ({
        let (d, cur) = split_state(s, '_');
        &&& !cur.contains('_')
        &&& kept2(d) + plain_state(cur).0 == plain_state(s).0
        &&& plain_state(cur).1 == plain_state(s).1
    })
    decreases s.len()
{
    if s.len() > 0 {
        lemma_split(s.drop_last());
        let (d, cur) = split_state(s.drop_last(), '_');
        let c = s.last();
        if c == '_' {
            assert(d.push(cur).drop_last() =~= d);
            lemma_dashes(cur);
            let sp = split_state(cur, '-');
            lemma_kept_plus(sp.0, sp.1);
            let e = Seq::<char>::empty();
            assert(plain_state(e) == (Seq::<Seq<char>>::empty(), e));
            assert(kept2(d.push(cur)) == kept2(d) + flush(plain_state(cur).0, plain_state(cur).1));
            assert(kept2(d.push(cur)) + Seq::<Seq<char>>::empty() =~= flush(plain_state(s.drop_last()).0, plain_state(s.drop_last()).1));
        } else {
            let n = cur.push(c);
            assert(n.drop_last() =~= cur);
            assert forall|i: int| 0 <= i < n.len() implies n[i] != '_' by { if i < cur.len() { assert(cur.contains(cur[i])); } }
            if c == '-' {
                assert(kept2(d) + flush(plain_state(cur).0, plain_state(cur).1) =~= flush(kept2(d) + plain_state(cur).0, plain_state(cur).1));
            }
        }
    } else { assert(kept2(Seq::empty()) + Seq::<Seq<char>>::empty() =~= Seq::empty()); }
}
pub proof fn lemma_words(s: Seq<char>)
    ensures kept2(pieces(snaked(s), '_')) == words(s)
{
    let t = snaked(s);
    lemma_snaked(s);
    lemma_split(t);
    let (d, cur) = split_state(t, '_');
    assert(d.push(cur).drop_last() =~= d);
    lemma_dashes(cur);
    let sp = split_state(cur, '-');
    lemma_kept_plus(sp.0, sp.1);
    assert(kept2(d) + flush(plain_state(cur).0, plain_state(cur).1) =~= flush(kept2(d) + plain_state(cur).0, plain_state(cur).1));
}
// every word is non-empty and has no separator in it
pub open spec fn wordy(w: Seq<char>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> !separator(#[trigger] w[i]) }
proof fn lemma_word_state(s: Seq<char>)
    ensures forall|i: int| 0 <= i < word_state(s).0.len() ==> wordy(#[trigger] word_state(s).0[i]),
        word_state(s).1.len() == 0 || wordy(word_state(s).1)
    decreases s.len()
{ if s.len() > 0 { lemma_word_state(s.drop_last()); } }
pub proof fn lemma_wordy(s: Seq<char>)
    ensures forall|i: int| 0 <= i < words(s).len() ==> wordy(#[trigger] words(s)[i])
{ lemma_word_state(s); }
// ---- equal snake case = same words up to letter case ----------------------------------------
// Assumed of Unicode (checked for every character and by the search): lower-casing a text without
// separators yields a text without separators, and a non-empty one a non-empty one.
pub broadcast axiom fn axiom_lower(w: Seq<char>)
    ensures wordy(w) ==> wordy(#[trigger] lower(w));
pub open spec fn same_words(a: Seq<char>, b: Seq<char>) -> bool { folded(words(a)) == folded(words(b)) }
proof fn lemma_last_underscore(p: Seq<char>, w: Seq<char>, q: Seq<char>, v: Seq<char>)
    requires p + underscore() + w == q + underscore() + v, wordy(w), wordy(v)
    ensures p == q, w == v
{
    let x = p + underscore() + w;
    let y = q + underscore() + v;
    assert(x == y); assert(x.len() == p.len() + 1 + w.len()); assert(y.len() == q.len() + 1 + v.len());
    assert forall|i: int| 0 <= i < w.len() implies x[p.len() + 1 + i] == w[i] by { }
    assert forall|i: int| 0 <= i < v.len() implies y[q.len() + 1 + i] == v[i] by { }
    if w.len() < v.len() {
        assert(x[p.len() as int] == '_'); assert(y[p.len() as int] == v[p.len() - q.len() - 1]);
        assert(separator(v[p.len() - q.len() - 1]));
    }
    if w.len() > v.len() {
        assert(y[q.len() as int] == '_'); assert(x[q.len() as int] == w[q.len() - p.len() - 1]);
        assert(separator(w[q.len() - p.len() - 1]));
    }
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { assert(x[i] == y[i]); }
    assert(p =~= q);
    assert forall|i: int| 0 <= i < w.len() implies w[i] == v[i] by { assert(x[p.len() + 1 + i] == y[p.len() + 1 + i]); }
    assert(w =~= v);
}
pub open spec fn all_wordy(a: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < a.len() ==> wordy(#[trigger] a[i]) }
proof fn lemma_joined_len(a: Seq<Seq<char>>)
    requires all_wordy(a), a.len() >= 2
    ensures joined(a, underscore()).contains('_')
{
    let p = joined(a.drop_last(), underscore());
    assert((p + underscore() + a.last())[p.len() as int] == '_');
}
pub proof fn lemma_joined(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires all_wordy(a), all_wordy(b), joined(a, underscore()) == joined(b, underscore())
    ensures a == b
    decreases a.len()
{
    let j = joined(a, underscore());
    if a.len() == 0 || b.len() == 0 {
        if a.len() == 1 { assert(wordy(a[0])); }
        if b.len() == 1 { assert(wordy(b[0])); }
        assert(a.len() == 0 && b.len() == 0);
        assert(a =~= b);
    } else if a.len() == 1 {
        assert(wordy(a[0]));
        if b.len() >= 2 { lemma_joined_len(b); let i = choose|i: int| 0 <= i < j.len() && j[i] == '_'; assert(separator(a[0][i])); }
        assert(a =~= b);
    } else if b.len() == 1 {
        assert(wordy(b[0]));
        lemma_joined_len(a); let i = choose|i: int| 0 <= i < j.len() && j[i] == '_'; assert(separator(b[0][i]));
    } else {
        assert(wordy(a[a.len() - 1])); assert(wordy(b[b.len() - 1]));
        lemma_last_underscore(joined(a.drop_last(), underscore()), a.last(), joined(b.drop_last(), underscore()), b.last());
        assert forall|i: int| 0 <= i < a.drop_last().len() implies wordy(#[trigger] a.drop_last()[i]) by { assert(wordy(a[i])); }
        assert forall|i: int| 0 <= i < b.drop_last().len() implies wordy(#[trigger] b.drop_last()[i]) by { assert(wordy(b[i])); }
        lemma_joined(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
    }
}
pub proof fn lemma_same(a: Seq<char>, b: Seq<char>)
    ensures (snake(a) == snake(b)) == same_words(a, b)
{
    broadcast use axiom_lower;
    lemma_wordy(a); lemma_wordy(b);
    if snake(a) == snake(b) { lemma_joined(folded(words(a)), folded(words(b))); }
}
// equality, order and hash agree, and the order is a total order of the word lists
pub proof fn lemma_laws(a: Seq<char>, b: Seq<char>)
    ensures (order(snake(a), snake(b)) == core::cmp::Ordering::Equal) == same_words(a, b),
        order(snake(a), snake(b)) == core::cmp::Ordering::Less <==> order(snake(b), snake(a)) == core::cmp::Ordering::Greater,
        same_words(a, b) ==> forall|h: int| fed(h, snake(a)) == fed(h, snake(b)),
{
    broadcast use axiom_before;
    lemma_same(a, b);
}
pub proof fn lemma_capitals(v: Seq<Seq<char>>, i: int)
    requires 0 <= i < v.len()
    ensures capitals(v.take(i + 1)) == capitals(v.take(i)) + capital(v[i])
{
    let f = |w: Seq<char>| capital(w);
    assert(v.take(i + 1).map_values(f).drop_last() =~= v.take(i).map_values(f));
    assert(v.take(i + 1).map_values(f).last() == capital(v[i]));
}
pub proof fn lemma_folded(v: Seq<Seq<char>>, i: int)
    requires 0 <= i < v.len()
    ensures folded(v).take(i + 1) == folded(v).take(i).push(lower(v[i])), folded(v).take(folded(v).len() as int) == folded(v)
{ assert(folded(v).take(i + 1) =~= folded(v).take(i).push(lower(v[i]))); assert(folded(v).take(folded(v).len() as int) =~= folded(v)); }
pub proof fn lemma_push_view(v: Seq<String>, x: String)
    ensures sviews(v.push(x)) == sviews(v).push(x@)
{ assert(sviews(v.push(x)) =~= sviews(v).push(x@)); }
pub proof fn lemma_views_prefix(v: Seq<&str>, i: int)
    requires 0 <= i < v.len()
    ensures views(v).take(i + 1).drop_last() == views(v).take(i), views(v).take(i + 1).last() == v[i]@
{ assert(views(v).take(i + 1).drop_last() =~= views(v).take(i)); }
}
@@ fmt string
@@ methods
    join/1 ==> crate::textfn::join(&$R, $1)
@@ subst
    \.to_lowercase\(\) ==> .lower_()
    \.is_uppercase\(\) ==> .is_upper_()
    \.is_ascii_uppercase\(\) ==> .is_ascii_upper_()
    \.to_ascii_lowercase\(\) ==> .ascii_lower_()
    \.to_uppercase\(\)\s*\.collect::<String>\(\) ==> .upper_()
    \b(\w+)\.chars\(\) ==> \1.chars_()
    \.to_owned\(\) ==> .owned_()
    \bword\.is_empty\(\) ==> word.is_empty_()
    \bself\.(original|snake_case) (==|!=) other\.(original|snake_case) ==> self.\1.eq_(&other.\3) \2 true
@@ module identifier src/identifier.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::*;
use crate::words::*;
use core::cmp::Ordering;
broadcast use crate::words::axiom_lower;
@@ take Identifier
@@ raw
impl Identifier {
    // what every identifier satisfies: the folded form is the snake case of the original
    pub open spec fn wf(&self) -> bool { self.snake_case@ == snake(self.original@) }
}
@@ take inherent:PartialEqforIdentifier=Identifier:eq inherent:PartialOrdforIdentifier=Identifier:partial_cmp inherent:OrdforIdentifier=Identifier:cmp inherent:HashforIdentifier=Identifier:hash inherent:From<&str>forIdentifier=Identifier:from
@@ take impl:Identifier:* split_words
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ fn identifier::PartialEqforIdentifier::eq ret r
    requires self.wf(), other.wf()
    ensures r == same_words(self.original@, other.original@), r == (order(snake(self.original@), snake(other.original@)) == Ordering::Equal)
@@ fn identifier::PartialEqforIdentifier::eq entry
    proof { lemma_same(self.original@, other.original@); lemma_laws(self.original@, other.original@); }
@@ fn identifier::OrdforIdentifier::cmp ret r
    requires self.wf(), other.wf()
    ensures r == order(snake(self.original@), snake(other.original@)), (r == Ordering::Equal) == same_words(self.original@, other.original@)
@@ fn identifier::OrdforIdentifier::cmp entry
    proof { lemma_laws(self.original@, other.original@); }
@@ fn identifier::PartialOrdforIdentifier::partial_cmp ret r
    requires self.wf(), other.wf()
    ensures r == Some(order(snake(self.original@), snake(other.original@)))
@@ fn identifier::HashforIdentifier::hash
    requires self.wf()
    ensures final(state)@ == fed(old(state)@, snake(self.original@))
@@ fn identifier::HashforIdentifier::hash sig
    <H: Hasher> ==> 
    &mut H ==> &mut HState
@@ fn identifier::HashforIdentifier::hash subst
    \bself\.(\w+)\.hash\(state\) ==> feed(state, &self.\1)
@@ fn identifier::OrdforIdentifier::cmp subst
    \bself\.(\w+)\.cmp\(&other\.(\w+)\) ==> str_cmp(&self.\1, &other.\2)
@@ fn identifier::From<&str>forIdentifier::from ret r
    ensures r.wf(), r.original@ == string@
@@ fn identifier::Identifier::join ret r
    ensures r.wf(), r.original@ == self.original@ + underscore() + other.original@
@@ fn identifier::Identifier::join entry

    proof { reveal_strlit("_"); assert("_"@ =~= underscore()); }
@@ fn identifier::Identifier::join subst
    AsRef::<str>::as_ref\((.*)\)\s*\.into\(\) ==> Identifier::from(as_str_(\1))
@@ fn identifier::split_words ret r
    ensures sviews(r@) == words(name@)
@@ fn identifier::split_words loop 0 inv
    invariant snaked@ == crate::words::snaked(name@.take($I as int)), $IT@ == name@
@@ fn identifier::split_words loop 0 end
    proof {
        let i = $I as int;
        assert(name@.take(i + 1).drop_last() =~= name@.take(i)); assert(name@.take(i + 1).last() == c);
    }
@@ fn identifier::split_words loop 0 post
    proof { assert(name@.take(name@.len() as int) =~= name@); lemma_words(name@); }
@@ fn identifier::split_words loop chain0 inv
    invariant views($IT@) == pieces(snaked@, '_'), sviews($OUT@) == kept2(views($IT@).take($I as int))
@@ fn identifier::split_words loop chain0 pre
    proof { assert(views(itC0_0@).take(0) =~= Seq::empty()); assert(sviews($OUT@) =~= Seq::empty()); }
@@ fn identifier::split_words loop chain0 start
    let ghost got = $OUT@;
    proof { lemma_views_prefix($IT@, $I as int); }
@@ fn identifier::split_words loop chain0 post
    proof { assert(views($IT@).take($IT@.len() as int) =~= views($IT@)); }
@@ fn identifier::split_words loop chain0.1 inv
    invariant views($IT@) == pieces(word@, '-'), sviews($OUT@) == sviews(got) + kept(views($IT@).take($I as int))
@@ fn identifier::split_words loop chain0.1 pre
    proof { assert(views($IT@).take(0) =~= Seq::empty()); assert(sviews(got) + kept(views($IT@).take(0)) =~= sviews(got)); }
@@ fn identifier::split_words loop chain0.1 start
    let ghost got2 = $OUT@;
    proof { lemma_views_prefix($IT@, $I as int); }
@@ fn identifier::split_words loop chain0.1 end
    proof {
        let k = kept(views($IT@).take($I as int));
        if $IT@[$I as int]@.len() > 0 { assert(sviews($OUT@) =~= sviews(got2).push($IT@[$I as int]@)); assert(sviews(got) + k.push($IT@[$I as int]@) =~= (sviews(got) + k).push($IT@[$I as int]@)); }
    }
@@ fn identifier::split_words loop chain0.1 post
    proof { assert(views($IT@).take($IT@.len() as int) =~= views($IT@)); }
@@ fn identifier::From<&str>forIdentifier::from loop chain0 inv
    invariant sviews($OUT@) == folded(sviews($IT@)).take($I as int)
@@ fn identifier::From<&str>forIdentifier::from loop chain0 end
    proof { lemma_folded(sviews($IT@), $I as int); lemma_push_view(got, $OUT@.last()); assert($OUT@ =~= got.push($OUT@.last())); }
@@ fn identifier::From<&str>forIdentifier::from loop chain0 start
    let ghost got = $OUT@;
@@ fn identifier::From<&str>forIdentifier::from loop chain0 post
    proof { assert(folded(sviews($IT@)).take($IT@.len() as int) =~= folded(sviews($IT@))); reveal_strlit("_"); assert("_"@ =~= underscore()); }
@@ fn identifier::Identifier::original ret r
    ensures r@ == self.original@
@@ fn identifier::Identifier::snake_case ret r
    requires self.wf()
    ensures r@ == snake(self.original@)
@@ fn identifier::Identifier::camel_case ret r
    ensures r@ == camel(self.original@)
@@ fn identifier::Identifier::pascal_case ret r
    ensures r@ == pascal(self.original@)
@@ fn identifier::Identifier::pascal_case loop chain0 inv
    invariant $OUT@ == capitals(sviews($IT@).take($I as int))
@@ fn identifier::Identifier::pascal_case loop chain0 end
    proof { lemma_capitals(sviews($IT@), $I as int); }
@@ fn identifier::Identifier::pascal_case loop chain0 post
    proof { assert(sviews($IT@).take($IT@.len() as int) =~= sviews($IT@)); }
@@ fn identifier::Identifier::camel_case subst
    \bwords\.iter\(\) ==> crate::shim::cursor(&words)
@@ fn identifier::Identifier::camel_case loop chain0 inv
    invariant $IT.wf(), $IT.s == words, sviews(words@) == crate::words::words(self.original@), 1 <= $IT.pos,
        $OUT@ == capitals(sviews(words@).skip(1).take($IT.pos - 1))
    ensures $IT.pos == words@.len(), $OUT@ == capitals(sviews(words@).skip(1).take($IT.pos - 1))
    decreases words@.len() - $IT.pos
@@ fn identifier::Identifier::camel_case loop chain0 end
    proof { lemma_capitals(sviews(words@).skip(1), $IT.pos - 2); }
@@ fn identifier::Identifier::camel_case loop chain0 post
    proof { assert(sviews(words@).skip(1).take($IT.pos - 1) =~= sviews(words@).skip(1)); }
