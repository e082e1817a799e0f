// Inline elements: the current line as a lexer, and the queue of events.
@include str.vc
@include lex.vc stub nouse
@include attr.vc stub nouse
@file src/inline.rs
@raw
global size_of usize == 8;
mod lex { pub(crate) use super::{Token, Kind, Delimiter, Symbol, Sequence, Lexer}; }
use std::collections::VecDeque;
mod attr {
    pub(crate) use super::{Attributes, Validator};
    pub(crate) use super::AttrParser as Parser;
}
@end
@item use Atom::*
@item use Container::*
@item use ControlFlow::*
@item enum QuoteType
@item enum Atom derive -
@item type CowStrIndex
@item enum Container derive Clone,Copy
@item type AttributesIndex
@item enum EventKind derive -
@item struct Event derive -
@item struct Input derive -
@item struct VerbatimState derive -
@item enum AttributesElementType derive -
@item struct AttributesState derive -
@item enum Directionality
@item enum SpanType
@item enum Opener
@item enum DelimEventKind derive -
@item struct Parser derive -
@item enum ControlFlow derive -
@raw
pub assume_specification<Idx: Clone>[ <core::ops::Range<Idx> as Clone>::clone ](r: &core::ops::Range<Idx>) -> (s: core::ops::Range<Idx>) ensures s == *r;
type Sp = core::ops::Range<usize>;
/// The first elements of a queue and the like (std::collections::VecDeque, by its contract in vstd).
trait VDq<T> {
    spec fn dq(&self) -> vstd::seq::Seq<T>;
    fn v_front(&self) -> (r: Option<&T>) ensures r == (if self.dq().len() > 0 { Some(&self.dq()[0]) } else { None });
    fn v_back(&self) -> (r: Option<&T>) ensures r == (if self.dq().len() > 0 { Some(&self.dq().last()) } else { None });
    fn v_get(&self, i: usize) -> (r: Option<&T>) ensures r == (if i < self.dq().len() { Some(&self.dq()[i as int]) } else { None });
    fn v_drain(&mut self, r: core::ops::RangeFrom<usize>) requires r.start <= old(self).dq().len() ensures final(self).dq() == old(self).dq().subrange(0, r.start as int);
}
impl<T> VDq<T> for VecDeque<T> {
    spec fn dq(&self) -> vstd::seq::Seq<T> { self@ }
    fn v_front(&self) -> Option<&T> { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn v_back(&self) -> Option<&T> { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn v_get(&self, i: usize) -> Option<&T> { if i < self.len() { Some(&self[i]) } else { None } }
    fn v_drain(&mut self, r: core::ops::RangeFrom<usize>) { self.truncate(r.start); }
}
impl<T> VDq<T> for Vec<T> {
    spec fn dq(&self) -> vstd::seq::Seq<T> { self@ }
    fn v_front(&self) -> Option<&T> { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn v_back(&self) -> Option<&T> { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn v_get(&self, i: usize) -> Option<&T> { if i < self.len() { Some(&self[i]) } else { None } }
    fn v_drain(&mut self, r: core::ops::RangeFrom<usize>) { self.truncate(r.start); }
}
impl<T> VDq<T> for [T] {
    spec fn dq(&self) -> vstd::seq::Seq<T> { self@ }
    fn v_front(&self) -> Option<&T> { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn v_back(&self) -> Option<&T> { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn v_get(&self, i: usize) -> Option<&T> { if i < self.len() { Some(&self[i]) } else { None } }
    #[verifier::external_body] fn v_drain(&mut self, r: core::ops::RangeFrom<usize>) { unimplemented!() }
}
/// A queue of elements of more than no size.
#[verifier::external_body]
proof fn axiom_dq_len<T>(q: VecDeque<T>) ensures q@.len() < 0x7fff_ffff_ffff_ffff {}
trait VOr { spec fn or_(self, d: Self) -> Self; fn v_or(self, d: Self) -> (r: Self) ensures r == self.or_(d); }
impl<T> VOr for Option<T> { spec fn or_(self, d: Self) -> Self { match self { Some(x) => Some(x), None => d } } fn v_or(self, d: Self) -> Self { match self { Some(x) => Some(x), None => d } } }
#[verifier::external_body]
fn v_any_spec<'s>() -> CowStr<'s> { unimplemented!() }
trait VEmpty { spec fn empty(&self) -> bool; fn v_is_empty(&self) -> (r: bool) ensures r == self.empty(); }
impl<T> VEmpty for VecDeque<T> { spec fn empty(&self) -> bool { self@.len() == 0 } fn v_is_empty(&self) -> bool { self.len() == 0 } }
impl<T> VEmpty for [T] { spec fn empty(&self) -> bool { self@.len() == 0 } fn v_is_empty(&self) -> bool { self.len() == 0 } }
impl VEmpty for Sp { spec fn empty(&self) -> bool { self.start >= self.end } fn v_is_empty(&self) -> bool { self.start >= self.end } }
trait VRange { spec fn rg(&self) -> (usize, usize); fn v_len(&self) -> (r: usize) ensures self.rg().0 <= self.rg().1 ==> r == self.rg().1 - self.rg().0; }
impl VRange for Sp { spec fn rg(&self) -> (usize, usize) { (self.start, self.end) } fn v_len(&self) -> usize { if self.start < self.end { self.end - self.start } else { 0 } } }
trait VDLen { spec fn dl(&self) -> int; fn v_len(&self) -> (r: usize) ensures r == self.dl(); }
impl<T> VDLen for VecDeque<T> { spec fn dl(&self) -> int { self@.len() as int } fn v_len(&self) -> usize { self.len() } }
/// `&s[range]`, `&s.as_bytes()[range]`
fn v_sub<'a>(s: &'a str, r: Sp) -> (t: &'a str)
    requires r.start <= r.end, bnd(sb(s), r.start as int), bnd(sb(s), r.end as int)
    ensures sb(t) == sb(s).subrange(r.start as int, r.end as int)
{ s.v_slice(r.start, r.end) }
fn v_bsub<'a>(s: &'a str, r: Sp) -> (t: &'a [u8])
    requires r.start <= r.end <= sb(s).len()
    ensures t@ == sb(s).subrange(r.start as int, r.end as int)
{ vstd::slice::slice_subrange(s.as_bytes(), r.start, r.end) }

// ---- the input: the current line as far as it has been read
spec fn rng_ok(b: Bs, r: Sp) -> bool { r.start <= r.end <= b.len() && bnd(b, r.start as int) && bnd(b, r.end as int) }
impl<'s> Input<'s> {
    spec fn b(&self) -> Bs { sb(self.src) }
    /// The bytes that the lexer has not handed out yet.
    spec fn rest(&self) -> Bs { self.lexer.src@.subrange(self.lexer.given(), self.lexer.src@.len() as int) }
    spec fn wf(&self) -> bool { self.wf_at(self.span.end as int) }
    /// Well-formed, with the rest of the line from `p` on.
    spec fn wf_at(&self, p: int) -> bool {
        &&& valid_utf8(self.b()) && self.b().len() < 0x7fff_ffff
        &&& self.lexer.wf()
        &&& rng_ok(self.b(), self.span_line) && rng_ok(self.b(), self.span)
        &&& forall|i: int| 0 <= i < self.ahead@.len() ==> rng_ok(self.b(), #[trigger] self.ahead@[i])
        &&& forall|i: int| 0 <= i < self.lines@.len() ==> rng_ok(self.b(), #[trigger] self.lines@[i])
        // what is left of the line follows the current span
        &&& self.rest().len() > 0 ==> self.span_line.start <= p <= self.span_line.end && bnd(self.b(), p)
            && self.rest() == self.b().subrange(p, self.span_line.end as int)
    }
    /// Nothing has been read ahead.
    spec fn clean(&self) -> bool { self.lexer.next is None && !self.lexer.escape }
    /// All but the position in the line.
    spec fn same_line(&self, o: &Self) -> bool {
        self.src == o.src && self.complete == o.complete && self.span_line == o.span_line && self.lines == o.lines && self.ahead == o.ahead
    }
}
/// A token at `i` as the first token of the text from `i` on.
proof fn lemma_tok_shift(s: Bs, i: int, t: Token)
    requires tok_ok(s, i, t)
    ensures tok_ok(s.subrange(i, s.len() as int), 0, t)
{
    let r = s.subrange(i, s.len() as int);
    assert forall|x: int| 0 <= x < r.len() implies #[trigger] r[x] == s[i + x] by {}
    match t.kind {
        Kind::Seq(q) => { assert forall|x: int| 0 <= x < t.len implies #[trigger] r[x] == seq_byte(q) by { assert(s[i + x] == seq_byte(q)); } }
        Kind::Hardbreak => { assert forall|x: int| 0 <= x < t.len - 1 implies #[trigger] r[x] == b' ' || r[x] == b'\t' by { let y = s[i + x]; } }
        _ => {}
    }
}
/// A token at the start of the rest of a line ends on a character boundary.
proof fn lemma_tok_end(b: Bs, p: int, e: int, t: Token)
    requires valid_utf8(b), bnd(b, p), bnd(b, e), p <= e, tok_ok(b.subrange(p, e), 0, t)
    ensures bnd(b, p + t.len), p + t.len <= e
{
    let r = b.subrange(p, e);
    let j = p + t.len;
    assert(r[t.len - 1] == b[j - 1]);
    if t.len < r.len() {
        assert(r[t.len as int] == b[j]);
        if b[j] < 128 { lemma_ascii_boundary(b, j); } else { lemma_ascii_boundary(b, j - 1); }
    }
}
proof fn lemma_empty_rest(l: lex::Lexer<'_>)
    requires l.wf(), l.given() == l.src@.len()
    ensures l.src@.subrange(l.given(), l.src@.len() as int).len() == 0
{}
@end
@fn Input::new
    ret r
    req
        sb(src).len() < 0x7fff_ffff,
    ens
        r.span.start == 0, r.span.end == 0, r.span_line.end == 0,
        r.wf(), r.src == src, r.rest().len() == 0, !r.complete, r.ahead@.len() == 0, r.lines@.len() == 0,
    at start
        proof { lemma_valid(src); }
@end
@fn Input::set_current_line
    req
        old(self).wf(), rng_ok(old(self).b(), line),
    ens
        final(self).wf(), final(self).src == old(self).src, final(self).complete == old(self).complete, final(self).ahead == old(self).ahead,
        final(self).span_line == line, final(self).span.start == line.start, final(self).span.end == line.start,
        final(self).lines@ == old(self).lines@.push(line),
        final(self).rest() == final(self).b().subrange(line.start as int, line.end as int),
        final(self).lexer.verbatim == old(self).lexer.verbatim, final(self).lexer.next is None,
    opt src_sub
    at end
        assert(self.lexer.src@.subrange(0, self.lexer.src@.len() as int) =~= self.lexer.src@);
@end
@fn Input::feed_line
    req
        old(self).wf(), rng_ok(old(self).b(), line), !old(self).complete,
    ens
        final(self).wf(), final(self).src == old(self).src, final(self).complete == last, final(self).lexer.verbatim == old(self).lexer.verbatim,
        // lines are taken in order
        old(self).rest().len() > 0 ==> final(self).ahead@ == old(self).ahead@.push(line) && final(self).rest() == old(self).rest()
            && final(self).lexer == old(self).lexer
            && final(self).span == old(self).span && final(self).span_line == old(self).span_line && final(self).lines == old(self).lines,
        old(self).rest().len() == 0 ==> old(self).ahead@.push(line) =~= seq![final(self).span_line] + final(self).ahead@
            && final(self).span.start == final(self).span_line.start && final(self).span.end == final(self).span_line.start
            && final(self).lines@ == old(self).lines@.push(final(self).span_line),
    opt m_is_empty
@end
@fn Input::reset
    req
        old(self).wf(),
    ens
        final(self).wf(), final(self).src == old(self).src, final(self).rest().len() == 0, !final(self).complete, final(self).ahead@.len() == 0,
        final(self).lines@.len() == 0, !final(self).lexer.verbatim,
        final(self).span == old(self).span, final(self).span_line == old(self).span_line,
@end
@fn Input::last
    ret r
    ens
        r == (self.complete && self.ahead@.len() == 0),
    opt m_is_empty
@end
@fn Input::eat
    ret r
    req
        old(self).wf(),
    ens
        final(self).wf(), final(self).same_line(old(self)), final(self).lexer.verbatim == old(self).lexer.verbatim,
        final(self).span.start == old(self).span.start,
        r is None ==> old(self).rest().len() == 0 && final(self).span == old(self).span && final(self).rest().len() == 0,
        r is Some ==> {
            &&& old(self).rest().len() >= r->0.len
            &&& final(self).span.end == old(self).span.end + r->0.len
            &&& final(self).rest() == old(self).rest().subrange(r->0.len as int, old(self).rest().len() as int)
            &&& tok_ok(old(self).rest(), 0, r->0)
            &&& r->0.kind != Kind::Text && r->0.kind != Kind::Escape ==> final(self).clean()
            &&& old(self).lexer.next is Some ==> r == old(self).lexer.next
            &&& old(self).clean() && brace_at(old(self).rest(), 0) ==> r->0 == Token { kind: Kind::Open(Delimiter::Brace), len: 1 }
        },
    at call next after
        proof {
            if tok is Some {
                lemma_tok_shift(old(self).lexer.src@, old(self).lexer.given(), tok->0);
                lemma_tok_end(self.b(), self.span.end as int, self.span_line.end as int, tok->0);
            }
        }
    at end
        assert(tok is Some ==> self.rest() =~= old(self).rest().subrange(tok->0.len as int, old(self).rest().len() as int));
        assert(self.rest().len() > 0 ==> self.rest() =~= self.b().subrange(self.span.end as int, self.span_line.end as int));
@end
@fn Input::peek
    ret r
    req
        old(self).wf(),
    ens
        final(self).wf(), final(self).same_line(old(self)), final(self).span == old(self).span, final(self).lexer.verbatim == old(self).lexer.verbatim,
        final(self).rest() == old(self).rest(),
        r is Some <==> final(self).lexer.next is Some, r is Some ==> *r->0 == final(self).lexer.next->0 && tok_ok(old(self).rest(), 0, *r->0),
        r is None ==> final(self).rest().len() == 0,
    at start
        proof {
            assert forall|t: Token| tok_ok(self.lexer.src@, self.lexer.given(), t) implies #[trigger] tok_ok(self.rest(), 0, t) by { lemma_tok_shift(self.lexer.src@, self.lexer.given(), t); }
        }
@end
@fn Input::reset_span
    req
        old(self).wf(),
    ens
        final(self).wf(), final(self).same_line(old(self)), final(self).lexer == old(self).lexer,
        final(self).span.start == old(self).span.end, final(self).span.end == old(self).span.end,
@end
@raw
// ---- runs of bytes inside the rest of the line
/// Length of the longest prefix of `r` from `i` on without white space, `stop` and `end`.
spec fn until(r: Bs, i: int, stop: u8, end: u8, nl: bool) -> int
    decreases r.len() - i
{
    if 0 <= i < r.len() && r[i] != stop && r[i] != end && !(if nl { r[i] == 10 } else { ascii_ws(r[i]) }) { until(r, i + 1, stop, end, nl) } else { i }
}
proof fn lemma_until(r: Bs, i: int, stop: u8, end: u8, nl: bool)
    requires 0 <= i <= r.len()
    ensures i <= until(r, i, stop, end, nl) <= r.len()
    decreases r.len() - i
{
    if i < r.len() && r[i] != stop && r[i] != end && !(if nl { r[i] == 10 } else { ascii_ws(r[i]) }) { lemma_until(r, i + 1, stop, end, nl); }
}
proof fn lemma_until_shift(r: Bs, i: int, stop: u8, end: u8, nl: bool)
    requires 0 <= i < r.len()
    ensures until(r.subrange(1, r.len() as int), i, stop, end, nl) + 1 == until(r, i + 1, stop, end, nl)
    decreases r.len() - i
{
    let s = r.subrange(1, r.len() as int);
    if i < s.len() { assert(s[i] == r[i + 1]); lemma_until_shift(r, i + 1, stop, end, nl); }
}
/// A position just before or after an ASCII byte of the rest of the line.
proof fn lemma_rest_bnd(b: Bs, p: int, e: int, k: int)
    requires valid_utf8(b), bnd(b, p), bnd(b, e), p <= e, 0 <= k < e - p, b.subrange(p, e)[k] < 128
    ensures bnd(b, p + k), bnd(b, p + k + 1), b.subrange(p, e).subrange(k + 1, e - p) == b.subrange(p + k + 1, e)
{
    assert(b.subrange(p, e).subrange(k + 1, e - p) =~= b.subrange(p + k + 1, e));
    assert(b.subrange(p, e)[k] == b[p + k]);
    lemma_ascii_boundary(b, p + k);
}
@end
@raw
/// `it.skip(n)`
fn v_skip<'a>(it: core::slice::Iter<'a, u8>, n: usize) -> (r: core::slice::Iter<'a, u8>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some
    ensures
        r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        r.remaining() == it.remaining().subrange(if n <= it.remaining().len() { n as int } else { it.remaining().len() as int }, it.remaining().len() as int),
{
    let mut r = it;
    let mut k: usize = 0;
    while k < n
        invariant_except_break
            k <= it.remaining().len(), r.remaining() =~= it.remaining().subrange(k as int, it.remaining().len() as int),
        invariant
            k <= n, r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        ensures
            r.remaining() =~= it.remaining().subrange(if n <= it.remaining().len() { n as int } else { it.remaining().len() as int }, it.remaining().len() as int),
        decreases n - k
    {
        if r.next().is_none() { break; }
        k += 1;
    }
    r
}
/// The format of raw inline content right after the closing backticks: `{=format}`.
spec fn raw_fmt(r: Bs) -> int { until(r, 2, b'{', b'}', false) - 2 }
spec fn is_raw_fmt(r: Bs) -> bool {
    r.len() > 2 && r[0] == b'{' && r[1] == b'=' && raw_fmt(r) > 0 && raw_fmt(r) + 2 < r.len() && r[raw_fmt(r) + 2] == b'}'
}
@end
@fn Input::ahead_raw_format
    ret r
    req
        old(self).wf(), old(self).clean(),
    ens
        final(self).same_line(old(self)), final(self).span.start == old(self).span.start,
        r is Some <==> is_raw_fmt(old(self).rest()),
        r is None ==> final(self).wf() && final(self).rest() == old(self).rest() && final(self).span == old(self).span && final(self).lexer.verbatim == old(self).lexer.verbatim,
        r is Some ==> {
            let n = raw_fmt(old(self).rest());
            &&& final(self).wf_at(old(self).span.end + n + 3)
            &&& r->0.start == old(self).span.end + 2 && r->0.end == r->0.start + n && rng_ok(final(self).b(), r->0)
            &&& final(self).rest() == old(self).rest().subrange(n + 3, old(self).rest().len() as int)
        },
    opt matches opt_map iter_count fn_skip
    loop 0
        invariant_except_break
            __n0 == it_pos(__it0, r) - 2, !end, until(r, 2, b'{', b'}', false) == until(r, __n0 + 2, b'{', b'}', false),
        invariant
            self.wf(), r == self.rest(), 2 <= r.len() <= 0x7fff_ffff, it_ok(__it0, r),
            0 <= __n0 <= r.len(), it_pos(__it0, r) >= 2,
        ensures
            __n0 == raw_fmt(r), __n0 + 2 <= r.len(), end <==> __n0 + 2 < r.len() && r[__n0 + 2] == b'}',
        decreases __it0.decrease()->0,
    at let len before
        let ghost r = self.rest();
    at let tok after
        assert(tok == Some(Token { kind: Kind::Open(Delimiter::BraceEqual), len: 2 }));
        let ghost q = self.rest();
        proof {
            assert(q == r.subrange(2, r.len() as int));
            lemma_rest_bnd(self.b(), old(self).span.end as int, self.span_line.end as int, len + 2);
            assert(q.subrange(len + 1, q.len() as int) =~= r.subrange(len + 3, r.len() as int));
        }
    at call skip_ahead after
        assert(self.rest() =~= q.subrange(len + 1, q.len() as int));
@end
@raw
impl<'s> Parser<'s> {
    spec fn b(&self) -> Bs { sb(self.input.src) }
    spec fn len_ev(&self) -> int { self.events@.len() as int }
}
/// Everything but the events and the position in the line.
spec fn same_rest(a: Parser<'_>, b: Parser<'_>) -> bool {
    b.openers == a.openers && b.verbatim == a.verbatim && b.attributes == a.attributes
        && b.store_cowstrs == a.store_cowstrs && b.store_attributes == a.store_attributes && b.input.same_line(&a.input)
        && (a.input.lexer.verbatim || !b.input.lexer.verbatim)
}
/// The events that have been added.
spec fn added<'s>(a: Parser<'s>, b: Parser<'s>) -> vstd::seq::Seq<Event<'s>> { b.events@.subrange(a.len_ev(), b.len_ev()) }
spec fn only_adds(a: Parser<'_>, b: Parser<'_>) -> bool {
    same_rest(a, b) && a.len_ev() <= b.len_ev() && forall|i: int| 0 <= i < a.len_ev() ==> #[trigger] b.events@[i] == a.events@[i]
}
spec fn sp(e: Event<'_>, i: int, j: int) -> bool { e.span.start == i && e.span.end == j }
/// `first` has just been read.
spec fn just_read(p: Parser<'_>, first: Token) -> bool {
    &&& p.input.wf() && tok_ok(p.b().subrange(p.input.span.start as int, p.input.span_line.end as int), 0, first) && p.input.span.end <= p.input.span_line.end
    &&& p.input.span.end == p.input.span.start + first.len
    &&& first.kind != Kind::Text && first.kind != Kind::Escape ==> p.input.clean()
    &&& p.input.lines@.len() > 0
}
@end
@fn Parser::push_sp
    ens
        only_adds(*old(self), *final(self)), final(self).input == old(self).input,
        final(self).events@ == old(self).events@.push(Event { kind, span }),
@end
@fn Parser::push
    ret r
    ens
        r is Continue, only_adds(*old(self), *final(self)), final(self).input == old(self).input,
        final(self).events@ == old(self).events@.push(Event { kind, span: old(self).input.span }),
@end
@raw
/// What follows `<` in an autolink: a run without white space and angle brackets, with a colon or an at sign, up to `>`.
spec fn link_len(r: Bs) -> int { until(r, 0, b'<', b'>', false) }
spec fn is_autolink(r: Bs) -> bool {
    link_len(r) < r.len() && r[link_len(r)] == b'>' && exists|x: int| 0 <= x < link_len(r) && (#[trigger] r[x] == b':' || r[x] == b'@')
}
@end
@fn Parser::parse_autolink
    ret r
    req
        just_read(*old(self), *first),
    ens
        r matches Some(c) ==> c is Continue,
        // the sequence of events goes on
        fit(*old(self)) && r is Some ==> keeps(*old(self), *final(self)) && in_order(*final(self)),
        final(self).input.wf(), only_adds(*old(self), *final(self)),
        r is Some <==> first.kind == Kind::Sym(Symbol::Lt) && is_autolink(old(self).input.rest()),
        r is None ==> *final(self) == *old(self),
        r is Some ==> {
            let e = added(*old(self), *final(self));
            let i = old(self).input.span.end as int;
            let n = link_len(old(self).input.rest());
            &&& e.len() == 3 && sp(e[0], i - 1, i) && sp(e[1], i, i + n) && sp(e[2], i + n, i + n + 1)
            &&& e[0].kind matches EventKind::Enter(Container::Autolink(u)) && sb(u) == old(self).b().subrange(i, i + n) && e[1].kind is Str
                && e[2].kind == EventKind::Exit(Container::Autolink(u))
            &&& final(self).input.span.end == i + n + 1 && final(self).input.rest() == old(self).input.rest().subrange(n + 1, old(self).input.rest().len() as int)
        },
    opt matches iter_count src_sub
    loop 0
        invariant_except_break
            __n0 == it_pos(__it0, r), !end, until(r, 0, b'<', b'>', false) == until(r, __n0 as int, b'<', b'>', false),
        invariant
            self.input.wf(), r == self.input.rest(), r.len() <= 0x7fff_ffff, it_ok(__it0, r), 0 <= __n0 <= r.len(),
            is_url <==> exists|x: int| 0 <= x < __n0 && (#[trigger] r[x] == b':' || r[x] == b'@'),
        ensures
            __n0 == link_len(r), end <==> __n0 < r.len() && r[__n0 as int] == b'>',
        decreases __it0.decrease()->0,
    at let len before
        let ghost r = self.input.rest();
    at call skip_ahead before
        let ghost p = self.input.span.end as int;
        let ghost me = *self;
        proof { lemma_rest_bnd(self.b(), p, self.input.span_line.end as int, len as int); }
    at call skip_ahead after
        assert(self.input.rest() =~= r.subrange(len + 1, r.len() as int));
    at exit
        proof {
            if fit(*old(self)) && __rv is Some {
                let e = added(*old(self), *self);
                let i = old(self).input.span.end as int;
                lemma_ascii_boundary(self.b(), i + link_len(old(self).input.rest()));
                lemma_plain(seq![e[1]], no_st());
                lemma_wrap(e[0], seq![e[1]], e[2], e[0].kind->Enter_0);
                assert(e =~= seq![e[0]] + seq![e[1]] + seq![e[2]]);
                lemma_adds(*old(self), *self);
                assert(ord(self.b(), e, self.input.span.end as int)) by { reveal(ord); }
                lemma_adds_ord(self.b(), old(self).events@, self.events@, old(self).input.span.start as int, self.input.span.end as int);
                assert(self.events@.last() == e[2]);
            }
        }
@end
@raw
/// A symbol name: a run of letters, digits, `-`, `+` and `_` up to `:`.
spec fn sym_len(r: Bs, i: int) -> int
    decreases r.len() - i
{ if 0 <= i < r.len() && r[i] != b':' && !ascii_ws(r[i]) { sym_len(r, i + 1) } else { i } }
spec fn sym_char(c: u8) -> bool { ascii_alnum(c) || c == b'-' || c == b'+' || c == b'_' }
spec fn is_symbol(r: Bs) -> bool {
    sym_len(r, 0) < r.len() && r[sym_len(r, 0)] == b':' && forall|x: int| 0 <= x < sym_len(r, 0) ==> sym_char(#[trigger] r[x])
}
@end
@fn Parser::parse_symbol
    ret r
    req
        just_read(*old(self), *first),
    ens
        r matches Some(c) ==> c is Continue,
        // the sequence of events goes on
        fit(*old(self)) && r is Some ==> keeps(*old(self), *final(self)) && in_order(*final(self)),
        final(self).input.wf(), only_adds(*old(self), *final(self)),
        r is Some <==> first.kind == Kind::Sym(Symbol::Colon) && is_symbol(old(self).input.rest()),
        r is None ==> *final(self) == *old(self),
        r is Some ==> {
            let e = added(*old(self), *final(self));
            let i = old(self).input.span.end as int;
            let n = sym_len(old(self).input.rest(), 0);
            &&& e.len() == 1 && sp(e[0], old(self).input.span.start as int, i + n + 1)
            &&& e[0].kind matches EventKind::Atom(Atom::Symbol(u)) && sb(u) == old(self).b().subrange(i, i + n)
            &&& final(self).input.span.end == i + n + 1 && final(self).input.rest() == old(self).input.rest().subrange(n + 1, old(self).input.rest().len() as int)
        },
    opt matches iter_count src_sub
    loop 0
        invariant_except_break
            __n0 == it_pos(__it0, r), !end, sym_len(r, 0) == sym_len(r, __n0 as int),
            valid <==> forall|x: int| 0 <= x < __n0 ==> sym_char(#[trigger] r[x]),
        invariant
            self.input.wf(), r == self.input.rest(), r.len() <= 0x7fff_ffff, it_ok(__it0, r), 0 <= __n0 <= r.len(),
        ensures
            __n0 == sym_len(r, 0), end <==> __n0 < r.len() && r[__n0 as int] == b':',
            end ==> (valid <==> forall|x: int| 0 <= x < __n0 ==> sym_char(#[trigger] r[x])),
        decreases __it0.decrease()->0,
    at let len before
        let ghost r = self.input.rest();
    at call skip_ahead before
        let ghost p = self.input.span.end as int;
        proof { lemma_rest_bnd(self.b(), p, self.input.span_line.end as int, len as int); }
    at call skip_ahead after
        assert(self.input.rest() =~= r.subrange(len + 1, r.len() as int));
    at exit
        proof {
            if fit(*old(self)) && __rv is Some {
                let e = added(*old(self), *self);
                lemma_plain(e, no_st());
                lemma_adds(*old(self), *self);
                assert(ord(self.b(), e, self.input.span.end as int)) by { reveal(ord); }
                lemma_adds_ord(self.b(), old(self).events@, self.events@, old(self).input.span.start as int, self.input.span.end as int);
                assert(self.events@.last() == e[0]);
            }
        }
@end
@fn Parser::parse_footnote_reference
    ret r
    req
        just_read(*old(self), *first),
    ens
        first.kind != Kind::Open(Delimiter::Bracket) ==> *final(self) == *old(self),
        r matches Some(c) ==> c is Continue,
        // the sequence of events goes on
        fit(*old(self)) && r is Some ==> keeps(*old(self), *final(self)) && in_order(*final(self)),
        // a caret that is text
        fit(*old(self)) && r is None ==> keeps(*old(self), *final(self)) && fit(*final(self)) && tok_at(*final(self), *first),
        final(self).input.wf(), only_adds(*old(self), *final(self)),
        r is Some ==> first.kind == Kind::Open(Delimiter::Bracket),
        r is None ==> final(self).events == old(self).events && final(self).input.span.start == old(self).input.span.start
            && (final(self).input.span.end == old(self).input.span.end && final(self).input.rest() == old(self).input.rest()
                || first.kind == Kind::Open(Delimiter::Bracket) && final(self).input.span.end == old(self).input.span.end + 1
                    && final(self).b()[old(self).input.span.end as int] == b'^'),
        r is Some ==> {
            let e = added(*old(self), *final(self));
            let i = old(self).input.span.end as int;
            let n = until(old(self).input.rest(), 1, b'[', b']', true) - 1;
            &&& e.len() == 1 && sp(e[0], old(self).input.span.start as int, i + n + 2)
            &&& old(self).b()[i] == b'^' && old(self).b()[i + n + 1] == b']'
            &&& e[0].kind matches EventKind::Atom(Atom::FootnoteReference { label: u }) && sb(u) == old(self).b().subrange(i + 1, i + 1 + n)
            &&& final(self).input.span.end == i + n + 2 && final(self).input.rest() == old(self).input.rest().subrange(n + 2, old(self).input.rest().len() as int)
        },
    opt matches iter_count src_sub
    loop 0
        invariant_except_break
            __n0 == it_pos(__it0, r), !end, until(r, 0, b'[', b']', true) == until(r, __n0 as int, b'[', b']', true),
        invariant
            self.input.wf(), r == self.input.rest(), r.len() <= 0x7fff_ffff, it_ok(__it0, r), 0 <= __n0 <= r.len(),
        ensures
            __n0 == until(r, 0, b'[', b']', true), end <==> __n0 < r.len() && r[__n0 as int] == b']',
        decreases __it0.decrease()->0,
    at let len before
        let ghost r = self.input.rest();
    at call skip_ahead before
        let ghost p = self.input.span.end as int;
        proof { lemma_until_shift(old(self).input.rest(), 0, b'[', b']', true); }
        proof { lemma_rest_bnd(self.b(), p, self.input.span_line.end as int, len as int); }
    at call skip_ahead after
        assert(self.input.rest() =~= r.subrange(len + 1, r.len() as int));
    at exit
        proof {
            if fit(*old(self)) && __rv is Some {
                let e = added(*old(self), *self);
                lemma_plain(e, no_st());
                lemma_adds(*old(self), *self);
                assert(ord(self.b(), e, self.input.span.end as int)) by { reveal(ord); }
                lemma_adds_ord(self.b(), old(self).events@, self.events@, old(self).input.span.start as int, self.input.span.end as int);
                assert(self.events@.last() == e[0]);
            }
            if fit(*old(self)) && __rv is None { lemma_live(*self, st(*old(self))); }
        }
@end
@raw
/// The dashes that a run of `n` hyphens stands for: em dashes, en dashes.
spec fn dash_ok(n: int, m: int, k: int) -> bool {
    &&& 3 * m + 2 * k == n && m >= 0 && k >= 0
    &&& n % 3 == 0 ==> k == 0
    &&& n % 3 != 0 && n % 2 == 0 ==> m == 0
    &&& n % 3 != 0 && n % 2 != 0 ==> 1 <= k <= 2 && m >= 1
}
spec fn dash_pos(m: int, x: int) -> int { if x < m { 3 * x } else { 3 * m + 2 * (x - m) } }
/// `m` em dashes followed by `k` en dashes, one after the other from `i` on, as far as the first `c` of them.
spec fn dash_at(e: Event<'_>, m: int, i: int, x: int) -> bool {
    if x < m { e.kind == EventKind::Atom(Atom::EmDash) && sp(e, i + 3 * x, i + 3 * x + 3) }
    else { e.kind == EventKind::Atom(Atom::EnDash) && sp(e, i + 3 * m + 2 * (x - m), i + 3 * m + 2 * (x - m) + 2) }
}
spec fn dots_at(e: Event<'_>, i: int, x: int) -> bool { e.kind == EventKind::Atom(Atom::Ellipsis) && sp(e, i + 3 * x, i + 3 * x + 3) }
/// Atoms that a single token stands for.
spec fn single(k: Kind) -> Option<Atom<'static>> {
    match k {
        Kind::Newline => Some(Atom::Softbreak),
        Kind::Hardbreak => Some(Atom::Hardbreak),
        Kind::Escape => Some(Atom::Escape),
        Kind::Nbsp => Some(Atom::Nbsp),
        Kind::Open(Delimiter::BraceQuote1) => Some(Atom::Quote { ty: QuoteType::Single, left: true }),
        Kind::Sym(Symbol::Quote1) | Kind::Close(Delimiter::BraceQuote1) => Some(Atom::Quote { ty: QuoteType::Single, left: false }),
        Kind::Open(Delimiter::BraceQuote2) => Some(Atom::Quote { ty: QuoteType::Double, left: true }),
        Kind::Sym(Symbol::Quote2) | Kind::Close(Delimiter::BraceQuote2) => Some(Atom::Quote { ty: QuoteType::Double, left: false }),
        _ => None,
    }
}
@end
@fn Parser::parse_atom
    attr #[verifier::spinoff_prover]
    ret r
    req
        old(self).input.wf(), first.len >= 1,
        first.kind is Seq ==> old(self).input.span.end == old(self).input.span.start + first.len && old(self).input.clean()
            && forall|x: int| old(self).input.span.start <= x < old(self).input.span.end ==> #[trigger] old(self).b()[x] < 128,
    ens
        r matches Some(c) ==> c is Continue,
        // the sequence of events goes on
        fit(*old(self)) ==> keeps(*old(self), *final(self)),
        fit(*old(self)) && r is Some ==> in_order(*final(self)),
        fit(*old(self)) && r is None ==> fit(*final(self)) && (final(self).input.span == old(self).input.span || first.kind == Kind::Seq(Sequence::Period)),
        final(self).input.wf(), only_adds(*old(self), *final(self)),
        final(self).input.span.end == old(self).input.span.end, final(self).input.rest() == old(self).input.rest(),
        final(self).input.lexer == old(self).input.lexer,
        // a run of hyphens
        first.kind == Kind::Seq(Sequence::Hyphen) && first.len >= 2 ==> r is Some && exists|m: int, k: int| {
            let e = added(*old(self), *final(self));
            &&& #[trigger] dash_ok(first.len as int, m, k) && e.len() == m + k
            &&& forall|x: int| 0 <= x < m + k ==> dash_at(#[trigger] e[x], m, old(self).input.span.start as int, x)
        },
        first.kind == Kind::Seq(Sequence::Hyphen) && first.len < 2 ==> r is None && final(self).events == old(self).events && final(self).input == old(self).input,
        // a run of periods: what is left is text
        first.kind == Kind::Seq(Sequence::Period) ==> r is None && {
            let e = added(*old(self), *final(self));
            &&& e.len() == first.len as int / 3 && final(self).input.span.start == old(self).input.span.start + 3 * e.len()
            &&& forall|x: int| 0 <= x < e.len() ==> dots_at(#[trigger] e[x], old(self).input.span.start as int, x)
        },
        first.kind == Kind::Seq(Sequence::Backtick) ==> r is None,
        !(first.kind is Seq) ==> final(self).input == old(self).input && match single(first.kind) {
            Some(a) => r is Some && final(self).events@ == old(self).events@.push(Event { kind: EventKind::Atom(a), span: old(self).input.span }),
            None => r is None && final(self).events == old(self).events,
        },
        r is None && !(first.kind == Kind::Seq(Sequence::Period)) ==> *final(self) == *old(self),
    case dots first.kind == Kind::Seq(Sequence::Period)
    case dashes first.kind == Kind::Seq(Sequence::Hyphen) && first.len >= 2
    case other !(first.kind == Kind::Seq(Sequence::Period)) && !(first.kind == Kind::Seq(Sequence::Hyphen) && first.len >= 2)
    opt iter_find iter_for_each m_len matches
    loop 0
        invariant
            self.input.same_line(&old(self).input), self.input.lexer == old(self).input.lexer, self.input.span.end == old(self).input.span.end,
            self.input.wf(), only_adds(*old(self), *self), self.input.span.start <= self.input.span.end,
            self.input.span.start == old(self).input.span.start + 3 * (self.len_ev() - old(self).len_ev()),
            forall|x: int| old(self).input.span.start <= x < old(self).input.span.end ==> #[trigger] old(self).b()[x] < 128,
            forall|x: int| 0 <= x < self.len_ev() - old(self).len_ev() ==>
                dots_at(#[trigger] self.events@[old(self).len_ev() + x], old(self).input.span.start as int, x),
        decreases self.input.span.end - self.input.span.start,
    at loop 0 start
        proof { assert(old(self).b()[self.input.span.start + 2] < 128); lemma_ascii_boundary(self.b(), self.input.span.start + 2); }
    at loop 0 after
        assert(forall|x: int| 0 <= x < self.len_ev() - old(self).len_ev() ==>
            #[trigger] added(*old(self), *self)[x] == self.events@[old(self).len_ev() + x]);
    loop 1
        invariant_except_break
            __r1 is None, __x1 == 2 ==> (first.len as int) % 3 == 1,
        invariant
            1 <= __x1 <= 2, first.len >= 5, (first.len as int) % 3 != 0,
        ensures
            __r1 is Some, 1 <= __r1->0 <= 2, (first.len - 2 * __r1->0) % 3 == 0,
        decreases 3 - __x1,
    loop 2
        invariant
            self.input.same_line(&old(self).input), self.input.lexer == old(self).input.lexer, self.input.span.end == old(self).input.span.end,
            self.input.wf(), only_adds(*old(self), *self), self.input.span.start <= self.input.span.end,
            0 <= __n2 <= __t2, __t2 == m + n, __m2 == m, 3 * m + 2 * n == first.len,
            old(self).input.span.end == old(self).input.span.start + first.len,
            self.len_ev() - old(self).len_ev() == __n2,
            self.input.span.start == old(self).input.span.start + dash_pos(m as int, __n2 as int),
            forall|x: int| old(self).input.span.start <= x < old(self).input.span.end ==> #[trigger] old(self).b()[x] < 128,
            forall|x: int| 0 <= x < __n2 ==>
                dash_at(#[trigger] self.events@[old(self).len_ev() + x], m as int, old(self).input.span.start as int, x),
        decreases __t2 - __n2,
    at loop 2 end
        proof { assert(old(self).b()[self.input.span.start - 1] < 128); lemma_ascii_boundary(self.b(), self.input.span.start - 1); }
    at loop 2 after
        assert(forall|x: int| 0 <= x < self.len_ev() - old(self).len_ev() ==>
            #[trigger] added(*old(self), *self)[x] == self.events@[old(self).len_ev() + x]);
        assert(dash_ok(first.len as int, m as int, n as int));
    subst /if (match atom { EnDash => true, _ => false }) { 2 } else { 3 }/(if (match atom { EnDash => true, _ => false }) { 2 } else { 3 })/
    at exit
        proof {
            if fit(*old(self)) {
                let e = added(*old(self), *self);
                let bs = self.b();
                let p0 = old(self).input.span.start as int;
                let p1 = if __rv is Some { self.input.span.end as int } else { self.input.span.start as int };
                lemma_plain(e, no_st());
                lemma_adds(*old(self), *self);
                assert forall|j: int| p0 <= j <= old(self).input.span.end && first.kind is Seq implies #[trigger] bnd(bs, j) by { if j < old(self).input.span.end { assert(bs[j] < 128); lemma_ascii_boundary(bs, j); } }
                assert(ord(bs, e, p1)) by { reveal(ord); }
                lemma_adds_ord(bs, old(self).events@, self.events@, p0, p1);
                if e.len() > 0 { assert(self.events@.last() == e.last()); } else { assert(self.events@ =~= old(self).events@); }
            }
        }
@end
@raw
// ---- the events form a sequence of well-nested containers
type Evs<'s> = vstd::seq::Seq<Event<'s>>;
type St<'s> = vstd::seq::Seq<Container<'s>>;
/// The containers that have to be open, innermost last, just before an event, if those open just after it are `s`.
spec fn back1<'s>(k: EventKind<'s>, s: St<'s>) -> Option<St<'s>> {
    match k {
        EventKind::Enter(c) => if s.len() > 0 && s.last() == c { Some(s.drop_last()) } else { None },
        EventKind::Exit(c) => Some(s.push(c)),
        _ => Some(s),
    }
}
#[verifier::opaque]
spec fn back<'s>(e: Evs<'s>, s: St<'s>) -> Option<St<'s>>
    decreases e.len()
{
    if e.len() == 0 { Some(s) } else { match back1(e.last().kind, s) { Some(t) => back(e.drop_last(), t), None => None } }
}
spec fn no_st<'s>() -> St<'s> { vstd::seq::Seq::empty() }
/// The containers that the events close.
spec fn need<'s>(e: Evs<'s>) -> Option<St<'s>> { back(e, no_st()) }
/// Every container that the events open they close, and the other way round.
spec fn bal<'s>(e: Evs<'s>) -> bool { back(e, no_st()) == Some(no_st()) }
spec fn plain(k: EventKind<'_>) -> bool { !(k is Enter) && !(k is Exit) }
proof fn lemma_back_cat<'s>(a: Evs<'s>, b: Evs<'s>, s: St<'s>)
    ensures back(a + b, s) == (match back(b, s) { Some(t) => back(a, t), None => None })
    decreases b.len()
{ reveal(back); reveal(segs);
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        match back1(b.last().kind, s) { Some(t) => lemma_back_cat(a, b.drop_last(), t), None => {} }
    }
}
proof fn lemma_back_frame<'s>(a: Evs<'s>, s: St<'s>, x: St<'s>)
    requires back(a, s) is Some
    ensures back(a, x + s) == Some(x + back(a, s)->0)
    decreases a.len()
{ reveal(back); reveal(segs);
    if a.len() > 0 {
        let t = back1(a.last().kind, s)->0;
        match a.last().kind {
            EventKind::Enter(c) => { assert((x + s).drop_last() =~= x + t); }
            EventKind::Exit(c) => { assert((x + s).push(c) =~= x + t); }
            _ => {}
        }
        lemma_back_frame(a.drop_last(), t, x);
    }
}
proof fn lemma_bal<'s>(a: Evs<'s>, s: St<'s>)
    requires bal(a)
    ensures back(a, s) == Some(s)
{ reveal(back); reveal(segs);
    lemma_back_frame(a, no_st(), s);
    assert(s + no_st() =~= s);
}
proof fn lemma_bal_cat<'s>(a: Evs<'s>, b: Evs<'s>)
    requires bal(a), bal(b)
    ensures bal(a + b)
{ reveal(back); reveal(segs); lemma_back_cat(a, b, no_st()); }
proof fn lemma_plain<'s>(a: Evs<'s>, s: St<'s>)
    requires forall|i: int| 0 <= i < a.len() ==> plain((#[trigger] a[i]).kind)
    ensures back(a, s) == Some(s)
    decreases a.len()
{ reveal(back); reveal(segs);
    if a.len() > 0 {
        assert(plain(a[a.len() - 1].kind));
        assert forall|i: int| 0 <= i < a.drop_last().len() implies plain((#[trigger] a.drop_last()[i]).kind) by { assert(plain(a[i].kind)); }
        lemma_plain(a.drop_last(), s);
    }
}
/// A container around well-nested events.
proof fn lemma_wrap<'s>(a: Event<'s>, m: Evs<'s>, z: Event<'s>, c: Container<'s>)
    requires bal(m), a.kind == EventKind::Enter(c), z.kind == EventKind::Exit(c)
    ensures bal(seq![a] + m + seq![z])
{ reveal(back); reveal(segs);
    let e = seq![a] + m + seq![z];
    assert(e.drop_last() =~= seq![a] + m);
    let t = no_st().push(c);
    lemma_bal(m, t);
    lemma_back_cat(seq![a], m, t);
    assert(t.drop_last() =~= no_st() && t.last() == c);
    assert(seq![a].drop_last() =~= vstd::seq::Seq::empty());
    assert(seq![a].last() == a && back(seq![a].drop_last(), no_st()) == Some(no_st()));
    assert(back(seq![a], t) == Some(no_st()));
}
/// Only the kinds of the events matter.
proof fn lemma_back_kinds<'s>(a: Evs<'s>, b: Evs<'s>, s: St<'s>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).kind == b[i].kind || plain(a[i].kind) && plain(b[i].kind)
    ensures back(a, s) == back(b, s)
    decreases a.len()
{ reveal(back); reveal(segs);
    if a.len() > 0 {
        let n = a.len() - 1;
        assert(a[n].kind == b[n].kind || plain(a[n].kind) && plain(b[n].kind));
        match back1(a.last().kind, s) {
            Some(t) => {
                assert forall|i: int| 0 <= i < n implies (#[trigger] a.drop_last()[i]).kind == b.drop_last()[i].kind || plain(a.drop_last()[i].kind) && plain(b.drop_last()[i].kind) by { let z = a[i]; }
                lemma_back_kinds(a.drop_last(), b.drop_last(), t);
            }
            None => {}
        }
    }
}
/// Events `a..b`.
spec fn ev<'s>(e: Evs<'s>, a: int, b: int) -> Evs<'s> { e.subrange(a, b) }
/// First event that belongs to an opener, and the first one after it.
spec fn op_lo(o: (Opener, usize)) -> int { match o.0 { Opener::Link { event_span, .. } => event_span - 1, _ => o.1 as int } }
spec fn op_hi(o: (Opener, usize)) -> int { match o.0 { Opener::Link { .. } => o.1 + 1, _ => o.1 + 2 } }
/// The events of an opener: a placeholder for attributes and what is turned into a container when it is closed.
spec fn op_ok(e: Evs<'_>, o: (Opener, usize)) -> bool {
    match o.0 {
        Opener::Link { event_span, .. } => {
            &&& 1 <= event_span && event_span + 2 <= o.1 && o.1 < e.len()
            &&& e[event_span - 1].kind is Placeholder && e[event_span as int].kind is Str
            &&& bal(ev(e, event_span + 1, o.1 - 1)) && e[o.1 - 1].kind is Str && e[o.1 as int].kind is Str
        }
        Opener::Span(_) => o.1 + 2 <= e.len() && e[o.1 as int].kind is Placeholder && e[o.1 + 1].kind is Str,
        _ => o.1 + 2 <= e.len() && e[o.1 as int].kind is Placeholder && (e[o.1 + 1].kind is Str || e[o.1 + 1].kind is Atom),
    }
}
/// The events up to `n` are what the openers `ops` start, with well-nested events between them, after events that close `s`.
#[verifier::opaque]
spec fn segs<'s>(e: Evs<'s>, ops: vstd::seq::Seq<(Opener, usize)>, n: int, s: St<'s>) -> bool
    decreases ops.len()
{
    if ops.len() == 0 { 0 <= n <= e.len() && need(ev(e, 0, n)) == Some(s) } else {
        let o = ops.last();
        &&& op_ok(e, o) && op_hi(o) <= n <= e.len() && bal(ev(e, op_hi(o), n)) && segs(e, ops.drop_last(), op_lo(o), s)
    }
}
proof fn lemma_op_bal<'s>(e: Evs<'s>, o: (Opener, usize))
    requires op_ok(e, o)
    ensures bal(ev(e, op_lo(o), op_hi(o)))
{ reveal(back); reveal(segs);
    match o.0 {
        Opener::Link { event_span, .. } => {
            let a = ev(e, event_span - 1, event_span + 1);
            let m = ev(e, event_span + 1, o.1 - 1);
            let z = ev(e, o.1 - 1, o.1 + 1);
            lemma_plain(a, no_st());
            lemma_plain(z, no_st());
            lemma_bal_cat(a, m);
            lemma_bal_cat(a + m, z);
            assert(ev(e, op_lo(o), op_hi(o)) =~= a + m + z);
        }
        _ => lemma_plain(ev(e, op_lo(o), op_hi(o)), no_st()),
    }
}
/// The same prefix of events.
proof fn lemma_segs_eq<'s>(e: Evs<'s>, f: Evs<'s>, ops: vstd::seq::Seq<(Opener, usize)>, n: int, s: St<'s>)
    requires segs(e, ops, n, s), n <= f.len(), forall|i: int| 0 <= i < n ==> #[trigger] f[i] == e[i]
    ensures segs(f, ops, n, s)
    decreases ops.len()
{ reveal(back); reveal(segs);
    if ops.len() == 0 { assert(ev(e, 0, n) =~= ev(f, 0, n)); } else {
        let o = ops.last();
        assert(ev(e, op_hi(o), n) =~= ev(f, op_hi(o), n));
        match o.0 { Opener::Link { event_span, .. } => { assert(ev(e, event_span + 1, o.1 - 1) =~= ev(f, event_span + 1, o.1 - 1)); } _ => {} }
        lemma_segs_eq(e, f, ops.drop_last(), op_lo(o), s);
    }
}
/// Well-nested events after them.
proof fn lemma_segs_ext<'s>(e: Evs<'s>, ops: vstd::seq::Seq<(Opener, usize)>, n: int, m: int, s: St<'s>)
    requires segs(e, ops, n, s), n <= m <= e.len(), bal(ev(e, n, m))
    ensures segs(e, ops, m, s)
{ reveal(back); reveal(segs);
    if ops.len() == 0 {
        assert(ev(e, 0, m) =~= ev(e, 0, n) + ev(e, n, m));
        lemma_back_cat(ev(e, 0, n), ev(e, n, m), no_st());
    } else {
        let o = ops.last();
        lemma_bal_cat(ev(e, op_hi(o), n), ev(e, n, m));
        assert(ev(e, op_hi(o), m) =~= ev(e, op_hi(o), n) + ev(e, n, m));
    }
}
/// All of them.
proof fn lemma_segs_need<'s>(e: Evs<'s>, ops: vstd::seq::Seq<(Opener, usize)>, n: int, s: St<'s>)
    requires segs(e, ops, n, s)
    ensures 0 <= n <= e.len(), need(ev(e, 0, n)) == Some(s)
    decreases ops.len()
{ reveal(back); reveal(segs);
    if ops.len() > 0 {
        let o = ops.last();
        lemma_segs_need(e, ops.drop_last(), op_lo(o), s);
        lemma_op_bal(e, o);
        let a = ev(e, op_lo(o), op_hi(o));
        lemma_bal_cat(a, ev(e, op_hi(o), n));
        assert(ev(e, op_lo(o), n) =~= a + ev(e, op_hi(o), n));
        assert(ev(e, 0, n) =~= ev(e, 0, op_lo(o)) + ev(e, op_lo(o), n));
        lemma_back_cat(ev(e, 0, op_lo(o)), ev(e, op_lo(o), n), no_st());
    }
}
/// The openers before `k`, and what comes after opener `k`.
proof fn lemma_segs_cut<'s>(e: Evs<'s>, ops: vstd::seq::Seq<(Opener, usize)>, n: int, s: St<'s>, k: int)
    requires segs(e, ops, n, s), 0 <= k < ops.len()
    ensures op_ok(e, ops[k]), 0 <= op_lo(ops[k]) <= op_hi(ops[k]) <= n <= e.len(), segs(e, ops.subrange(0, k), op_lo(ops[k]), s), bal(ev(e, op_hi(ops[k]), n))
    decreases ops.len()
{ reveal(back); reveal(segs);
    let o = ops.last();
    let r = ops.drop_last();
    lemma_segs_need(e, r, op_lo(o), s);
    if k == ops.len() - 1 {
        assert(ops.subrange(0, k) =~= r);
    } else {
        assert(r[k] == ops[k] && r.subrange(0, k) =~= ops.subrange(0, k));
        lemma_segs_cut(e, r, op_lo(o), s, k);
        lemma_op_bal(e, o);
        let a = ev(e, op_hi(ops[k]), op_lo(o));
        let b = ev(e, op_lo(o), op_hi(o));
        lemma_bal_cat(a, b);
        lemma_bal_cat(a + b, ev(e, op_hi(o), n));
        assert(ev(e, op_hi(ops[k]), n) =~= a + b + ev(e, op_hi(o), n));
    }
}
@end
@fn <DelimEventKind as From<Opener>>::from
    ret r
    ens
        match (d, r) {
            (Opener::Span(t), DelimEventKind::Span(u)) => t == u,
            (Opener::Strong(_), DelimEventKind::Container(c)) => c is Strong,
            (Opener::Emphasis(_), DelimEventKind::Container(c)) => c is Emphasis,
            (Opener::Superscript(_), DelimEventKind::Container(c)) => c is Superscript,
            (Opener::Subscript(_), DelimEventKind::Container(c)) => c is Subscript,
            (Opener::Mark, DelimEventKind::Container(c)) => c is Mark,
            (Opener::Delete, DelimEventKind::Container(c)) => c is Delete,
            (Opener::Insert, DelimEventKind::Container(c)) => c is Insert,
            (Opener::SingleQuoted, DelimEventKind::Quote(t)) => t is Single,
            (Opener::DoubleQuoted, DelimEventKind::Quote(t)) => t is Double,
            (Opener::Link { event_span: a, image: b, inline: c }, DelimEventKind::Link { event_span: x, image: y, inline: z }) => a == x && b == y && c == z,
            _ => false,
        },
@end
@raw
/// The delimiters of inline containers.
spec fn opens(k: Kind, o: Opener) -> bool {
    match o {
        Opener::Strong(Directionality::Bi) => k == Kind::Sym(Symbol::Asterisk),
        Opener::Emphasis(Directionality::Bi) => k == Kind::Sym(Symbol::Underscore),
        Opener::Superscript(Directionality::Bi) => k == Kind::Sym(Symbol::Caret),
        Opener::Subscript(Directionality::Bi) => k == Kind::Sym(Symbol::Tilde),
        Opener::SingleQuoted => k == Kind::Sym(Symbol::Quote1) || k == Kind::Open(Delimiter::BraceQuote1),
        Opener::DoubleQuoted => k == Kind::Sym(Symbol::Quote2) || k == Kind::Open(Delimiter::BraceQuote2),
        Opener::Span(SpanType::Image) => k == Kind::Sym(Symbol::ExclaimBracket),
        Opener::Span(SpanType::General) => k == Kind::Open(Delimiter::Bracket),
        Opener::Strong(Directionality::Uni) => k == Kind::Open(Delimiter::BraceAsterisk),
        Opener::Emphasis(Directionality::Uni) => k == Kind::Open(Delimiter::BraceUnderscore),
        Opener::Superscript(Directionality::Uni) => k == Kind::Open(Delimiter::BraceCaret),
        Opener::Subscript(Directionality::Uni) => k == Kind::Open(Delimiter::BraceTilde),
        Opener::Mark => k == Kind::Open(Delimiter::BraceEqual),
        Opener::Delete => k == Kind::Open(Delimiter::BraceHyphen),
        Opener::Insert => k == Kind::Open(Delimiter::BracePlus),
        Opener::Link { .. } => false,
    }
}
spec fn closes(k: Kind, o: Opener) -> bool {
    match o {
        Opener::Span(_) => k == Kind::Close(Delimiter::Bracket),
        Opener::Link { inline, .. } => k == Kind::Close(if inline { Delimiter::Paren } else { Delimiter::Bracket }),
        Opener::SingleQuoted => k == Kind::Sym(Symbol::Quote1) || k == Kind::Close(Delimiter::BraceQuote1),
        Opener::DoubleQuoted => k == Kind::Sym(Symbol::Quote2) || k == Kind::Close(Delimiter::BraceQuote2),
        Opener::Strong(Directionality::Bi) | Opener::Emphasis(Directionality::Bi) | Opener::Superscript(Directionality::Bi) | Opener::Subscript(Directionality::Bi) => opens(k, o),
        Opener::Strong(Directionality::Uni) => k == Kind::Close(Delimiter::BraceAsterisk),
        Opener::Emphasis(Directionality::Uni) => k == Kind::Close(Delimiter::BraceUnderscore),
        Opener::Superscript(Directionality::Uni) => k == Kind::Close(Delimiter::BraceCaret),
        Opener::Subscript(Directionality::Uni) => k == Kind::Close(Delimiter::BraceTilde),
        Opener::Mark => k == Kind::Close(Delimiter::BraceEqual),
        Opener::Delete => k == Kind::Close(Delimiter::BraceHyphen),
        Opener::Insert => k == Kind::Close(Delimiter::BracePlus),
    }
}
spec fn bidi(o: Opener) -> bool {
    match o {
        Opener::Strong(d) | Opener::Emphasis(d) | Opener::Superscript(d) | Opener::Subscript(d) => d is Bi,
        Opener::SingleQuoted | Opener::DoubleQuoted => true,
        _ => false,
    }
}
@end
@fn Opener::from_token
    ret r
    ens
        r matches Some(o) ==> opens(kind, o), r is None ==> forall|o: Opener| !#[trigger] opens(kind, o),
@end
@fn Opener::closed_by
    ret r
    ens
        r == closes(kind, *self),
    opt matches
@end
@fn Opener::bidirectional
    ret r
    ens
        r == bidi(*self),
    opt matches
@end
@raw
/// An attribute set of a word is followed by a dummy event.
spec fn adj(e: Evs<'_>) -> bool {
    forall|i: int| 0 <= i < e.len() ==> ((#[trigger] e[i]).kind matches EventKind::Attributes { container: false, .. } ==> i + 1 < e.len() && e[i + 1].kind is Empty)
}
/// `x` is the placeholder for the attributes of the element that is complete and last.
spec fn elem_ok<'s>(p: Parser<'s>, t: AttributesElementType, s: St<'s>) -> bool {
    match t {
        AttributesElementType::Word => true,
        AttributesElementType::Container { e_placeholder: x } => {
            let e = p.events@;
            &&& x + 2 <= e.len() && e[x as int].kind is Placeholder && !hid(e.last().kind) && segs(e, p.openers@, x as int, s)
            &&& if e[x + 1].kind is Str { x + 3 <= e.len() && bal(ev(e, x + 2, e.len() - 1)) && plain(e.last().kind) } else { bal(ev(e, x as int, e.len() as int)) }
        }
    }
}
spec fn vkind(c: Container<'_>) -> bool { c is Verbatim || c is RawFormat || c is InlineMath || c is DisplayMath }
/// Inside verbatim text: an opened container and the text so far.
spec fn verb_ok<'s>(p: Parser<'s>, v: VerbatimState, s: St<'s>) -> bool {
    let e = p.events@;
    let x = v.event_opener as int;
    &&& 1 <= x < e.len() && e[x - 1].kind is Placeholder && (e[x].kind matches EventKind::Enter(c) && vkind(c)) && segs(e, p.openers@, x - 1, s)
    &&& forall|i: int| x < i < e.len() ==> (#[trigger] e[i]).kind is Str
    &&& v.non_whitespace_last matches Some(w) ==> x < w.1 <= e.len()
}
/// The events are well-nested, where `s` are the containers open before the first of them.
spec fn live_s<'s>(p: Parser<'s>, s: St<'s>) -> bool {
    &&& adj(p.events@)
    &&& match p.verbatim { Some(v) => verb_ok(p, v, s) && p.attributes is None, None => segs(p.events@, p.openers@, p.len_ev(), s) }
    &&& p.attributes matches Some(a) ==> elem_ok(p, a.elem_ty, s)
}
spec fn st<'s>(p: Parser<'s>) -> St<'s> {
    match p.verbatim { Some(v) => need(ev(p.events@, 0, v.event_opener - 1))->0, None => need(p.events@)->0 }
}
spec fn live(p: Parser<'_>) -> bool { live_s(p, st(p)) }
proof fn lemma_live<'s>(p: Parser<'s>, s: St<'s>)
    requires live_s(p, s)
    ensures live(p), st(p) == s
{
    match p.verbatim {
        Some(v) => lemma_segs_need(p.events@, p.openers@, v.event_opener - 1, s),
        None => { lemma_segs_need(p.events@, p.openers@, p.len_ev(), s); assert(ev(p.events@, 0, p.len_ev()) =~= p.events@); }
    }
}
/// A step of the parser keeps them well-nested.
spec fn keeps<'s>(a: Parser<'s>, b: Parser<'s>) -> bool { live(b) && st(a) == st(b) && b.input.src == a.input.src && b.input.complete == a.input.complete && b.input.lines@.len() >= a.input.lines@.len() }
@end
@raw
// ---- the events are in order
/// Events that are not part of the text, or come early: placeholders, the attributes of a container, and the dummies after those of a word.
spec fn hid(k: EventKind<'_>) -> bool { k is Empty || k is Placeholder || (k matches EventKind::Attributes { container: true, .. }) }
spec fn in_b(b: Bs, e: Event<'_>) -> bool { rng_ok(b, e.span) && (e.kind is Placeholder ==> e.span.start == e.span.end) }
/// All spans are in order, inside the source and on character boundaries; all end at `pos` or before.
#[verifier::opaque]
spec fn ord(b: Bs, e: Evs<'_>, pos: int) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> in_b(b, #[trigger] e[i]) && (!hid(e[i].kind) ==> e[i].span.end <= pos)
    &&& forall|i: int, j: int| 0 <= i < j < e.len() && !hid((#[trigger] e[i]).kind) && !hid((#[trigger] e[j]).kind) ==> e[i].span.end <= e[j].span.start
}
/// A string at the end is not empty, or follows a period.
spec fn last_ok(b: Bs, e: Evs<'_>) -> bool { e.len() > 0 && e.last().kind is Str ==> e.last().span.start < e.last().span.end || 0 < e.last().span.end && b[e.last().span.end - 1] == b'.' }
proof fn lemma_ord_at(b: Bs, e: Evs<'_>, pos: int, i: int)
    requires ord(b, e, pos), 0 <= i < e.len()
    ensures rng_ok(b, e[i].span), in_b(b, e[i]), !hid(e[i].kind) ==> e[i].span.end <= pos
{ reveal(ord); }
proof fn lemma_ord_push<'s>(b: Bs, e: Evs<'s>, pos: int, v: Event<'s>, q: int)
    requires ord(b, e, pos), in_b(b, v), hid(v.kind) || pos <= v.span.start && v.span.end <= q, pos <= q
    ensures ord(b, e.push(v), q)
{ reveal(ord); }
proof fn lemma_ord_cut(b: Bs, e: Evs<'_>, pos: int, k: int)
    requires ord(b, e, pos), 0 <= k <= e.len()
    ensures ord(b, e.subrange(0, k), pos)
{ reveal(ord); }
proof fn lemma_ord_kinds<'s>(b: Bs, e: Evs<'s>, f: Evs<'s>, pos: int)
    requires
        ord(b, e, pos), f.len() == e.len(),
        forall|i: int| 0 <= i < e.len() ==> (#[trigger] f[i]).span == e[i].span && (hid(f[i].kind) || !hid(e[i].kind)) && (f[i].kind is Placeholder ==> e[i].kind is Placeholder)
    ensures ord(b, f, pos)
{
    reveal(ord);
    assert forall|i: int| 0 <= i < f.len() implies in_b(b, #[trigger] f[i]) && (!hid(f[i].kind) ==> f[i].span.end <= pos) by { let z = e[i]; }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && !hid((#[trigger] f[i]).kind) && !hid((#[trigger] f[j]).kind) implies f[i].span.end <= f[j].span.start by { let z = e[i]; let y = e[j]; }
}
/// Another range for the last event.
proof fn lemma_ord_last<'s>(b: Bs, e: Evs<'s>, pos: int, v: Event<'s>, q: int)
    requires
        ord(b, e, pos), e.len() > 0, in_b(b, v), !hid(e.last().kind), pos <= q, e.last().span.start <= v.span.start, v.span.end <= q,
    ensures ord(b, e.update(e.len() - 1, v), q)
{
    reveal(ord);
    let f = e.update(e.len() - 1, v);
    assert forall|i: int| 0 <= i < f.len() implies in_b(b, #[trigger] f[i]) && (!hid(f[i].kind) ==> f[i].span.end <= q) by { let z = e[i]; }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && !hid((#[trigger] f[i]).kind) && !hid((#[trigger] f[j]).kind) implies f[i].span.end <= f[j].span.start by { let z = e[i]; let y = e[j]; }
}
/// A line that is followed by another.
spec fn nl(b: Bs, r: Sp) -> bool { r.start < r.end && b[r.end - 1] == 10 }
type Sps = vstd::seq::Seq<Sp>;
/// A line that another one follows ends with a line break, unless that is empty.
spec fn nlq(b: Bs, l: Sp, m: Sp) -> bool { nl(b, l) || m.start == m.end }
#[verifier::opaque]
spec fn nl_ok(b: Bs, begun: bool, line: Sp, q: Sps) -> bool {
    &&& begun && q.len() > 0 ==> nlq(b, line, q[0])
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() ==> nlq(b, #[trigger] q[i], #[trigger] q[j])
}
spec fn last_line(p: Input<'_>) -> Sp { if p.ahead@.len() > 0 { p.ahead@.last() } else { p.span_line } }
/// The lines are in order, too.
spec fn lines_ok(p: Input<'_>) -> bool {
    &&& nl_ok(p.b(), p.lines@.len() > 0, p.span_line, p.ahead@)
    &&& p.span.end <= p.span_line.end
    &&& forall|i: int| 0 <= i < p.ahead@.len() ==> p.span_line.end <= (#[trigger] p.ahead@[i]).start
    &&& forall|i: int, j: int| 0 <= i < j < p.ahead@.len() ==> (#[trigger] p.ahead@[i]).end <= (#[trigger] p.ahead@[j]).start
}
/// The events are in order, and what follows comes after them.
spec fn in_order(p: Parser<'_>) -> bool { ord(p.b(), p.events@, p.input.span.end as int) && last_ok(p.b(), p.events@) && lines_ok(p.input) }
/// ... before the event of the current span is added.
spec fn in_order_cur(p: Parser<'_>) -> bool { ord(p.b(), p.events@, p.input.span.start as int) && last_ok(p.b(), p.events@) && lines_ok(p.input) }
@end
@raw
/// The next token is the brace that may start attributes.
spec fn at_brace(p: Parser<'_>) -> bool {
    brace_at(p.input.rest(), 0) && (p.input.clean() || p.input.lexer.next == Some(Token { kind: Kind::Open(Delimiter::Brace), len: 1 }))
}
/// ... or has been read.
spec fn brace_read(p: Parser<'_>, eaten: bool) -> bool {
    if eaten {
        in_order_cur(p) && p.input.lines@.len() > 0 && p.input.span.end == p.input.span.start + 1 && brace_at(p.b().subrange(p.input.span.start as int, p.input.span_line.end as int), 0)
            && p.input.span_line.start <= p.input.span.start
    } else { in_order(p) && p.input.lines@.len() > 0 && at_brace(p) }
}
/// The text from `start` to the end of the line at `h`, and the lines ahead.
spec fn lo_of(q: Sps, start: int, k: int) -> int { if k <= 0 { start } else { q[k - 1].start as int } }
spec fn hi_of(q: Sps, h: usize, k: int) -> int { if k <= 0 { h as int } else { q[k - 1].end as int } }
/// The position in the grammar of attributes after `k` of these.
spec fn att_st(b: Bs, q: Sps, h: usize, start: int, k: int) -> State
    decreases k
{
    if k <= 0 { st0() } else { run(att_st(b, q, h, start, k - 1), b, lo_of(q, start, k - 1), hi_of(q, h, k - 1)) }
}
/// Up to `e`, in the line `k`, these are complete blocks.
spec fn blocks(b: Bs, q: Sps, h: usize, start: int, k: int, e: int) -> bool {
    0 <= k <= q.len() && lo_of(q, start, k) < e <= hi_of(q, h, k) && bnd(b, e) && is_done(run(att_st(b, q, h, start, k), b, lo_of(q, start, k), e))
}
#[verifier::opaque]
spec fn acc_(b: Bs, q: Sps, h: usize, start: int, k: int, e: int) -> bool { e == start && k == 0 || blocks(b, q, h, start, k, e) }
spec fn acc(p: Input<'_>, a: AttributesState, start: int) -> bool { acc_(p.b(), p.ahead@, p.span_line.end, start, a.valid_lines as int, a.end_attr as int) }
#[verifier::opaque]
spec fn read_(b: Bs, q: Sps, h: usize, start: int, k: int, v: attr::Validator) -> bool { like(vst(v), att_st(b, q, h, start, k)) }
/// Attributes at `start` of which `k` lines have been read.
spec fn att_at(p: Input<'_>, a: AttributesState, start: int, k: int) -> bool { acc(p, a, start) && read_(p.b(), p.ahead@, p.span_line.end, start, k, a.validator) }
/// Attributes that may continue on the next line.
spec fn att_inv(p: Parser<'_>) -> bool { p.attributes matches Some(a) ==> at_brace(p) && acc(p.input, a, p.input.span.end as int) }
/// ... and more lines are to come.
spec fn att_new(p: Parser<'_>) -> bool { p.attributes matches Some(a) ==> at_brace(p) && !p.input.complete && att_at(p.input, a, p.input.span.end as int, p.input.ahead@.len() as int + 1) }
/// ... one of which is there.
spec fn has_more_at(p: Parser<'_>, start: int) -> bool { p.attributes matches Some(a) ==> p.input.ahead@.len() > 0 && att_at(p.input, a, start, p.input.ahead@.len() as int) }
spec fn has_more(p: Parser<'_>) -> bool { has_more_at(p, p.input.span.end as int) }
proof fn lemma_att_st(b: Bs, q: Sps, r: Sps, h: usize, start: int, k: int)
    requires 0 <= k, k <= q.len() + 1, k <= r.len() + 1, forall|i: int| 0 <= i < k - 1 ==> q[i] == #[trigger] r[i]
    ensures att_st(b, q, h, start, k) == att_st(b, r, h, start, k)
    decreases k
{ if k > 0 { lemma_att_st(b, q, r, h, start, k - 1); } }
/// The step to line `k + 1`.
proof fn lemma_att_step(b: Bs, q: Sps, h: usize, start: int, k: int)
    requires 0 <= k
    ensures att_st(b, q, h, start, 0) == st0(), att_st(b, q, h, start, k + 1) == run(att_st(b, q, h, start, k), b, lo_of(q, start, k), hi_of(q, h, k))
{}
/// Another line.
proof fn lemma_att_fed<'s>(p: Parser<'s>, q: Parser<'s>, l: Sp)
    requires
        att_new(p), p.attributes is Some, q.attributes == p.attributes, q.input.ahead@ == p.input.ahead@.push(l), q.input.src == p.input.src, q.input.span_line == p.input.span_line,
        q.input.span == p.input.span,
    ensures has_more(q), acc(q.input, q.attributes->0, q.input.span.end as int)
{
    reveal(acc_); reveal(read_);
    let a = p.attributes->0;
    let n = p.input.ahead@.len() as int;
    let s = p.input.span.end as int;
    let k = a.valid_lines as int;
    let h = p.input.span_line.end;
    let (x, y) = (p.input.ahead@, q.input.ahead@);
    lemma_att_st(p.b(), x, y, h, s, n + 1);
    if blocks(p.b(), x, h, s, k, a.end_attr as int) { lemma_att_st(p.b(), x, y, h, s, k); }
}
proof fn lemma_att_first(p: Input<'_>, a: AttributesState, start: int)
    requires a.end_attr == start, a.valid_lines == 0, vst(a.validator) == st0()
    ensures att_at(p, a, start, 0)
{ reveal(acc_); reveal(read_); lemma_st0(); }
/// What becomes of attributes, if there may be any.
spec fn att_done<'s>(a: Parser<'s>, b: Parser<'s>, r: Option<ControlFlow>) -> bool {
    &&& keeps(a, b) && b.verbatim is None && b.input.wf() && att_new(b)
    &&& r is None ==> b == a
    &&& r is Some ==> in_order(b) && (r->0 is Continue || r->0 is More) && (r->0 is More <==> b.attributes is Some)
}
@end
@raw
/// The iterator std::iter::once(first).chain(q.iter().take(k).cloned())
struct VLines { v: Vec<Sp>, pos: usize }
impl VLines {
    fn next(&mut self) -> (r: Option<Sp>)
        requires old(self).pos <= old(self).v@.len()
        ensures
            final(self).v == old(self).v, final(self).pos <= final(self).v@.len(),
            r is None ==> old(self).pos == old(self).v@.len() && final(self).pos == old(self).pos,
            r is Some ==> old(self).pos < old(self).v@.len() && final(self).pos == old(self).pos + 1 && r->0 == old(self).v@[old(self).pos as int],
    {
        if self.pos < self.v.len() { let r = self.v[self.pos].clone(); self.pos += 1; Some(r) } else { None }
    }
}
fn v_lines(first: Sp, q: &VecDeque<Sp>, k: usize) -> (r: VLines)
    ensures r.pos == 0, r.v@ == seq![first] + q@.subrange(0, if k <= q@.len() { k as int } else { q@.len() as int }),
{
    let mut v: Vec<Sp> = Vec::new();
    v.push(first);
    let mut i = 0;
    proof { assert(v@ =~= seq![first] + q@.subrange(0, 0)); }
    while i < k && i < q.len()
        invariant i <= k, i <= q@.len(), v@ == seq![first] + q@.subrange(0, i as int),
        ensures i == k || i == q@.len(), i <= k, i <= q@.len(), v@ == seq![first] + q@.subrange(0, i as int),
        decreases q@.len() - i,
    {
        v.push(q[i].clone());
        proof { assert(q@.subrange(0, i + 1) =~= q@.subrange(0, i as int).push(q@[i as int])); assert(v@ =~= seq![first] + q@.subrange(0, i + 1)); }
        i += 1;
    }
    VLines { v, pos: 0 }
}
trait VBs { spec fn bs_(&self) -> Bs; fn v_slice(&self, a: usize, z: usize) -> (r: &[u8]) requires a <= z <= self.bs_().len() ensures r@ == self.bs_().subrange(a as int, z as int); }
impl VBs for [u8] { spec fn bs_(&self) -> Bs { self@ } fn v_slice(&self, a: usize, z: usize) -> &[u8] { vstd::slice::slice_subrange(self, a, z) } }
fn v_is_str(a: &str, b: &str) -> (r: bool) ensures r == (sb(a) == sb(b))
{
    let (x, y) = (a.as_bytes(), b.as_bytes());
    if x.len() != y.len() { return false; }
    let mut i = 0;
    while i < x.len()
        invariant i <= x@.len(), x@.len() == y@.len(), x@ == sb(a), y@ == sb(b), forall|j: int| 0 <= j < i ==> x@[j] == y@[j],
        ensures i == x@.len(),
        decreases x@.len() - i,
    {
        if x[i] != y[i] { return false; }
        i += 1;
    }
    proof { assert(sb(a) =~= sb(b)); }
    true
}
proof fn lemma_bang() ensures sb("![") == seq![33u8, 91u8]
{
    broadcast use group_utf8_lib;
    reveal_strlit("![");
    assert(is_ascii_chars("!["@));
    let x = encode_utf8("!["@);
    assert(x =~= seq![33u8, 91u8]);
}
/// The recognizer reads the rest of line `k` from `x` on.
proof fn lemma_read(b: Bs, q: Sps, h: usize, sa: int, k: int, x: int, v: State, m: int)
    requires 0 <= k, 0 <= lo_of(q, sa, k) <= x <= hi_of(q, h, k) <= b.len(), like(v, run(att_st(b, q, h, sa, k), b, lo_of(q, sa, k), x)), 0 <= m <= hi_of(q, h, k) - x
    ensures ({
        let r = b.subrange(x, hi_of(q, h, k));
        let w = run(v, r, 0, r.len() as int);
        &&& m > 0 && is_done(run(v, r, 0, m)) ==> is_done(run(att_st(b, q, h, sa, k), b, lo_of(q, sa, k), x + m))
        &&& !is_bad(w) && !is_done(w) ==> like(w, att_st(b, q, h, sa, k + 1))
    })
{
    let lo = lo_of(q, sa, k);
    let hi = hi_of(q, h, k);
    let st = att_st(b, q, h, sa, k);
    lemma_run_sub(v, b, x, hi, m);
    lemma_run_sub(v, b, x, hi, hi - x);
    lemma_run_like(v, run(st, b, lo, x), b, x, x + m);
    lemma_run_like(v, run(st, b, lo, x), b, x, hi);
    lemma_run_cat(st, b, lo, x, x + m);
    lemma_run_cat(st, b, lo, x, hi);
}
proof fn lemma_acc(p: Input<'_>, a: AttributesState, sa: int)
    ensures blocks(p.b(), p.ahead@, p.span_line.end, sa, a.valid_lines as int, a.end_attr as int) ==> acc(p, a, sa), acc(p, a, sa) && a.end_attr != sa ==> blocks(p.b(), p.ahead@, p.span_line.end, sa, a.valid_lines as int, a.end_attr as int)
{ reveal(acc_); }
proof fn lemma_at_line(p: Input<'_>, a: AttributesState, sa: int, k: int)
    ensures att_at(p, a, sa, k) == (acc(p, a, sa) && like(vst(a.validator), att_st(p.b(), p.ahead@, p.span_line.end, sa, k)))
{ reveal(read_); }
/// Another block begins.
proof fn lemma_again(st: State) requires is_done(st) ensures like(st0(), st), !is_bad(st0()), !is_done(st0()) {}
proof fn lemma_resumed<'s>(p: Parser<'s>, q: Parser<'s>)
    requires live(p), p.verbatim is None, p.attributes is None, q == (Parser { input: q.input, attributes: q.attributes, ..p }), q.attributes matches Some(a) && elem_ok(p, a.elem_ty, st(p))
    ensures live(q), st(q) == st(p)
{ lemma_live(q, st(p)); }
/// What is known of the input at attributes that start at `sa`.
spec fn att_in(p: Input<'_>, sa: int) -> bool {
    &&& p.wf() && lines_ok(p) && p.lines@.len() > 0 && p.span_line.start <= sa < p.span_line.end && bnd(p.b(), sa)
}
/// Lines before the one in which the blocks end.
proof fn lemma_before(p: Input<'_>, sa: int, k: int, e: int, j: int)
    requires att_in(p, sa), blocks(p.b(), p.ahead@, p.span_line.end, sa, k, e), 0 <= j <= k
    ensures ({
        let st = att_st(p.b(), p.ahead@, p.span_line.end, sa, j);
        &&& resum(st) && !is_bad(st) && !is_done(st) && 0 <= lo_of(p.ahead@, sa, j) <= hi_of(p.ahead@, p.span_line.end, j) <= p.b().len()
        &&& lo_of(p.ahead@, sa, j) < hi_of(p.ahead@, p.span_line.end, j)
        &&& j < k ==> hi_of(p.ahead@, p.span_line.end, j) <= lo_of(p.ahead@, sa, k)
    })
    decreases k - j
{
    reveal(nl_ok);
    let (b, q, h) = (p.b(), p.ahead@, p.span_line.end);
    let st = att_st(b, q, h, sa, j);
    let lo = lo_of(q, sa, j);
    let hi = hi_of(q, h, j);
    if j > 0 { assert(rng_ok(b, q[j - 1])); }
    if j == k { lemma_run_cat(st, b, lo, lo, e); lemma_run_none(st, b, lo); assert(!is_bad(run(st, b, lo, e))) by { lemma_done(run(st, b, lo, e)); } }
    else {
        lemma_before(p, sa, k, e, j + 1);
        lemma_run_cat(st, b, lo, lo, hi);
        lemma_run_none(st, b, lo);
        if j + 1 < k { assert(q[j].end <= q[k - 1].start); }
    }
    if j == 0 { lemma_st0(); } else {
        assert(q[j - 1].start < q[j - 1].end);
        assert(nlq(b, if j == 1 { p.span_line } else { q[j - 2] }, q[j - 1]));
        lemma_run_nl(att_st(b, q, h, sa, j - 1), b, lo_of(q, sa, j - 1), hi_of(q, h, j - 1));
    }
}
/// The attributes of the element at `x` take the place of its placeholder ...
proof fn lemma_ord_hid<'s>(b: Bs, e: Evs<'s>, pos: int, i: int, v: Event<'s>)
    requires ord(b, e, pos), 0 <= i < e.len(), hid(v.kind), in_b(b, v)
    ensures ord(b, e.update(i, v), pos)
{
    reveal(ord);
    let f = e.update(i, v);
    assert forall|k: int| 0 <= k < f.len() implies in_b(b, #[trigger] f[k]) && (!hid(f[k].kind) ==> f[k].span.end <= pos) by { let z = e[k]; }
    assert forall|k: int, j: int| 0 <= k < j < f.len() && !hid((#[trigger] f[k]).kind) && !hid((#[trigger] f[j]).kind) implies f[k].span.end <= f[j].span.start by { let z = e[k]; let y = e[j]; }
}
/// ... and the exclamation mark of the opener comes before.
proof fn lemma_ord_bang<'s>(b: Bs, e: Evs<'s>, pos: int, x: int, m: Event<'s>, v: Event<'s>)
    requires
        ord(b, e, pos), 0 <= x, x + 1 < e.len(), hid(e[x].kind), !hid(e[x + 1].kind), !hid(m.kind), rng_ok(b, m.span), in_b(b, v), !hid(v.kind),
        m.span.start == e[x + 1].span.start, m.span.end <= v.span.start, v.span.end == e[x + 1].span.end,
    ensures ord(b, e.insert(x, m).update(x + 2, v), pos)
{
    reveal(ord);
    let g = e.insert(x, m);
    let f = g.update(x + 2, v);
    assert forall|k: int| 0 <= k < f.len() implies in_b(b, #[trigger] f[k]) && (!hid(f[k].kind) ==> f[k].span.end <= pos) by { let z = e[if k <= x { k } else { k - 1 }]; let w = e[x + 1]; }
    assert forall|k: int, j: int| 0 <= k < j < f.len() && !hid((#[trigger] f[k]).kind) && !hid((#[trigger] f[j]).kind) implies f[k].span.end <= f[j].span.start by {
        let z = e[if k <= x { k } else { k - 1 }]; let y = e[if j <= x { j } else { j - 1 }]; let w = e[x + 1];
        if k < x && j == x { assert(z.span.end <= w.span.start); }
    }
}
/// The element with its attributes: without its string, or as a span.
spec fn elem_set<'s>(e: Evs<'s>, x: int, f: Evs<'s>) -> bool {
    let n = e.len() as int;
    if e[x + 1].kind is Str {
        let d = f.len() - n;
        &&& (d == 0 || d == 1 && f[x].kind is Str) && plain(f[x + d].kind) && (f[x + d].kind is Attributes ==> f[x + d].kind->container)
        &&& f[x + d + 1].kind == EventKind::Enter(Container::Span) && f[n + d - 1].kind == EventKind::Exit(Container::Span)
        &&& (forall|i: int| 0 <= i < x ==> #[trigger] f[i] == e[i]) && (forall|i: int| x + 2 <= i < n - 1 ==> f[i + d] == #[trigger] e[i])
    } else {
        &&& f.len() == n && plain(f[x].kind) && (f[x].kind is Attributes ==> f[x].kind->container) && (forall|i: int| 0 <= i < n && i != x ==> (#[trigger] f[i]).kind == e[i].kind)
        &&& forall|i: int| 0 <= i < x ==> #[trigger] f[i] == e[i]
    }
}
proof fn lemma_elem<'s>(p: Parser<'s>, x: usize, s: St<'s>, q: Parser<'s>)
    requires
        live_s(p, s), p.verbatim is None, elem_ok(p, AttributesElementType::Container { e_placeholder: x }, s), elem_set(p.events@, x as int, q.events@),
        q.openers == p.openers, q.verbatim is None, q.attributes is None,
    ensures live_s(q, s)
{
    let (e, f) = (p.events@, q.events@);
    let n = e.len() as int;
    let y = x as int;
    lemma_segs_eq(e, f, p.openers@, y, s);
    if e[y + 1].kind is Str {
        let d = f.len() - n;
        let g = if d == 0 { f } else { f.remove(y) };
        assert(g.len() == n && g[y] == f[y + d] && g[y + 1] == f[y + d + 1]);
        assert forall|i: int| y + 2 <= i < n - 1 implies #[trigger] g[i] == e[i] by { assert(g[i] == f[i + d]); }
        lemma_contained(e, g, y, n - 1, Container::Span);
        if d == 1 {
            lemma_plain(seq![f[y]], no_st());
            lemma_bal_cat(seq![f[y]], ev(g, y, n));
            assert(ev(f, y, n + 1) =~= seq![f[y]] + ev(g, y, n));
        }
        assert forall|i: int| 0 <= i < f.len() && ((#[trigger] f[i]).kind matches EventKind::Attributes { container: false, .. }) implies i + 1 < f.len() && f[i + 1].kind is Empty by {
            if i < y { let a = e[i]; let c = e[i + 1]; } else { let a = e[i - d]; let c = e[i - d + 1]; assert(i - d >= y + 2 && i - d < n - 1 && f[i] == e[i - d]); assert(c.kind is Empty); assert(i - d + 1 < n - 1); assert(f[i - d + 1 + d] == e[i - d + 1]); }
        }
    } else {
        lemma_back_kinds(ev(e, y, n), ev(f, y, n), no_st());
        assert forall|i: int| 0 <= i < f.len() && ((#[trigger] f[i]).kind matches EventKind::Attributes { container: false, .. }) implies i + 1 < f.len() && f[i + 1].kind is Empty by { let a = e[i]; let c = e[i + 1]; }
    }
    lemma_segs_ext(f, q.openers@, y, f.len() as int, s);
}
/// What the attributes of a word leave: nothing, or their event and a dummy.
proof fn lemma_res_word<'s>(p: Parser<'s>, s: St<'s>, sa: int, ea: int, q: Parser<'s>)
    requires
        live_s(p, s), p.verbatim is None, ord(p.b(), p.events@, sa), last_ok(p.b(), p.events@), sa <= ea, q.openers == p.openers, q.verbatim is None, q.attributes is None, q.b() == p.b(),
        q.events@ == p.events@ || {
            let (n, f) = (p.events@.len() as int, q.events@);
            &&& f.len() == n + 2 && f =~= p.events@.push(f[n]).push(f[n + 1]) && f[n].kind is Attributes && !f[n].kind->container && f[n + 1].kind is Empty
            &&& rng_ok(p.b(), f[n].span) && f[n].span.start == sa && f[n].span.end == ea && f[n + 1].span == f[n].span
        },
    ensures live(q), st(q) == s, ord(q.b(), q.events@, ea), last_ok(q.b(), q.events@)
{
    let (b, e0, f, ops) = (p.b(), p.events@, q.events@, q.openers@);
    let n = e0.len() as int;
    if f.len() > n {
        lemma_segs_eq(e0, f, ops, n, s);
        lemma_plain(ev(f, n, n + 2), no_st());
        lemma_segs_ext(f, ops, n, n + 2, s);
        lemma_ord_push(b, e0, sa, f[n], ea);
        lemma_ord_push(b, e0.push(f[n]), ea, f[n + 1], ea);
        assert forall|i: int| 0 <= i < f.len() && ((#[trigger] f[i]).kind matches EventKind::Attributes { container: false, .. }) implies i + 1 < f.len() && f[i + 1].kind is Empty by { if i < n { let z = e0[i]; let y = e0[i + 1]; } }
    } else { lemma_ord_grow(b, e0, sa, ea); }
    lemma_live(q, s);
}
/// The element at `x` with its attributes `a`, which end at `ea`; a string that opens it is made a span, after the exclamation mark it may start with.
spec fn bang_at(b: Bs, e: Evs<'_>, x: int) -> bool { b.subrange(e[x + 1].span.start as int, e[x + 1].span.end as int) == seq![33u8, 91u8] }
spec fn res_attr<'s>(e: Evs<'s>, x: int, a: Option<Event<'s>>) -> Evs<'s> { match a { Some(v) => e.update(x, v), None => e } }
spec fn bang_ev<'s>(e: Evs<'s>, x: int) -> Event<'s> { Event { kind: EventKind::Str, span: Sp { start: e[x + 1].span.start, end: (e[x + 1].span.start + 1) as usize } } }
spec fn cut_ev<'s>(v: Event<'s>) -> Event<'s> { Event { kind: v.kind, span: Sp { start: (v.span.start + 1) as usize, end: v.span.end } } }
spec fn res_bang<'s>(b: Bs, e: Evs<'s>, x: int) -> Evs<'s> { if bang_at(b, e, x) { e.insert(x, bang_ev(e, x)).update(x + 2, cut_ev(e[x + 1])) } else { e } }
spec fn set_kind<'s>(e: Evs<'s>, i: int, k: EventKind<'s>) -> Evs<'s> { e.update(i, Event { kind: k, span: e[i].span }) }
spec fn res_span<'s>(b: Bs, e: Evs<'s>, x: int) -> Evs<'s> {
    let g = res_bang(b, e, x);
    let y = if bang_at(b, e, x) { x + 1 } else { x };
    set_kind(set_kind(g, y + 1, EventKind::Enter(Container::Span)), g.len() - 1, EventKind::Exit(Container::Span))
}
spec fn set_end<'s>(e: Evs<'s>, ea: usize) -> Evs<'s> { e.update(e.len() - 1, Event { kind: e.last().kind, span: Sp { start: e.last().span.start, end: ea } }) }
spec fn elem_res<'s>(b: Bs, e: Evs<'s>, x: int, a: Option<Event<'s>>, ea: usize) -> Evs<'s> {
    let e1 = res_attr(e, x, a);
    set_end(if e[x + 1].kind is Str { res_span(b, e1, x) } else { e1 }, ea)
}
proof fn lemma_res_elem<'s>(p: Parser<'s>, x: usize, s: St<'s>, sa: int, a: Option<Event<'s>>, ea: usize, q: Parser<'s>)
    requires
        valid_utf8(p.b()),         live_s(p, s), p.verbatim is None, elem_ok(p, AttributesElementType::Container { e_placeholder: x }, s), ord(p.b(), p.events@, sa), sa < ea, rng_ok(p.b(), Sp { start: sa as usize, end: ea }), 0 <= sa,
        a matches Some(v) ==> v.kind is Attributes && v.kind->container && rng_ok(p.b(), v.span),
        q.openers == p.openers, q.verbatim is None, q.attributes is None, q.b() == p.b(), q.events@ == elem_res(p.b(), p.events@, x as int, a, ea),
    ensures live(q), st(q) == s, ord(q.b(), q.events@, ea as int), last_ok(q.b(), q.events@)
{
    let (b, e, f) = (p.b(), p.events@, q.events@);
    let y = x as int;
    let n = e.len() as int;
    let e1 = res_attr(e, y, a);
    if a is Some { lemma_ord_hid(b, e, sa, y, a->0); }
    assert(e1.len() == n && e1[y + 1] == e[y + 1] && e1.last() == e.last());
    let mut g = e1;
    if e[y + 1].kind is Str {
        lemma_ord_at(b, e1, sa, y + 1);
        let bang = bang_at(b, e1, y);
        let z = if bang { y + 1 } else { y };
        g = res_bang(b, e1, y);
        if bang {
            let r = e1[y + 1].span;
            assert(b.subrange(r.start as int, r.end as int).len() == 2);
            assert(b[r.start as int] == b.subrange(r.start as int, r.end as int)[0]);
            lemma_ascii_boundary(b, r.start as int);
            lemma_ord_bang(b, e1, sa, y, bang_ev(e1, y), cut_ev(e1[y + 1]));
        }
        let g1 = set_kind(g, z + 1, EventKind::Enter(Container::Span));
        let g2 = set_kind(g1, g.len() - 1, EventKind::Exit(Container::Span));
        lemma_ord_kinds(b, g, g2, sa);
        assert(res_span(b, e1, y) == g2);
        g = g2;
    }
    lemma_ord_at(b, g, sa, g.len() - 1);
    lemma_ord_last(b, g, sa, f.last(), ea as int);
    lemma_elem(p, x, s, q);
    lemma_live(q, s);
}
@end
@fn Parser::resume_attributes
    attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
    ret r
    req
        old(self).input.wf(), old(self).verbatim is None, old(self).attributes is None, live(*old(self)), elem_ok(*old(self), state.elem_ty, st(*old(self))),
        brace_read(*old(self), opener_eaten), !first ==> old(self).input.ahead@.len() > 0,
        att_at(old(self).input, state, old(self).input.span.end - (if opener_eaten { 1int } else { 0 }), if first { 0 } else { old(self).input.ahead@.len() as int }),
    ens
        att_done(*old(self), *final(self), r),
    case word state.elem_ty is Word
    case elem !(state.elem_ty is Word)
    opt matches slice src_sub m_starts_with m_get fn_min once_chain
    subst /self.input.src[start_attr..].starts_with('{')/self.input.src.v_slice_from(start_attr).v_starts_with('{')/
    subst /v_sub(self.input.src, range) == "!["/v_is_str(v_sub(self.input.src, range), "![")/
    subst /usize::from(opener_eaten)/(if opener_eaten { 1usize } else { 0 })/
    subst /attr::Attributes::new()/v_attributes_new()/
    subst /attrs.is_empty()/v_attributes_empty(&attrs)/
    at start
        hide(run); hide(att_st); hide(like); hide(live); hide(elem_ok); hide(adj); hide(st0); hide(lines_ok); hide(rest);
        let ghost s = st(*self);
        let ghost ty = state.elem_ty;
        let ghost e0 = self.events@;
        let ghost (b, q, h) = (self.b(), self.input.ahead@, self.input.span_line.end);
    at let start_attr after
        let ghost sa = start_attr as int;
        proof { reveal(lines_ok); assert(att_in(self.input, sa)); lemma_at_line(self.input, state, sa, if first { 0 } else { q.len() as int }); }
    at call parse 0 before
        let ghost v0 = vst(state.validator);
        proof {
            let st = att_st(b, q, h, sa, line_next as int);
            lemma_like(v0, st); lemma_run_none(st, b, lo_of(q, sa, line_next as int));
            if line_next > 0 { assert(rng_ok(b, self.input.ahead@[line_next - 1])); }
        }
    at call parse 0 after
        proof {
            lemma_read(b, q, h, sa, line_next as int, line_start as int, v0, if res is Some { res->0 as int } else { 0 });
            if res is Some && res->0 > 0 { lemma_ascii_boundary(b, line_start + res->0 - 1); }
        }
    at loop 0 start
        proof { axiom_dq_len(self.input.ahead); }
    at if 3 before
        proof { lemma_acc(self.input, state, sa); lemma_st0(); }
    at call parse 1 before
        proof { lemma_again(run(att_st(b, q, h, sa, line_next as int), b, lo_of(q, sa, line_next as int), line_start as int)); }
    at call parse 1 after
        proof {
            lemma_read(b, q, h, sa, line_next as int, line_start as int, st0(), if res is Some { res->0 as int } else { 0 });
            if res is Some && res->0 > 0 { lemma_ascii_boundary(b, line_start + res->0 - 1); }
        }
    at call parse 2 before
        let ghost v0 = vst(state.validator);
        proof {
            let st = att_st(b, q, h, sa, line_next as int);
            lemma_like(v0, st); lemma_run_none(st, b, lo_of(q, sa, line_next as int));
            assert(rng_ok(b, self.input.ahead@[line_next - 1]));
        }
    at call parse 2 after
        proof {
            lemma_read(b, q, h, sa, line_next as int, line_start as int, v0, if res is Some { res->0 as int } else { 0 });
            if res is Some && res->0 > 0 { lemma_ascii_boundary(b, line_start + res->0 - 1); }
        }
    loop 0
        invariant_except_break
            line_next <= q.len(), line_end == hi_of(q, h, line_next as int), lo_of(q, sa, line_next as int) <= line_start <= line_end, bnd(b, line_start as int), bnd(b, line_end as int),
            match res { None => like(vst(state.validator), att_st(b, q, h, sa, line_next + 1)), Some(m) => m <= line_end - line_start && (m > 0 ==> b[line_start + m - 1] == b'}' && blocks(b, q, h, sa, line_next as int, line_start + m)) },
        invariant
            old(self).verbatim is None, old(self).attributes is None, live(*old(self)), elem_ok(*old(self), ty, s), s == st(*old(self)), brace_read(*old(self), opener_eaten),
            *self == *old(self), state.elem_ty == ty, acc(self.input, state, sa), sa == start_attr, att_in(self.input, sa), b == self.b(), q == self.input.ahead@, h == self.input.span_line.end,
            sa == old(self).input.span.end - (if opener_eaten { 1int } else { 0 }),
        decreases q.len() - line_next, line_end - line_start,
    at return 0 before
        proof { lemma_resumed(*old(self), *self); lemma_at_line(old(self).input, state, sa, q.len() as int + 1); reveal(lines_ok); assert(self.input.rest() =~= b.subrange(sa, h as int)); }
    at let attrs before
        let ghost (vl, ea) = (state.valid_lines as int, state.end_attr as int);
        proof { lemma_acc(self.input, state, sa); assert(blocks(b, q, h, sa, vl, ea)); reveal(lines_ok); lemma_before(self.input, sa, vl, ea, vl); lemma_st0(); lemma_att_step(b, q, h, sa, 0); if vl > 0 { assert(rng_ok(b, q[vl - 1])); } }
    loop 1
        invariant
            *self == *old(self), att_in(self.input, sa), sa == start_attr, b == self.b(), q == self.input.ahead@, h == self.input.span_line.end, blocks(b, q, h, sa, vl, ea),
            vl == state.valid_lines, ea == state.end_attr, __it1.pos <= __it1.v@.len(), __it1.v@ == seq![Sp { start: start_attr, end: h }] + q.subrange(0, vl),
            __it1.pos <= vl ==> pst(parser) == att_st(b, q, h, sa, __it1.pos as int) && (in_elem(pst(parser)) ==> pels(parser).len() > 0),
        decreases __it1.v@.len() - __it1.pos,
    at loop 1 start
        let ghost j = __it1.pos - 1;
        let ghost st_j = att_st(b, q, h, sa, j);
        proof {
            lemma_before(self.input, sa, vl, ea, j);
            lemma_att_step(b, q, h, sa, j);
            if j > 0 { assert(rng_ok(b, q[j - 1])); assert(line == q[j - 1]); }
            let lo = lo_of(q, sa, j);
            let e1 = if j < vl { hi_of(q, h, j) } else { ea };
            if j < vl { lemma_before(self.input, sa, vl, ea, j + 1); } else { lemma_done(run(st_j, b, lo, e1)); }
            lemma_run_sub(st_j, b, lo, e1, e1 - lo);
            lemma_good(st_j, b.subrange(lo, e1), 0, 0, pels(parser));
            lemma_resum(st_j);
        }
    loop 2
        invariant
            *self == (Parser { input: self.input, ..*old(self) }), self.input.wf(), self.input.src == old(self).input.src, self.input.complete == old(self).input.complete,
            __x2 <= __e2, __e2 == vl, vl <= q.len(), self.input.ahead@ == q.subrange(__x2 as int, q.len() as int), att_in(old(self).input, sa), q == old(self).input.ahead@, b == old(self).b(),
            self.input.span_line == if __x2 == 0 { old(self).input.span_line } else { q[__x2 - 1] }, self.input.lines@.len() >= old(self).input.lines@.len(),
        decreases __e2 - __x2,
    at call pop_front after
        proof {
            assert(self.input.ahead@ =~= q.subrange(__x2 as int, q.len() as int));
            assert(l == q[__x2 - 1]);
            assert(rng_ok(b, l));
            assert forall|i: int| 0 <= i < self.input.ahead@.len() implies rng_ok(b, #[trigger] self.input.ahead@[i]) by { assert(rng_ok(b, q[i + __x2])); }
        }
    at let attr_event before
        proof {
            assert(self.input.rest() =~= b.subrange(ea, self.input.span_line.end as int));
            reveal(nl_ok); reveal(lines_ok);
            assert forall|i: int| 0 <= i < self.input.ahead@.len() implies rng_ok(b, #[trigger] self.input.ahead@[i]) by { assert(rng_ok(b, q[i + vl])); }
            assert(lines_ok(self.input));
            assert(self.input.wf());
            axiom_dq_len(self.events);
        }
        proof {
            assert(ty matches AttributesElementType::Container { e_placeholder: x } ==> x + 2 <= e0.len() && (e0[x + 1].kind is Str ==> x + 3 <= e0.len())) by { reveal(elem_ok); }
            assert(live_s(*old(self), s)) by { reveal(live); }
            assert(ord(b, e0, sa) && last_ok(b, e0));
            if ty is Container { lemma_ord_at(b, e0, sa, ty->e_placeholder + 1); }
            lemma_bang();
        }
    at let start after
        proof {
            let r = e0[e_placeholder + 1].span;
            let z = b.subrange(r.start as int, r.end as int);
            assert(r.start == start && z == seq![33u8, 91u8]);
            assert(rng_ok(b, r));
            assert(z.len() == r.end - r.start);
            assert(seq![33u8, 91u8].len() == 2 && seq![33u8, 91u8][0] == 33u8);
            assert(z[0] == b[r.start as int]);
            lemma_ascii_boundary(b, start as int);
            axiom_dq_len(self.events);
        }
    at let attr_event after
        let ghost av = attr_event;
    at end
        proof {
            match ty {
                AttributesElementType::Word => { lemma_res_word(*old(self), s, sa, ea, *self); }
                AttributesElementType::Container { e_placeholder: x } => {
                    assert(self.events@ =~= elem_res(b, e0, x as int, av, ea as usize));
                    lemma_res_elem(*old(self), x, s, sa, av, ea as usize, *self);
                }
            }
        }
@end
@fn Parser::ahead_attributes
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    ret r
    req
        old(self).input.wf(), old(self).verbatim is None, old(self).attributes is None, live(*old(self)), elem_ok(*old(self), elem_ty, st(*old(self))),
        brace_read(*old(self), opener_eaten),
    ens
        att_done(*old(self), *final(self), r),
    subst /self.resume_attributes(/({ proof { lemma_att_first(self.input, state, state.end_attr as int); } self }).resume_attributes(/
    subst /usize::from(opener_eaten)/(if opener_eaten { 1usize } else { 0 })/
@end
@raw
type Ops = vstd::seq::Seq<(Opener, usize)>;
/// The events from the start of opener `k` on are replaced by well-nested ones.
proof fn lemma_closed<'s>(e: Evs<'s>, all: Ops, n: int, s: St<'s>, k: int, f: Evs<'s>)
    requires
        segs(e, all, n, s), 0 <= k < all.len(), op_lo(all[k]) <= f.len(), forall|i: int| 0 <= i < op_lo(all[k]) ==> #[trigger] f[i] == e[i],
        bal(ev(f, op_lo(all[k]), f.len() as int)),
    ensures segs(f, all.subrange(0, k), f.len() as int, s)
{
    lemma_segs_cut(e, all, n, s, k);
    lemma_segs_eq(e, f, all.subrange(0, k), op_lo(all[k]), s);
    lemma_segs_ext(f, all.subrange(0, k), op_lo(all[k]), f.len() as int, s);
}
/// `f[x]` is plain, and the others from `x` on to `y` as in `e`; after it comes `f[y]`.
spec fn same_mid<'s>(e: Evs<'s>, f: Evs<'s>, x: int, y: int) -> bool {
    f.len() == y + 1 && y <= e.len() && 0 <= x < y && plain(f[x].kind) && forall|i: int| x + 2 <= i < y ==> #[trigger] f[i] == e[i]
}
/// An opener is closed by a container around what follows it.
proof fn lemma_contained<'s>(e: Evs<'s>, f: Evs<'s>, x: int, y: int, c: Container<'s>)
    requires same_mid(e, f, x, y), x + 2 <= y, bal(ev(e, x + 2, y)), f[x + 1].kind == EventKind::Enter(c), f[y].kind == EventKind::Exit(c)
    ensures bal(ev(f, x, y + 1))
{
    let m = ev(e, x + 2, y);
    lemma_wrap(f[x + 1], m, f[y], c);
    lemma_plain(seq![f[x]], no_st());
    lemma_bal_cat(seq![f[x]], seq![f[x + 1]] + m + seq![f[y]]);
    assert(ev(f, x, y + 1) =~= seq![f[x]] + (seq![f[x + 1]] + m + seq![f[y]]));
}
/// ... or by plain events.
proof fn lemma_quoted<'s>(e: Evs<'s>, f: Evs<'s>, x: int, y: int)
    requires same_mid(e, f, x, y), x + 2 <= y, bal(ev(e, x + 2, y)), plain(f[x + 1].kind), plain(f[y].kind)
    ensures bal(ev(f, x, y + 1))
{
    let m = ev(e, x + 2, y);
    let a = seq![f[x], f[x + 1]];
    lemma_plain(a, no_st());
    lemma_plain(seq![f[y]], no_st());
    lemma_bal_cat(a, m);
    lemma_bal_cat(a + m, seq![f[y]]);
    assert(ev(f, x, y + 1) =~= a + m + seq![f[y]]);
}
spec fn opener_is_span(o: Opener) -> bool { o is Span }
/// The text of a link is closed, its destination opened.
spec fn link_opened<'s>(e: Evs<'s>, x: int, f: Evs<'s>, ops: Ops, o: (Opener, usize), now: Ops) -> bool {
    &&& 0 <= x && x + 2 <= e.len() && f.len() == e.len() + 2 && forall|i: int| 0 <= i < e.len() ==> #[trigger] f[i] == e[i]
    &&& f[e.len() as int].kind is Str && f[e.len() as int + 1].kind is Str && e[x].kind is Placeholder && e[x + 1].kind is Str
    &&& now == ops.push(o) && o.1 == e.len() + 1 && (o.0 matches Opener::Link { event_span, .. } && event_span == x + 1)
    &&& bal(ev(e, x + 2, e.len() as int))
}
proof fn lemma_link_opened<'s>(e: Evs<'s>, x: int, f: Evs<'s>, ops: Ops, o: (Opener, usize), now: Ops, s: St<'s>)
    requires link_opened(e, x, f, ops, o, now), segs(e, ops, x, s)
    ensures segs(f, now, f.len() as int, s)
{ reveal(segs);
    lemma_segs_eq(e, f, ops, x, s);
    assert(now.drop_last() =~= ops);
    assert(ev(e, x + 2, e.len() as int) =~= ev(f, x + 2, o.1 - 1));
    lemma_plain(ev(f, op_hi(o), f.len() as int), no_st());
}
@end
@raw
/// The token is at the start of the current span.
spec fn tok_at(p: Parser<'_>, t: Token) -> bool {
    p.input.lines@.len() > 0 && p.input.span.end <= p.input.span_line.end && tok_ok(p.b().subrange(p.input.span.start as int, p.input.span_line.end as int), 0, t)
        && (p.input.span.end == p.input.span.start + t.len || t.kind == Kind::Open(Delimiter::Bracket) && p.input.span.end == p.input.span.start + 2)
}
@end
@fn Parser::parse_container#1
    rename parse_container__close
    params &mut self, first: &lex::Token, o: usize
    ret r: Option<ControlFlow>
    req
        old(self).input.wf(), o < old(self).openers@.len(), old(self).verbatim is None, old(self).attributes is None, live(*old(self)),
        closes(first.kind, old(self).openers@[o as int].0), in_order_cur(*old(self)),
        old(self).input.span.start < old(self).input.span.end, tok_at(*old(self), *first),
    ens
        r is None ==> *final(self) == *old(self), r is Some ==> in_order(*final(self)),
        keeps(*old(self), *final(self)), final(self).input.wf(), final(self).verbatim is None, att_new(*final(self)),
        r matches Some(c) ==> (c is Continue || c is More) && (c is More <==> final(self).attributes is Some),
    case link old(self).openers@[o as int].0 is Link
    case span old(self).openers@[o as int].0 is Span
    case quote old(self).openers@[o as int].0 is SingleQuoted || old(self).openers@[o as int].0 is DoubleQuoted
    case cont !(old(self).openers@[o as int].0 is Link) && !(old(self).openers@[o as int].0 is Span) && !(old(self).openers@[o as int].0 is SingleQuoted || old(self).openers@[o as int].0 is DoubleQuoted)
    opt m_is_empty m_get m_drain m_or havoc_spec matches src_sub opt_map
    at start
        let ghost s = st(*self);
        let ghost n = self.len_ev();
        let ghost e0 = self.events@;
        let ghost ops = self.openers@.subrange(0, o as int);
        let ghost all = self.openers@;
        let ghost x = op_lo(self.openers@[o as int]);
        let ghost mut linked = false;
        proof { axiom_dq_len(self.events); lemma_segs_cut(e0, self.openers@, n, s, o as int); }
    at call reset_span before
        proof { linked = true; }
    at let closed after
        let ghost f = self.events@;
        proof {
            let hi = op_hi(all[o as int]);
            let bs = self.b();
            let p0 = old(self).input.span.start as int;
            match opener {
                Opener::Link { event_span, .. } => {
                    assert(f.len() == e);
                    let g = e0.update(event_span as int, f[event_span as int]);
                    let h = g.subrange(0, e as int);
                    lemma_ord_at(bs, e0, p0, e - 1);
                    lemma_ord_kinds(bs, e0, g, p0);
                    lemma_ord_cut(bs, g, p0, e as int);
                    lemma_ord_last(bs, h, p0, f[e - 1], p0 + 1);
                    assert(f =~= h.update(e - 1, f[e - 1]));
                    lemma_contained(e0, f, x, e - 1, f[event_span as int].kind->Enter_0);
                }
                Opener::Span(_) | Opener::SingleQuoted | Opener::DoubleQuoted => { lemma_quoted(e0, f, x, n); }
                _ => { lemma_contained(e0, f, x, n, f[x + 1].kind->Enter_0); }
            }
            if !(opener is Link) {
                let g = e0.update(x + 1, f[x + 1]);
                lemma_ord_kinds(bs, e0, g, p0);
                lemma_ord_push(bs, g, p0, f[n], self.input.span.end as int);
                assert(f =~= g.push(f[n]));
            }
            lemma_closed(e0, all, n, s, o as int, f);
            lemma_segs_eq(e0, f, ops, x, s);
            if opener_is_span(opener) { assert(ev(f, x + 2, n) =~= ev(e0, x + 2, n)); }
            lemma_live(*self, s);
            assert(self.openers@ =~= ops);
            assert(!(opener is SingleQuoted) && !(opener is DoubleQuoted) ==> elem_ok(*self, AttributesElementType::Container { e_placeholder: x as usize }, s));
        }
    at exit
        proof {
            if linked {
                assert(self.openers@.drop_last() =~= ops && self.openers@ =~= ops.push(self.openers@.last()));
                let p0 = old(self).input.span.start as int;
                let f = self.events@;
                lemma_ord_push(self.b(), e0, p0, f[n], old(self).input.span.end as int);
                lemma_ord_push(self.b(), e0.push(f[n]), old(self).input.span.end as int, f[n + 1], self.input.span.end as int);
                assert(f =~= e0.push(f[n]).push(f[n + 1]));
                lemma_link_opened(e0, x, self.events@, ops, self.openers@.last(), self.openers@, s);
                lemma_live(*self, s);
            }
        }
@end
@raw
/// An opener and its two events are added.
proof fn lemma_opened<'s>(e: Evs<'s>, f: Evs<'s>, ops: Ops, o: (Opener, usize), s: St<'s>)
    requires
        segs(e, ops, e.len() as int, s), f.len() == e.len() + 2, forall|i: int| 0 <= i < e.len() ==> #[trigger] f[i] == e[i],
        !(o.0 is Link), o.1 == e.len(), op_ok(f, o),
    ensures segs(f, ops.push(o), f.len() as int, s)
{
    reveal(segs);
    lemma_segs_eq(e, f, ops, e.len() as int, s);
    assert(ops.push(o).drop_last() =~= ops);
    lemma_plain(ev(f, op_hi(o), f.len() as int), no_st());
}
@end
@fn Parser::parse_container#5
    rename parse_container__open
    params &mut self, first: &lex::Token
    ret r: Option<ControlFlow>
    req
        old(self).input.wf(), old(self).verbatim is None, old(self).attributes is None, live(*old(self)),
        in_order_cur(*old(self)), old(self).input.span.start < old(self).input.span.end,
    ens
        keeps(*old(self), *final(self)), final(self).input.wf(), final(self).verbatim is None, final(self).attributes is None,
        r is None ==> *final(self) == *old(self), r is Some ==> in_order(*final(self)) && r->0 is Continue,
        // an opener and the events that stand for it
        r is Some ==> final(self).openers@.len() > 0 && opens(first.kind, final(self).openers@.last().0) && final(self).input == old(self).input,
    opt matches m_back
    at start
        let ghost s = st(*self);
        let ghost e0 = self.events@;
        let ghost all = self.openers@;
    at exit
        proof {
            if __rv is Some {
                let f = self.events@;
                let n = e0.len() as int;
                lemma_ord_push(self.b(), e0, self.input.span.start as int, f[n], self.input.span.start as int);
                lemma_ord_push(self.b(), e0.push(f[n]), self.input.span.start as int, f[n + 1], self.input.span.end as int);
                assert(f =~= e0.push(f[n]).push(f[n + 1]));
                lemma_opened(e0, self.events@, all, self.openers@.last(), s);
                lemma_live(*self, s);
            }
        }
@end
@fn Parser::parse_container
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    ret r
    req
        old(self).input.wf(), old(self).verbatim is None, old(self).attributes is None, live(*old(self)),
        in_order_cur(*old(self)), old(self).input.span.start < old(self).input.span.end, tok_at(*old(self), *first),
    ens
        keeps(*old(self), *final(self)), final(self).input.wf(), final(self).verbatim is None,
        r is None ==> *final(self) == *old(self), r is Some ==> in_order(*final(self)), att_new(*final(self)),
        r matches Some(c) ==> (c is Continue || c is More) && (c is More <==> final(self).attributes is Some),
    opt iter_rposition opt_and_then
    loop 0
        invariant_except_break
            __r0 is None, forall|i: int| __n0 <= i < self.openers@.len() ==> !closes(first.kind, (#[trigger] self.openers@[i]).0),
        invariant
            *self == *old(self), 0 <= __n0 <= self.openers@.len(),
        ensures
            __r0 matches Some(k) ==> 0 <= k < self.openers@.len() && closes(first.kind, self.openers@[k as int].0)
                && forall|i: int| k < i < self.openers@.len() ==> !closes(first.kind, (#[trigger] self.openers@[i]).0),
            __r0 is None ==> forall|i: int| 0 <= i < self.openers@.len() ==> !closes(first.kind, (#[trigger] self.openers@[i]).0),
        decreases __n0,
    at closure 1 replace
        self.parse_container__close(first, o)
    at closure 5 replace
        self.parse_container__open(first)
@end
@raw
/// A shorter last event.
proof fn lemma_ord_shrink<'s>(b: Bs, e: Evs<'s>, pos: int, v: Event<'s>)
    requires ord(b, e, pos), e.len() > 0, in_b(b, v), !hid(e.last().kind), v.kind == e.last().kind, v.span.start == e.last().span.start, v.span.end <= e.last().span.end
    ensures ord(b, e.update(e.len() - 1, v), v.span.end as int)
{
    reveal(ord);
    let f = e.update(e.len() - 1, v);
    let n = e.len() - 1;
    assert forall|i: int| 0 <= i < f.len() implies in_b(b, #[trigger] f[i]) && (!hid(f[i].kind) ==> f[i].span.end <= v.span.end) by { let z = e[i]; let y = e[n]; }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && !hid((#[trigger] f[i]).kind) && !hid((#[trigger] f[j]).kind) implies f[i].span.end <= f[j].span.start by { let z = e[i]; let y = e[j]; }
}
proof fn lemma_ord_grow<'s>(b: Bs, e: Evs<'s>, pos: int, q: int)
    requires ord(b, e, pos), pos <= q
    ensures ord(b, e, q)
{ reveal(ord); }
/// The same kinds of events.
proof fn lemma_segs_kinds<'s>(e: Evs<'s>, f: Evs<'s>, ops: Ops, n: int, s: St<'s>)
    requires segs(e, ops, n, s), n <= f.len(), forall|i: int| 0 <= i < n ==> (#[trigger] f[i]).kind == e[i].kind
    ensures segs(f, ops, n, s)
    decreases ops.len()
{
    reveal(segs);
    if ops.len() == 0 { lemma_back_kinds(ev(e, 0, n), ev(f, 0, n), no_st()); } else {
        let o = ops.last();
        lemma_back_kinds(ev(e, op_hi(o), n), ev(f, op_hi(o), n), no_st());
        match o.0 { Opener::Link { event_span, .. } => { lemma_back_kinds(ev(e, event_span + 1, o.1 - 1), ev(f, event_span + 1, o.1 - 1), no_st()); } _ => {} }
        lemma_segs_kinds(e, f, ops.drop_last(), op_lo(o), s);
    }
}
/// Verbatim text is closed.
proof fn lemma_verb_closed<'s>(f: Evs<'s>, ops: Ops, x: int, s: St<'s>)
    requires
        1 <= x && x + 1 < f.len(), segs(f, ops, x - 1, s), f[x - 1].kind is Placeholder, f[x].kind is Enter, f.last().kind == EventKind::Exit(f[x].kind->Enter_0),
        forall|i: int| x < i < f.len() - 1 ==> (#[trigger] f[i]).kind is Str,
    ensures segs(f, ops, f.len() as int, s), bal(ev(f, x - 1, f.len() as int))
{
    let n = f.len() as int;
    lemma_plain(ev(f, x + 1, n - 1), no_st());
    lemma_plain(seq![f[x - 1]], no_st());
    lemma_wrap(f[x], ev(f, x + 1, n - 1), f[n - 1], f[x].kind->Enter_0);
    lemma_bal_cat(seq![f[x - 1]], seq![f[x]] + ev(f, x + 1, n - 1) + seq![f[n - 1]]);
    assert(ev(f, x - 1, n) =~= seq![f[x - 1]] + (seq![f[x]] + ev(f, x + 1, n - 1) + seq![f[n - 1]]));
    lemma_segs_ext(f, ops, x - 1, n, s);
}
spec fn ends_verb(v: VerbatimState, t: Token) -> bool { t.kind == Kind::Seq(Sequence::Backtick) && t.len == v.len_opener }
@end
@fn Parser::parse_verbatim
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    ret r
    req
        just_read(*old(self), *first), live(*old(self)), in_order_cur(*old(self)), first.len >= 1,
    ens
        final(self).input.wf(), keeps(*old(self), *final(self)),
        r is None <==> old(self).verbatim is None && !(first.kind == Kind::Seq(Sequence::Backtick) && first.len <= 255),
        r is None ==> *final(self) == *old(self),
        r is Some ==> in_order(*final(self)) && att_new(*final(self)),
        r matches Some(c) ==> (c is Continue || c is More) && (c is More <==> final(self).attributes is Some),
        // the end of verbatim text, and text inside it
        old(self).verbatim matches Some(v) ==> if ends_verb(v, *first) { final(self).verbatim is None } else {
            &&& final(self).verbatim matches Some(w) && w.event_opener == v.event_opener && w.len_opener == v.len_opener
            &&& final(self).events@ == old(self).events@.push(Event { kind: EventKind::Str, span: old(self).input.span })
                || final(self).events == old(self).events && forall|i: int| old(self).input.span.start <= i < old(self).input.span.end ==> ascii_ws(#[trigger] old(self).b()[i])
        },
        // the start
        old(self).verbatim is None && r is Some ==> {
            &&& final(self).verbatim matches Some(v) && v.len_opener == first.len && v.event_opener + 1 == final(self).len_ev()
            &&& final(self).events@.last().kind matches EventKind::Enter(c) && (c is Verbatim || c is InlineMath || c is DisplayMath)
            &&& final(self).input.lexer.verbatim && final(self).input.span.end == old(self).input.span.end
        },
    case close old(self).verbatim is Some && ends_verb(old(self).verbatim->0, *first)
    case cont old(self).verbatim is Some && !ends_verb(old(self).verbatim->0, *first)
    case open old(self).verbatim is None
    opt matches src_sub m_len m_back m_drain m_or opt_and_then opt_filter iter_all
    at assign self.input.span before
        proof { lemma_ascii_boundary(self.b(), border as int); }
    at exit
        let ghost z = self.events@;
        proof {
            let bs = self.b();
            let p0 = old(self).input.span.start as int;
            let p1 = old(self).input.span.end as int;
            let n = e0.len() as int;
            if old(self).verbatim is Some && !ends_verb(old(self).verbatim->0, *first) {
                let x = old(self).verbatim->0.event_opener as int;
                if z.len() == n {
                    lemma_ord_grow(bs, e0, p0, p1);
                    assert forall|i: int| p0 <= i < p1 implies ascii_ws(#[trigger] bs[i]) by { assert(r[i - p0] == bs[i]); }
                } else {
                    lemma_ord_push(bs, e0, p0, z[n], p1);
                    assert(z =~= e0.push(z[n]));
                }
                lemma_segs_eq(e0, z, self.openers@, x - 1, s);
                lemma_live(*self, s);
            }
            if old(self).verbatim is None && __rv is Some {
                let g = z.subrange(0, n);
                let q = z[n].span.start as int;
                if q == p0 { assert(g =~= e0); } else {
                    lemma_ord_at(bs, e0, p0, n - 1);
                    assert(g[n - 1].kind == e0[n - 1].kind);
                    assert(g[n - 1].span.start == e0[n - 1].span.start && g[n - 1].span.end == q);
                    assert(bnd(bs, q));
                    lemma_ord_shrink(bs, e0, p0, g[n - 1]);
                    assert(g =~= e0.update(n - 1, g[n - 1]));
                }
                lemma_ord_push(bs, g, q, z[n], q);
                lemma_ord_push(bs, g.push(z[n]), q, z[n + 1], p1);
                assert(z =~= g.push(z[n]).push(z[n + 1]));
                assert forall|i: int| 0 <= i < n implies (#[trigger] z[i]).kind == e0[i].kind by { let w = g[i]; }
                lemma_segs_kinds(e0, z, self.openers@, n, s);
                lemma_live(*self, s);
            }
        }
    at assign self.verbatim 0 after
        let ghost f = self.events@;
        proof {
            let v = old(self).verbatim->0;
            let x = v.event_opener as int;
            let p0 = old(self).input.span.start as int;
            let g = e0.update(x, f[x]);
            lemma_ord_kinds(self.b(), e0, g, p0);
            lemma_ord_cut(self.b(), g, p0, f.len() - 1);
            lemma_ord_push(self.b(), g.subrange(0, f.len() - 1), p0, f.last(), self.input.span.end as int);
            assert(f =~= g.subrange(0, f.len() - 1).push(f.last()));
            lemma_segs_eq(e0, f, self.openers@, x - 1, s);
            lemma_verb_closed(f, self.openers@, x, s);
            lemma_live(*self, s);
        }
    loop 0
        invariant_except_break
            __r0, forall|i: int| 0 <= i < it_pos(__it0, r) ==> ascii_ws(#[trigger] r[i]),
        invariant
            r.len() <= 0x7fff_ffff, it_ok(__it0, r), 0 <= it_pos(__it0, r) <= r.len(),
        ensures
            __r0 ==> forall|i: int| 0 <= i < r.len() ==> ascii_ws(#[trigger] r[i]),
        decreases __it0.decrease()->0,
    subst /self.events.back_mut().unwrap().span/let __z = self.events.len() - 1; self.events[__z].span/
    at start
        let ghost s = st(*self);
        let ghost e0 = self.events@;
        let ghost r = self.b().subrange(self.input.span.start as int, self.input.span.end as int);
        proof { axiom_dq_len(self.events); if e0.len() > 0 && !hid(e0.last().kind) { lemma_ord_at(self.b(), e0, self.input.span.start as int, e0.len() - 1); } }
@end
@raw
/// `s.bytes().rposition(f)`
fn v_bytes_rposition<F: Fn(u8) -> bool>(s: &&str, f: F) -> (r: Option<usize>)
    requires forall|c: u8| #[trigger] f.requires((c,))
    ensures
        r matches Some(i) ==> i < sb(*s).len() && f.ensures((sb(*s)[i as int],), true) && forall|j: int| i < j < sb(*s).len() ==> f.ensures((#[trigger] sb(*s)[j],), false),
        r is None ==> forall|j: int| 0 <= j < sb(*s).len() ==> f.ensures((#[trigger] sb(*s)[j],), false),
{
    let b = s.as_bytes();
    let mut n = b.len();
    while n > 0
        invariant n <= b.len(), b@ == sb(*s), forall|c: u8| #[trigger] f.requires((c,)), forall|j: int| n <= j < b.len() ==> f.ensures((#[trigger] b@[j],), false),
        decreases n
    {
        n -= 1;
        if f(b[n]) { return Some(n); }
    }
    None
}
/// The event in front of the others.
spec fn cons<'s>(e: Event<'s>, q: Evs<'s>) -> Evs<'s> { seq![e] + q }
/// The text `all[0]` and events after it become `r` and the events left.
spec fn merged<'s>(a: Parser<'s>, b: Parser<'s>, all: Evs<'s>, r: Event<'s>) -> bool {
    let new = cons(r, b.events@);
    &&& b.input == a.input && same_rest(a, b) && adj(b.events@)
    &&& forall|s: St<'s>| back(new, s) == #[trigger] back(all, s)
    &&& forall|pos: int| #[trigger] ord(a.b(), all, pos) ==> if r.kind is Attributes { ord(a.b(), b.events@, pos) && rng_ok(a.b(), r.span) } else { ord(a.b(), new, pos) }
}
proof fn lemma_back_cons<'s>(e: Event<'s>, q: Evs<'s>, s: St<'s>)
    requires plain(e.kind)
    ensures back(cons(e, q), s) == back(q, s)
{
    lemma_back_cat(seq![e], q, s);
    match back(q, s) { Some(t) => lemma_plain(seq![e], t), None => {} }
}
proof fn lemma_ord_cons<'s>(b: Bs, v: Event<'s>, q: Evs<'s>, pos: int)
    requires
        ord(b, q, pos), in_b(b, v), hid(v.kind) || v.span.end <= pos,
        hid(v.kind) || forall|j: int| 0 <= j < q.len() && !hid((#[trigger] q[j]).kind) ==> v.span.end <= q[j].span.start,
    ensures ord(b, cons(v, q), pos)
{
    reveal(ord);
    let f = cons(v, q);
    assert forall|i: int| 0 <= i < f.len() implies in_b(b, #[trigger] f[i]) && (!hid(f[i].kind) ==> f[i].span.end <= pos) by { if i > 0 { let z = q[i - 1]; } }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && !hid((#[trigger] f[i]).kind) && !hid((#[trigger] f[j]).kind) implies f[i].span.end <= f[j].span.start by { let y = q[j - 1]; if i > 0 { let z = q[i - 1]; } }
}
proof fn lemma_ord_tail<'s>(b: Bs, v: Event<'s>, q: Evs<'s>, pos: int)
    requires ord(b, cons(v, q), pos)
    ensures
        ord(b, q, pos), in_b(b, v), hid(v.kind) || v.span.end <= pos,
        hid(v.kind) || forall|j: int| 0 <= j < q.len() && !hid((#[trigger] q[j]).kind) ==> v.span.end <= q[j].span.start,
{
    reveal(ord);
    let f = cons(v, q);
    assert(f[0] == v);
    assert forall|i: int| 0 <= i < q.len() implies in_b(b, #[trigger] q[i]) && (!hid(q[i].kind) ==> q[i].span.end <= pos) && (!hid(q[i].kind) && !hid(v.kind) ==> v.span.end <= q[i].span.start) by { let z = f[i + 1]; }
    assert forall|i: int, j: int| 0 <= i < j < q.len() && !hid((#[trigger] q[i]).kind) && !hid((#[trigger] q[j]).kind) implies q[i].span.end <= q[j].span.start by { let z = f[i + 1]; let y = f[j + 1]; }
}
spec fn text<'s>(i: usize, j: usize) -> Event<'s> { Event { kind: EventKind::Str, span: Sp { start: i, end: j } } }
proof fn lemma_ord_split<'s>(b: Bs, i: usize, k: usize, j: usize, q: Evs<'s>, pos: int)
    requires ord(b, cons(text(i, j), q), pos), i <= k <= j, bnd(b, k as int)
    ensures ord(b, cons(text(i, k), cons(text(k, j), q)), pos)
{
    lemma_ord_tail(b, text(i, j), q, pos);
    lemma_ord_cons(b, text(k, j), q, pos);
    let p = cons(text(k, j), q);
    assert forall|x: int| 0 <= x < p.len() && !hid((#[trigger] p[x]).kind) implies k <= p[x].span.start by { if x > 0 { let z = q[x - 1]; } }
    lemma_ord_cons(b, text(i, k), p, pos);
}
proof fn lemma_ord_join<'s>(b: Bs, i: usize, k: usize, v: Event<'s>, q: Evs<'s>, pos: int)
    requires ord(b, cons(text(i, k), cons(v, q)), pos), v.span.start == k, !hid(v.kind) || v.kind is Placeholder
    ensures ord(b, cons(text(i, v.span.end), q), pos)
{
    lemma_ord_tail(b, text(i, k), cons(v, q), pos);
    lemma_ord_tail(b, v, q, pos);
    let f = cons(v, q);
    assert(f[0] == v);
    lemma_ord_at(b, f, pos, 0);
    assert forall|j: int| 0 <= j < q.len() && !hid((#[trigger] q[j]).kind) implies v.span.end <= q[j].span.start by { assert(f[j + 1] == q[j]); }
    lemma_ord_cons(b, text(i, v.span.end), q, pos);
}
#[verifier::opaque]
spec fn same_evs<'s>(b: Bs, x: Evs<'s>, y: Evs<'s>) -> bool {
    (forall|s: St<'s>| back(y, s) == #[trigger] back(x, s)) && forall|pos: int| #[trigger] ord(b, x, pos) ==> ord(b, y, pos)
}
proof fn lemma_same_join<'s>(b: Bs, all: Evs<'s>, i: usize, k: usize, v: Event<'s>, q: Evs<'s>)
    requires same_evs(b, all, cons(text(i, k), cons(v, q))), v.span.start == k, v.kind is Str || v.kind is Placeholder
    ensures same_evs(b, all, cons(text(i, v.span.end), q))
{
    reveal(same_evs);
    assert forall|pos: int| #[trigger] ord(b, all, pos) implies ord(b, cons(text(i, v.span.end), q), pos) by { lemma_ord_join(b, i, k, v, q, pos); }
    assert forall|s: St<'s>| back(cons(text(i, v.span.end), q), s) == #[trigger] back(all, s) by {
        lemma_back_cons(text(i, k), cons(v, q), s); lemma_back_cons(v, q, s); lemma_back_cons(text(i, v.span.end), q, s);
    }
}
proof fn lemma_adj_tail<'s>(v: Event<'s>, q: Evs<'s>)
    requires adj(cons(v, q))
    ensures adj(q)
{
    let p = cons(v, q);
    assert forall|x: int| 0 <= x < q.len() && ((#[trigger] q[x]).kind matches EventKind::Attributes { container: false, .. }) implies x + 1 < q.len() && q[x + 1].kind is Empty by { let z = p[x + 1]; assert(q[x + 1] == p[x + 2]); }
}
/// Text `i..j`, attributes and a dummy become a container of the text.
proof fn lemma_word<'s>(b: Bs, i: usize, j: usize, a: Event<'s>, m: Event<'s>, q: Evs<'s>, pos: int, s: St<'s>)
    requires ord(b, cons(text(i, j), cons(a, cons(m, q))), pos), a.kind matches EventKind::Attributes { container: false, .. }, m.kind is Empty
    ensures ({
        let x = Event { kind: EventKind::Enter(Container::Span), span: Sp { start: i, end: i } };
        let y = Event { kind: EventKind::Exit(Container::Span), span: a.span };
        &&& ord(b, cons(x, cons(text(i, j), cons(y, q))), pos)
        &&& back(cons(a, cons(x, cons(text(i, j), cons(y, q)))), s) == back(cons(text(i, j), cons(a, cons(m, q))), s)
        &&& back(cons(a, cons(m, q)), s) == back(cons(text(i, j), cons(a, cons(m, q))), s)
        &&& ord(b, cons(m, q), pos) && rng_ok(b, a.span)
    })
{
    let x = Event { kind: EventKind::Enter(Container::Span), span: Sp { start: i, end: i } };
    let y = Event { kind: EventKind::Exit(Container::Span), span: a.span };
    let t = text(i, j);
    lemma_ord_tail(b, t, cons(a, cons(m, q)), pos);
    lemma_ord_tail(b, a, cons(m, q), pos);
    lemma_ord_tail(b, m, q, pos);
    assert(cons(a, cons(m, q))[0] == a);
    let r0 = cons(m, q);
    assert forall|k: int| 0 <= k < q.len() && !hid((#[trigger] q[k]).kind) implies a.span.end <= q[k].span.start by { assert(r0[k + 1] == q[k]); }
    lemma_ord_cons(b, y, q, pos);
    let q1 = cons(y, q);
    assert forall|k: int| 0 <= k < q1.len() && !hid((#[trigger] q1[k]).kind) implies j <= q1[k].span.start by { if k > 0 { let z = q[k - 1]; } }
    lemma_ord_cons(b, t, q1, pos);
    let q2 = cons(t, q1);
    assert forall|k: int| 0 <= k < q2.len() && !hid((#[trigger] q2[k]).kind) implies i <= q2[k].span.start by { if k > 0 { let z = q1[k - 1]; } }
    lemma_ord_cons(b, x, q2, pos);
    lemma_back_cons(t, cons(a, cons(m, q)), s);
    lemma_back_cons(a, cons(m, q), s);
    lemma_back_cons(m, q, s);
    let w = seq![x] + seq![t] + seq![y];
    lemma_plain(seq![t], no_st());
    lemma_wrap(x, seq![t], y, Container::Span);
    assert(cons(x, q2) =~= w + q);
    lemma_back_cat(w, q, s);
    match back(q, s) { Some(u) => lemma_bal(w, u), None => {} }
    lemma_back_cons(a, cons(x, q2), s);
}
/// Text that continues the one before it.
spec fn joins(e: Event<'_>, end: int) -> bool { (e.kind is Str || e.kind is Placeholder) && e.span.start == end }
spec fn end_of(e: Evs<'_>, k: int, end: int) -> int { if k == 0 { end } else { e[k - 1].span.end as int } }
/// The first `k` events continue a text that ends at `end`, one after the other.
#[verifier::opaque]
spec fn run_of(e: Evs<'_>, k: int, end: int) -> bool { 0 <= k <= e.len() && forall|x: int| 0 <= x < k ==> joins(#[trigger] e[x], end_of(e, x, end)) }
proof fn lemma_run(e: Evs<'_>, end: int, k: int)
    ensures run_of(e, 0, end), run_of(e, k, end) && k < e.len() && joins(e[k], end_of(e, k, end)) ==> run_of(e, k + 1, end), run_of(e, k, end) ==> 0 <= k <= e.len()
{ reveal(run_of); }
/// A string at the end stays what it is.
spec fn same_last<'s>(e: Evs<'s>, f: Evs<'s>) -> bool { f.len() > 0 && f.last().kind is Str ==> e.len() > 0 && e.last() == f.last() }
/// All text that can be joined has been.
spec fn all_joined<'s>(e: Evs<'s>, t: Sp, k: int, r: Event<'s>, f: Evs<'s>) -> bool {
    let q = e.subrange(k, e.len() as int);
    let end = end_of(e, k, t.end as int);
    &&& run_of(e, k, t.end as int) && !(q.len() > 0 && joins(q[0], end))
    &&& if word_attr(q) { r == q[0] || r.kind is Str && r.span.start == t.start && f.len() > 0 && f[0].kind is Str && sp(f[0], r.span.end as int, end) }
        else { r.kind is Str && sp(r, t.start as int, end) && f == q }
}
/// `k` events have become part of the text.
#[verifier::opaque]
spec fn merging<'s>(b: Bs, e: Evs<'s>, t: Sp, k: int, end: usize, f: Evs<'s>) -> bool {
    run_of(e, k, t.end as int) && f == e.subrange(k, e.len() as int) && end == end_of(e, k, t.end as int) && adj(f)
        && same_evs(b, cons(text(t.start, t.end), e), cons(text(t.start, end), f))
}
proof fn lemma_merging<'s>(b: Bs, e: Evs<'s>, t: Sp, k: int, end: usize, f: Evs<'s>, q: Evs<'s>)
    requires merging(b, e, t, k, end, f), f.len() > 0, joins(f[0], end as int), q =~= f.subrange(1, f.len() as int)
    ensures merging(b, e, t, k + 1, f[0].span.end, q)
{
    reveal(merging);
    let v = f[0];
    assert(f =~= cons(v, q));
    lemma_same_join(b, cons(text(t.start, t.end), e), t.start, end, v, q);
    lemma_adj_tail(v, q);
    lemma_run(e, t.end as int, k);
    assert(v == e[k]);
    assert(q =~= e.subrange(k + 1, e.len() as int));
}
proof fn lemma_merging_0<'s>(b: Bs, e: Evs<'s>, t: Sp)
    requires adj(e)
    ensures merging(b, e, t, 0, t.end, e)
{ reveal(merging); reveal(same_evs); lemma_run(e, t.end as int, 0); assert(e =~= e.subrange(0, e.len() as int)); }
spec fn word_attr(e: Evs<'_>) -> bool { e.len() > 0 && (e[0].kind matches EventKind::Attributes { container: false, .. }) }
@end
@fn Parser::apply_word_attributes
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    ret r
    req
        valid_utf8(old(self).b()), adj(old(self).events@), word_attr(old(self).events@),
        exists|pos: int| #[trigger] ord(old(self).b(), cons(Event { kind: EventKind::Str, span: span_str }, old(self).events@), pos),
    ens
        same_last(old(self).events@, final(self).events@), r.kind is Str || r.kind is Attributes,
        merged(*old(self), *final(self), cons(Event { kind: EventKind::Str, span: span_str }, old(self).events@), r),
        // text without white space is wrapped in a container for the attributes
        !(r.kind is Str) ==> r == old(self).events@[0],
        !(r.kind is Str) && span_str.start < span_str.end ==> final(self).len_ev() == old(self).len_ev() + 1
            && final(self).events@[0].kind == EventKind::Enter(Container::Span) && final(self).events@[1].span == span_str && final(self).events@[2].kind == EventKind::Exit(Container::Span)
            && forall|i: int| span_str.start <= i < span_str.end ==> !ascii_ws(#[trigger] old(self).b()[i]),
        // otherwise what comes before the last word is text of its own
        r.kind is Str ==> r.span.start == span_str.start && r.span.end > r.span.start && ascii_ws(old(self).b()[r.span.end - 1])
            && final(self).events@[0].kind is Str && sp(final(self).events@[0], r.span.end as int, span_str.end as int) && final(self).len_ev() == old(self).len_ev() + 1,
    opt src_sub fn_bytes_rposition matches m_is_empty
    subst /empty.unwrap().kind == EventKind::Empty/matches!(empty.unwrap().kind, EventKind::Empty)/
    closure 0 |c: u8| -> (b: bool) ensures b == ascii_ws(c)
    at start
        let ghost e0 = self.events@;
        let ghost t = Event { kind: EventKind::Str, span: span_str };
        let ghost all = cons(t, e0);
        let ghost bs = self.b();
        let ghost pp = choose|pos: int| #[trigger] ord(bs, all, pos);
        proof { axiom_dq_len(self.events); lemma_ord_tail(bs, t, e0, pp); assert(t == text(span_str.start, span_str.end)); assert(e0[0].kind is Attributes); }
    at let word_start after
        proof {
            let k = word_start as int - 1;
            assert(bs.subrange(span_str.start as int, span_str.end as int)[i as int] == bs[k]);
            lemma_ascii_boundary(bs, k);
        }
    at exit
        let ghost f = self.events@;
        proof {
            if __rv.kind is Str {
                let k = __rv.span.end;
                assert(__rv == text(span_str.start, k) && f =~= cons(text(k, span_str.end), e0));
                assert forall|pos: int| #[trigger] ord(bs, all, pos) implies ord(bs, cons(__rv, f), pos) by { lemma_ord_split(bs, span_str.start, k, span_str.end, e0, pos); }
                assert forall|s: St<'s>| back(cons(__rv, f), s) == #[trigger] back(all, s) by { lemma_back_cons(__rv, f, s); lemma_back_cons(f[0], e0, s); lemma_back_cons(t, e0, s); }
                assert(adj(f)) by { assert forall|x: int| 0 <= x < f.len() && ((#[trigger] f[x]).kind matches EventKind::Attributes { container: false, .. }) implies x + 1 < f.len() && f[x + 1].kind is Empty by { let z = e0[x - 1]; assert(f[x + 1] == e0[x]); } }
            } else {
                let a = e0[0];
                let m = e0[1];
                let q = e0.subrange(2, e0.len() as int);
                assert(m.kind is Empty);
                assert(e0 =~= cons(a, cons(m, q)));
                let x = Event { kind: EventKind::Enter(Container::Span), span: Sp { start: span_str.start, end: span_str.start } };
                let y = Event { kind: EventKind::Exit(Container::Span), span: a.span };
                assert(f =~= cons(m, q) || f =~= cons(x, cons(t, cons(y, q))));
                assert forall|pos: int| #[trigger] ord(bs, all, pos) implies ord(bs, f, pos) && rng_ok(bs, a.span) by { lemma_word(bs, span_str.start, span_str.end, a, m, q, pos, no_st()); }
                assert forall|s: St<'s>| back(cons(__rv, f), s) == #[trigger] back(all, s) by { lemma_word(bs, span_str.start, span_str.end, a, m, q, pp, s); }
                let d = f.len() - q.len();
                assert(adj(f)) by { assert forall|x: int| 0 <= x < f.len() && ((#[trigger] f[x]).kind matches EventKind::Attributes { container: false, .. }) implies x + 1 < f.len() && f[x + 1].kind is Empty by { assert(f[x] == q[x - d]); let z = e0[x - d + 2]; assert(f[x + 1] == e0[x - d + 3]); } }
                assert forall|i: int| span_str.start <= i < span_str.end implies !ascii_ws(#[trigger] bs[i]) by { let z = bs.subrange(span_str.start as int, span_str.end as int)[i - span_str.start]; }
            }
        }
@end
@fn Parser::merge_str_events
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    ret r
    req
        valid_utf8(old(self).b()), adj(old(self).events@),
        exists|pos: int| #[trigger] ord(old(self).b(), cons(Event { kind: EventKind::Str, span: span_str }, old(self).events@), pos),
    ens
        same_last(old(self).events@, final(self).events@), r.kind is Str || r.kind is Attributes,
        merged(*old(self), *final(self), cons(Event { kind: EventKind::Str, span: span_str }, old(self).events@), r),
        exists|k: int| #[trigger] all_joined(old(self).events@, span_str, k, r, final(self).events@),
    opt m_front opt_map matches
    closure 0 |e: &Event, span: Sp| -> (b: bool) ensures b == ((e.kind is Str || e.kind is Placeholder) && span.end == e.span.start)
    loop 0
        invariant
            self.input == old(self).input, same_rest(*old(self), *self), span.start == span_str.start, bs == self.b(),
            self.events@.len() > 0 ==> old(self).events@.len() > 0 && self.events@.last() == old(self).events@.last(),
            merging(bs, old(self).events@, span_str, kk, span.end, self.events@),
            forall|e: &Event, g: Sp| #[trigger] should_merge.requires((e, g)),
            forall|e: &Event, g: Sp, b: bool| #[trigger] should_merge.ensures((e, g), b) ==> b == ((e.kind is Str || e.kind is Placeholder) && g.end == e.span.start),
        ensures
            self.events@.len() > 0 ==> !joins(self.events@[0], span.end as int),
        decreases self.events@.len(),
    at start
        let ghost mut kk = 0int;
        let ghost bs = self.b();
        proof { lemma_merging_0(bs, self.events@, span_str); assert(text(span_str.start, span_str.end) == Event { kind: EventKind::Str, span: span_str }); }
    at let ev before
        let ghost pre = self.events@;
        let ghost was = span;
    at loop 0 end
        proof {
            lemma_merging(bs, old(self).events@, span_str, kk, was.end, pre, self.events@);
            kk = kk + 1;
        }
    at loop 0 after
        let ghost fr = self.events@;
        proof {
            reveal(merging); reveal(same_evs);
            let all = cons(Event { kind: EventKind::Str, span: span_str }, old(self).events@);
            let cur = cons(Event { kind: EventKind::Str, span }, fr);
            assert(text(span.start, span.end) == Event { kind: EventKind::Str, span });
            assert(text(span_str.start, span_str.end) == Event { kind: EventKind::Str, span: span_str });
            assert(same_evs(bs, all, cur));
            let pp = choose|pos: int| #[trigger] ord(bs, all, pos);
            assert(ord(bs, cur, pp));
        }
    at exit
        proof { assert(all_joined(old(self).events@, span_str, kk, __rv, self.events@)); }
@end
@raw
/// Neither in verbatim text nor in attributes, before the event of the current span is added.
spec fn fit(p: Parser<'_>) -> bool { p.verbatim is None && p.attributes is None && live(p) && in_order_cur(p) && p.input.wf() && p.input.span.start <= p.input.span.end }
/// Well-nested events without attributes are added.
proof fn lemma_adds<'s>(a: Parser<'s>, b: Parser<'s>)
    requires
        live(a), a.verbatim is None, a.attributes is None, only_adds(a, b), bal(added(a, b)),
        forall|x: int| 0 <= x < added(a, b).len() ==> !((#[trigger] added(a, b)[x]).kind is Attributes),
    ensures keeps(a, b)
{
    let s = st(a);
    let n = a.len_ev();
    lemma_segs_eq(a.events@, b.events@, a.openers@, n, s);
    lemma_segs_ext(b.events@, a.openers@, n, b.len_ev(), s);
    assert forall|i: int| 0 <= i < b.len_ev() && ((#[trigger] b.events@[i]).kind matches EventKind::Attributes { container: false, .. }) implies i + 1 < b.len_ev() && b.events@[i + 1].kind is Empty by {
        if i < n { let z = a.events@[i]; let y = a.events@[i + 1]; } else { let z = added(a, b)[i - n]; }
    }
    lemma_live(b, s);
}
proof fn lemma_adds_ord<'s>(b: Bs, e: Evs<'s>, f: Evs<'s>, p: int, q: int)
    requires
        ord(b, e, p), e.len() <= f.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] f[i] == e[i],
        ord(b, f.subrange(e.len() as int, f.len() as int), q), p <= q,
        forall|i: int| 0 <= i < f.len() - e.len() ==> (#[trigger] f.subrange(e.len() as int, f.len() as int)[i]).span.start >= p,
    ensures ord(b, f, q)
{
    reveal(ord);
    let n = e.len() as int;
    let m = f.subrange(n, f.len() as int);
    assert forall|i: int| 0 <= i < f.len() implies in_b(b, #[trigger] f[i]) && (!hid(f[i].kind) ==> f[i].span.end <= q) by { if i < n { let z = e[i]; } else { let z = m[i - n]; } }
    assert forall|i: int, j: int| 0 <= i < j < f.len() && !hid((#[trigger] f[i]).kind) && !hid((#[trigger] f[j]).kind) implies f[i].span.end <= f[j].span.start by {
        if i < n { let z = e[i]; } else { let z = m[i - n]; }
        if j < n { let z = e[j]; } else { let z = m[j - n]; }
    }
}
proof fn lemma_seq_ascii(p: Parser<'_>, t: Token)
    requires tok_at(p, t), p.input.wf(), t.len >= 1
    ensures t.kind is Seq ==> p.input.span.end == p.input.span.start + t.len && forall|x: int| p.input.span.start <= x < p.input.span.end ==> #[trigger] p.b()[x] < 128,
        t.kind == Kind::Seq(Sequence::Period) ==> p.b()[p.input.span.end - 1] == b'.',
{
    if t.kind is Seq {
        let r = p.b().subrange(p.input.span.start as int, p.input.span_line.end as int);
        assert forall|x: int| p.input.span.start <= x < p.input.span.end implies #[trigger] p.b()[x] < 128 by { let z = r[x - p.input.span.start]; }
        assert(r[t.len - 1] == p.b()[p.input.span.end - 1]);
    }
}
/// What is left is text.
proof fn lemma_push_str<'s>(a: Parser<'s>, b: Parser<'s>)
    requires
        fit(a), b == (Parser { events: b.events, ..a }), b.events@ == a.events@.push(Event { kind: EventKind::Str, span: a.input.span }),
        a.input.span.start < a.input.span.end || 0 < a.input.span.end && a.b()[a.input.span.end - 1] == b'.',
    ensures keeps(a, b), in_order(b)
{
    let v = b.events@.last();
    assert(added(a, b) =~= seq![v]);
    lemma_plain(seq![v], no_st());
    lemma_adds(a, b);
    lemma_ord_push(a.b(), a.events@, a.input.span.start as int, v, a.input.span.end as int);
}
@end
@fn Parser::parse_attributes
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    ret r
    req
        just_read(*old(self), *first), live(*old(self)), in_order_cur(*old(self)), old(self).verbatim is None, has_more_at(*old(self), old(self).input.span.start as int),
        old(self).attributes is Some ==> first.kind == Kind::Open(Delimiter::Brace), old(self).input.span_line.start <= old(self).input.span.start,
    ens
        keeps(*old(self), *final(self)), final(self).verbatim is None, final(self).input.wf(), att_new(*final(self)),
        r is None ==> *final(self) == (Parser { attributes: None, ..*old(self) }),
        r matches Some(c) ==> (c is Continue || c is More) && (c is More <==> final(self).attributes is Some) && in_order(*final(self)),
@end
@raw
/// What is left are events to be handed out.
spec fn done(p: Parser<'_>) -> bool { p.verbatim is None && p.attributes is None && p.input.rest().len() == 0 && p.input.last_() && need(p.events@) is Some }
/// Between two events.
spec fn ready(p: Parser<'_>) -> bool {
    &&& p.input.wf() && att_inv(p) && ord(p.b(), p.events@, p.input.span.end as int) && lines_ok(p.input) && adj(p.events@)
    &&& p.input.rest().len() > 0 ==> p.input.lines@.len() > 0
    &&& done(p) || live(p) && last_ok(p.b(), p.events@)
}
impl<'s> Input<'s> { spec fn last_(&self) -> bool { self.complete && self.ahead@.len() == 0 } }
@end
@fn Parser::parse_event
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    ret r
    req
        ready(*old(self)), has_more(*old(self)),
    ens
        ready(*final(self)), att_new(*final(self)), st(*final(self)) == st(*old(self)), final(self).input.src == old(self).input.src, final(self).input.complete == old(self).input.complete,
        live(*old(self)) && last_ok(old(self).b(), old(self).events@) ==> keeps(*old(self), *final(self)) && in_order(*final(self)),
        done(*old(self)) ==> r is Done && done(*final(self)),
        r is More <==> final(self).attributes is Some,
        // the end of the line, of the input
        r is Done || r is Next ==> old(self).input.rest().len() == 0 && final(self).input.rest().len() == 0 && final(self).events == old(self).events
            && final(self).openers == old(self).openers && final(self).verbatim == old(self).verbatim && final(self).input.ahead == old(self).input.ahead
            && final(self).input.span_line == old(self).input.span_line && final(self).input.span.start == final(self).input.span.end,
        r is Done ==> final(self).input.last_(),
        r is Next ==> !final(self).input.last_(),
    case over done(*old(self))
    case verb !done(*old(self)) && old(self).verbatim is Some
    case attr !done(*old(self)) && old(self).attributes is Some
    case free !done(*old(self)) && old(self).verbatim is None && old(self).attributes is None
    subst /self.parse_atom(&first)/({ proof { lemma_seq_ascii(*self, first); } self.parse_atom(&first) })/
    subst /self.push(EventKind::Str)/({ let ghost a = *self; let c = self.push(EventKind::Str); proof { lemma_push_str(a, *self); } c })/
    at exit
        proof {
            if __rv is Done || __rv is Next { if live(*old(self)) { lemma_live(*self, st(*old(self))); } }
        }
@end
@fn Parser::new
    ret r
    req
        sb(src).len() < 0x7fff_ffff,
    ens
        ready(r), r.input.src == src, !r.input.complete, r.events@.len() == 0, st(r) =~= no_st(), r.attributes is None, r.input.rest().len() == 0, r.input.ahead@.len() == 0,
    at exit
        proof { lemma_empty(__rv); reveal(nl_ok); }
@end
@fn Parser::reset
    req
        ready(*old(self)), old(self).events@.len() == 0, old(self).verbatim is None, old(self).attributes is None,
    ens
        ready(*final(self)), final(self).input.src == old(self).input.src, !final(self).input.complete, final(self).events@.len() == 0, st(*final(self)) =~= no_st(),
        final(self).attributes is None, final(self).input.rest().len() == 0, final(self).input.ahead@.len() == 0,
    subst /self.events.is_empty()/self.events.v_is_empty()/
    at end
        proof { lemma_empty(*self); reveal(nl_ok); }
@end
@fn Parser::feed_line
    attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    req
        ready(*old(self)), att_new(*old(self)), rng_ok(old(self).b(), line), !old(self).input.complete,
        // a line that is not the last one ends with a line break; an empty one may follow the last
        old(self).input.lines@.len() > 0 || old(self).input.ahead@.len() > 0 ==> nlq(old(self).b(), last_line(old(self).input), line),
        // lines come in order
        old(self).input.rest().len() > 0 || old(self).input.ahead@.len() > 0 || old(self).events@.len() > 0 ==> old(self).input.span_line.end <= line.start,
        forall|i: int| 0 <= i < old(self).input.ahead@.len() ==> (#[trigger] old(self).input.ahead@[i]).end <= line.start,
    ens
        ready(*final(self)), has_more(*final(self)), st(*final(self)) == st(*old(self)), final(self).input.src == old(self).input.src, final(self).input.complete == last,
        final(self).events == old(self).events, final(self).attributes == old(self).attributes,
    at end
        proof {
            lemma_live(*self, st(*old(self)));
            reveal(nl_ok);
            let all = old(self).input.ahead@.push(line);
            if old(self).attributes is Some { lemma_att_fed(*old(self), *self, line); }
            if old(self).input.rest().len() == 0 {
                let now = seq![self.input.span_line] + self.input.ahead@;
                assert(all =~= now);
                assert(now[0] == self.input.span_line && all[0] == now[0]);
                assert forall|i: int| 0 <= i < self.input.ahead@.len() implies #[trigger] self.input.ahead@[i] == all[i + 1] by { assert(now[i + 1] == self.input.ahead@[i]); }
            }
            if self.events@.len() > 0 { lemma_ord_grow(self.b(), self.events@, old(self).input.span.end as int, self.input.span.end as int); } else { reveal(ord); }
        }
@end
@raw
/// Nothing is open.
proof fn lemma_empty(p: Parser<'_>)
    requires p.events@.len() == 0, p.openers@.len() == 0, p.verbatim is None, p.attributes is None
    ensures live(p), st(p) == no_st(), ord(p.b(), p.events@, p.input.span.end as int), adj(p.events@)
{
    reveal(segs); reveal(back); reveal(ord);
    assert(ev(p.events@, 0, 0) =~= vstd::seq::Seq::empty());
    lemma_live(p, no_st());
}
/// The first event is taken.
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
proof fn lemma_popped<'s>(p: Parser<'s>, q: Parser<'s>)
    requires
        ready(p), p.events@.len() > 0, p.verbatim is None, p.attributes is None, p.openers@.len() == 0 || done(p),
        q == (Parser { events: q.events, ..p }), q.events@ == p.events@.subrange(1, p.len_ev()),
    ensures
        ready(q), back1(p.events@[0].kind, st(q)) == Some(st(p)), p.events@ == cons(p.events@[0], q.events@), need(p.events@) == Some(st(p)), need(q.events@) == Some(st(q)),
{
    reveal(segs); reveal(back);
    let e = p.events@;
    let f = q.events@;
    assert(ev(e, 0, p.len_ev()) =~= e);
    assert(e =~= cons(e[0], f));
    lemma_back_cat(seq![e[0]], f, no_st());
    let t = need(f)->0;
    assert(seq![e[0]].drop_last() =~= vstd::seq::Seq::<Event<'s>>::empty());
    assert(back(seq![e[0]], t) == back1(e[0].kind, t)) by { match back1(e[0].kind, t) { Some(u) => { assert(back(seq![e[0]].drop_last(), u) == Some(u)); } None => {} } }
    lemma_ord_tail(p.b(), e[0], f, p.input.span.end as int);
    assert(adj(f)) by { assert forall|i: int| 0 <= i < f.len() && ((#[trigger] f[i]).kind matches EventKind::Attributes { container: false, .. }) implies i + 1 < f.len() && f[i + 1].kind is Empty by { let z = e[i + 1]; } }
    if !done(p) {
        assert(ev(f, 0, q.len_ev()) =~= f);
        assert(segs(f, q.openers@, q.len_ev(), t));
        lemma_live(q, t);
    }
}
/// ... and becomes `r`, together with what follows it.
proof fn lemma_merged<'s>(p: Parser<'s>, m: Parser<'s>, q: Parser<'s>, r: Event<'s>)
    requires
        ready(p), p.events@.len() > 0, p.verbatim is None, p.attributes is None, p.openers@.len() == 0 || done(p),
        m == (Parser { events: m.events, ..p }), m.events@ == p.events@.subrange(1, p.len_ev()), merged(m, q, p.events@, r), r.kind is Str || r.kind is Attributes, same_last(m.events@, q.events@),
    ensures ready(q), st(q) == st(p), rng_ok(p.b(), r.span), r.kind is Attributes || ord(p.b(), cons(r, q.events@), p.input.span.end as int)
{
    reveal(segs); reveal(back);
    lemma_popped(p, m);
    let f = q.events@;
    let s = st(p);
    lemma_back_cons(r, f, no_st());
    assert(need(f) == Some(s));
    if !(r.kind is Attributes) { lemma_ord_tail(p.b(), r, f, p.input.span.end as int); }
    if !done(p) {
        assert(ev(f, 0, q.len_ev()) =~= f);
        assert(segs(f, q.openers@, q.len_ev(), s));
        lemma_live(q, s);
    }
}
/// The next line is begun.
proof fn lemma_next_line<'s>(p: Parser<'s>, q: Parser<'s>)
    requires
        ready(p), !p.input.last_(), p.attributes is None, p.input.ahead@.len() > 0, q == (Parser { input: q.input, ..p }), q.input.wf(),
        q.input.src == p.input.src, q.input.complete == p.input.complete, q.input.lines@.len() > 0, q.input.span_line == p.input.ahead@[0], q.input.span.start == q.input.span_line.start, q.input.span.end == q.input.span.start,
        q.input.ahead@ == p.input.ahead@.subrange(1, p.input.ahead@.len() as int),
    ensures ready(q), st(q) == st(p)
{
    lemma_live(q, st(p));
    reveal(nl_ok);
    assert forall|i: int| 0 <= i < q.input.ahead@.len() implies #[trigger] q.input.ahead@[i] == p.input.ahead@[i + 1] by {}
    lemma_ord_grow(q.b(), q.events@, p.input.span.end as int, q.input.span.end as int);
}
proof fn lemma_verb_in(p: Parser<'_>)
    requires ready(p), p.verbatim is Some
    ensures p.verbatim->0.event_opener < p.events@.len(), p.events@[p.verbatim->0.event_opener as int].kind matches EventKind::Enter(c) && vkind(c)
{}
proof fn lemma_no_line<'s>(p: Parser<'s>, q: Parser<'s>)
    requires ready(p), p.attributes is None, q == (Parser { input: q.input, ..p }), q.input == (Input { ahead: q.input.ahead, ..p.input }), q.input.ahead@ == p.input.ahead@
    ensures ready(q), st(q) == st(p)
{
    if !done(p) { lemma_live(q, st(p)); }
    assert(q.input.wf() && lines_ok(q.input));
}
/// Verbatim text that is never closed ends with the input.
proof fn lemma_unclosed<'s>(p: Parser<'s>, q: Parser<'s>)
    requires
        ready(p), p.verbatim is Some, p.attributes is None, p.input.rest().len() == 0, p.input.last_(), p.input.span.start == p.input.span.end,
        q == (Parser { input: q.input, events: q.events, verbatim: None, ..p }), q.input == (Input { lexer: q.input.lexer, ..p.input }), q.input.wf(), q.input.rest().len() == 0,
        q.events@.len() == p.events@.len() + 1, forall|i: int| 0 <= i < p.events@.len() ==> #[trigger] q.events@[i] == p.events@[i],
        q.events@.last().span == p.input.span, q.events@.last().kind == EventKind::Exit(p.events@[p.verbatim->0.event_opener as int].kind->Enter_0),
    ensures ready(q), done(q), st(q) == st(p)
{
    let x = p.verbatim->0.event_opener as int;
    let s = st(p);
    let f = q.events@;
    lemma_segs_eq(p.events@, f, q.openers@, x - 1, s);
    lemma_verb_closed(f, q.openers@, x, s);
    assert(adj(f)) by { assert forall|i: int| 0 <= i < f.len() && ((#[trigger] f[i]).kind matches EventKind::Attributes { container: false, .. }) implies i + 1 < f.len() && f[i + 1].kind is Empty by { let z = p.events@[i]; let y = p.events@[i + 1]; } }
    lemma_live(q, s);
    lemma_segs_need(f, q.openers@, f.len() as int, s);
    assert(ev(f, 0, f.len() as int) =~= f);
    lemma_ord_push(q.b(), p.events@, q.input.span.end as int, f.last(), q.input.span.end as int);
    assert(f =~= p.events@.push(f.last()));
}
/// The input has been read.
proof fn lemma_over<'s>(p: Parser<'s>)
    requires ready(p), p.verbatim is None, p.attributes is None, p.input.rest().len() == 0, p.input.last_()
    ensures done(p)
{
    if !done(p) {
        lemma_segs_need(p.events@, p.openers@, p.len_ev(), st(p));
        assert(ev(p.events@, 0, p.len_ev()) =~= p.events@);
    }
}
proof fn lemma_none<'s>(p: Parser<'s>)
    requires p.events@.len() == 0, p.verbatim is None
    ensures st(p) == no_st()
{ reveal(back); }
@end
@fn <Parser as Iterator>::next self Parser<'s>
    attr #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(80)]
    ret r
    req
        ready(*old(self)), has_more(*old(self)),
    ens
        ready(*final(self)), att_new(*final(self)), final(self).input.src == old(self).input.src, final(self).input.complete == old(self).input.complete,
        // with the events to come, the sequence is well-nested
        match r { Some(e) => back1(e.kind, st(*final(self))) == Some(st(*old(self))), None => st(*final(self)) == st(*old(self)) },
        // and in order
        r matches Some(e) ==> rng_ok(final(self).b(), e.span) && !(e.kind is Placeholder) && (e.kind is Attributes || ord(final(self).b(), cons(e, final(self).events@), final(self).input.span.end as int)),
        // it only ends where the input does
        r is None ==> final(self).attributes is Some || final(self).input.rest().len() == 0 && if final(self).input.last_() { final(self).events@.len() == 0 && st(*final(self)) == no_st() } else { true },
    opt m_is_empty m_front m_back matches opt_and_then opt_map
    loop 0
        invariant_except_break
            ready(*self), has_more(*self), st(*self) == st(*old(self)), self.input.src == old(self).input.src, self.input.complete == old(self).input.complete,
        ensures
            ready(*self), self.attributes is None, st(*self) == st(*old(self)), self.input.src == old(self).input.src, self.input.complete == old(self).input.complete,
            self.verbatim is None && self.openers@.len() == 0 && self.events@.len() > 0 || self.input.rest().len() == 0 && self.input.last_() && self.input.span.start == self.input.span.end,
    at if 0 before
        let ghost a = *self;
    at return 0 before
        proof { lemma_no_line(a, *self); }
    at call set_current_line after
        proof { lemma_next_line(a, *self); }
    at start
        hide(live); hide(adj); hide(need); hide(lines_ok);
    at loop 0 after
        let ghost p1 = *self;
        proof { axiom_dq_len(self.events); if p1.verbatim is Some { lemma_verb_in(p1); } }
    at call push before
        let ghost a = *self;
    at call push after
        proof { lemma_unclosed(p1, *self); }
    at call pop_front 1 before
        let ghost p2 = *self;
        proof {
            if p1.verbatim is None && p1.input.rest().len() == 0 && p1.input.last_() { lemma_over(p1); }
            if p2.events@.len() == 0 { lemma_none(p2); }
            assert(ready(p2) && st(p2) == st(p1) && (p2.openers@.len() == 0 && p2.events@.len() > 0 || done(p2)));
        }
    subst /match self.events.pop_front() { Some(e) =>/match ({ let x = self.events.pop_front(); proof { if x is Some { lemma_popped(p2, *self); lemma_ord_tail(p2.b(), x->0, self.events@, self.input.span.end as int); } } x }) { Some(e) =>/
    subst /EventKind::Str => Some(self.merge_str_events(e.span))/EventKind::Str => Some({ let ghost m = *self; let r = self.merge_str_events(e.span); proof { lemma_merged(p2, m, *self, r); } r })/
@end
