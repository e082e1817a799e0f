// Attribute parsing (A01).
@include attrtypes.vc
@item enum State
@item struct Parser derive - subst /struct Parser/struct AttrParser/
@item struct Validator derive -
@raw
spec fn name(c: u8) -> bool { ascii_alnum(c) || c == b':' || c == b'_' || c == b'-' }

/// One byte further in the attribute grammar.
spec fn tstep(st: State, c: u8) -> State {
    match st {
        State::Start => if c == b'{' { State::Whitespace } else { State::Invalid },
        State::Whitespace =>
            if c == b'}' { State::Done } else if c == b'.' { State::ClassFirst } else if c == b'#' { State::IdentifierFirst }
            else if c == b'%' { State::CommentFirst } else if name(c) { State::Key } else if ascii_ws(c) { State::Whitespace }
            else { State::Invalid },
        State::CommentFirst | State::Comment | State::CommentNewline =>
            if c == b'%' { State::Whitespace } else if c == b'}' { State::Done } else if c == b'\n' { State::CommentNewline } else { State::Comment },
        State::ClassFirst => if name(c) { State::Class } else { State::Invalid },
        State::IdentifierFirst => if name(c) { State::Identifier } else { State::Invalid },
        State::Class | State::Identifier | State::Value =>
            if name(c) { st } else if ascii_ws(c) { State::Whitespace } else if c == b'}' { State::Done } else { State::Invalid },
        State::Key => if name(c) { State::Key } else if c == b'=' { State::ValueFirst } else { State::Invalid },
        State::ValueFirst => if name(c) { State::Value } else if c == b'"' { State::ValueQuoted } else { State::Invalid },
        State::ValueQuoted =>
            if c == b'"' { State::Whitespace } else if c == b'\n' { State::ValueNewline } else if c == b'\\' { State::ValueEscape } else { State::ValueQuoted },
        State::ValueEscape => if c == b'\n' { State::ValueNewline } else { State::ValueQuoted },
        State::ValueNewline | State::ValueContinued =>
            if c == b'"' { State::Whitespace } else if c == b'\n' { State::ValueNewline } else { State::ValueContinued },
        State::Done | State::Invalid => State::Invalid,
    }
}

/// Length of the shortest prefix of s[i..] that completes (or is rejected in) an attribute block begun in `st`.
spec fn scan(st: State, s: Bs, i: int) -> (State, int)
    decreases s.len() - i
{
    if 0 <= i < s.len() {
        let n = tstep(st, s[i]);
        if n == State::Done || n == State::Invalid { (n, i + 1) } else { scan(n, s, i + 1) }
    } else { (st, i) }
}

pub enum Out { Done(int, Els), More(Els), Bad(int) }

/// End of the name that starts before or at `i`.
spec fn name_end(s: Bs, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && name(s[i]) { name_end(s, i + 1) } else { i }
}
spec fn join_last(es: Els, b: Bs) -> Els { es.update(es.len() - 1, (es.last().0, join(es.last().1, b))) }
spec fn add_last(es: Els, b: Bs) -> Els { es.update(es.len() - 1, (es.last().0, es.last().1 + b)) }

/// The outcome for the rest of the text from `i` on, the current token having started at `p`.
spec fn rest(st: State, s: Bs, i: int, p: int, es: Els) -> Out
    decreases s.len() - i, 3nat
{
    if i < 0 || i >= s.len() { Out::More(es) } else {
        let c = s[i];
        match st {
            State::Start => if c == b'{' { rest(State::Whitespace, s, i + 1, i, es) } else { Out::Bad(i) },
            // between the elements of a block
            State::Whitespace => {
                if c == b'}' { close(s, i, es) }
                else if c == b'.' { rest(State::ClassFirst, s, i + 1, i, es) }
                else if c == b'#' { rest(State::IdentifierFirst, s, i + 1, i, es) }
                else if c == b'%' { rest(State::CommentFirst, s, i + 1, i, es) }
                else if name(c) { rest(State::Key, s, i + 1, i, es) }
                else if ascii_ws(c) { rest(State::Whitespace, s, i + 1, p, es) }
                else { Out::Bad(i) }
            },
            State::ClassFirst => if name(c) { rest(State::Class, s, i + 1, i, es) } else { Out::Bad(i) },
            State::IdentifierFirst => if name(c) { rest(State::Identifier, s, i + 1, i, es) } else { Out::Bad(i) },
            State::Class => { let e = name_end(s, i); if e < i || e >= s.len() { Out::More(es) } else { word(s, e, es.push((KV::Class, s.subrange(p, e)))) } },
            State::Identifier => { let e = name_end(s, i); if e < i || e >= s.len() { Out::More(es) } else { word(s, e, es.push((KV::Id, s.subrange(p, e)))) } },
            State::Value => { let e = name_end(s, i); if e < i || e >= s.len() { Out::More(es) } else { word(s, e, join_last(es, s.subrange(p, e))) } },
            State::Key => { let e = name_end(s, i);
                if e < i || e >= s.len() { Out::More(es) }
                else if s[e] == b'=' { rest(State::ValueFirst, s, e + 1, e, es.push((KV::Pair(s.subrange(p, e)), Seq::empty()))) }
                else { Out::Bad(e) } },
            State::ValueFirst => if name(c) { rest(State::Value, s, i + 1, i, es) } else if c == b'"' { rest(State::ValueQuoted, s, i + 1, i, es) } else { Out::Bad(i) },
            // p is the position of the opening quote
            State::ValueQuoted =>
                if c == b'"' { rest(State::Whitespace, s, i + 1, i, join_last(es, s.subrange(p + 1, i))) }
                else if c == b'\n' { rest(State::ValueNewline, s, i + 1, i, join_last(es, s.subrange(p + 1, i))) }
                else if c == b'\\' { rest(State::ValueEscape, s, i + 1, p, es) }
                else { rest(State::ValueQuoted, s, i + 1, p, es) },
            State::ValueEscape =>
                if c == b'\n' { rest(State::ValueNewline, s, i + 1, i, join_last(es, s.subrange(p + 1, i))) }
                else { rest(State::ValueQuoted, s, i + 1, p, es) },
            State::ValueNewline =>
                if c == b'"' { rest(State::Whitespace, s, i + 1, i, es) }
                else if c == b'\n' { rest(State::ValueNewline, s, i + 1, p, es) }
                else { rest(State::ValueContinued, s, i + 1, i, es) },
            State::ValueContinued =>
                if c == b'"' { rest(State::Whitespace, s, i + 1, i, join_last(es, s.subrange(p, i))) }
                else if c == b'\n' { rest(State::ValueNewline, s, i + 1, i, join_last(es, s.subrange(p, i))) }
                else { rest(State::ValueContinued, s, i + 1, p, es) },
            State::CommentFirst => comment(s, i, es.push((KV::Comment, Seq::empty()))),
            State::Comment =>
                if c == b'%' || c == b'}' || c == b'\n' { comment(s, i, add_last(es, s.subrange(p, i))) }
                else { rest(State::Comment, s, i + 1, p, es) },
            State::CommentNewline =>
                if c == b'\n' { rest(State::CommentNewline, s, i + 1, p, es) }
                else { comment(s, i, add_last(es, seq![10u8])) },
            State::Done | State::Invalid => Out::Bad(i),
        }
    }
}
/// What follows a word: white space or the end of the block.
spec fn word(s: Bs, i: int, es: Els) -> Out
    decreases s.len() - i, 2nat
{
    if i < 0 || i >= s.len() { Out::More(es) }
    else if ascii_ws(s[i]) { rest(State::Whitespace, s, i + 1, i, es) }
    else if s[i] == b'}' { close(s, i, es) }
    else { Out::Bad(i) }
}
/// The end of a block at `i`: done unless another block follows.
spec fn close(s: Bs, i: int, es: Els) -> Out
    decreases s.len() - i, 1nat
{
    if i < 0 || i >= s.len() { Out::More(es) }
    else if i + 1 < s.len() && s[i + 1] == b'{' { rest(State::Start, s, i + 1, i, es) }
    else { Out::Done(i + 1, es) }
}
/// The character of a comment at `i`, the text before it being complete.
spec fn comment(s: Bs, i: int, es: Els) -> Out
    decreases s.len() - i, 2nat
{
    if i < 0 || i >= s.len() { Out::More(es) }
    else if s[i] == b'%' { rest(State::Whitespace, s, i + 1, i, es) }
    else if s[i] == b'}' { close(s, i, es) }
    else if s[i] == b'\n' { rest(State::CommentNewline, s, i + 1, i, es) }
    else { rest(State::Comment, s, i + 1, i, es) }
}

/// Whether the token's start moves to this byte.
spec fn moves(st: State, n: State) -> bool { st != n && n != State::ValueEscape && !(st == State::ValueEscape && n == State::ValueQuoted) }
/// Elements after a change of state at `i`.
spec fn act(st: State, n: State, s: Bs, i: int, p: int, es: Els) -> Els {
    if !moves(st, n) { es } else { match st {
        State::Class => es.push((KV::Class, s.subrange(p, i))),
        State::Identifier => es.push((KV::Id, s.subrange(p, i))),
        State::Key => es.push((KV::Pair(s.subrange(p, i)), Seq::empty())),
        State::Value | State::ValueContinued => join_last(es, s.subrange(p, i)),
        State::ValueQuoted | State::ValueEscape => join_last(es, s.subrange(p + 1, i)),
        State::CommentFirst => es.push((KV::Comment, Seq::empty())),
        State::Comment => add_last(es, s.subrange(p, i)),
        State::CommentNewline => add_last(es, seq![10u8]),
        _ => es,
    } }
}
proof fn lemma_rest(st: State, s: Bs, i: int, p: int, es: Els)
    requires 0 <= i < s.len(), st != State::Done, st != State::Invalid
    ensures ({
        let n = tstep(st, s[i]);
        let r = rest(st, s, i, p, es);
        if n == State::Invalid { r == Out::Bad(i) }
        else if n == State::Done { r == close(s, i, act(st, n, s, i, p, es)) }
        else { r == rest(n, s, i + 1, if moves(st, n) { i } else { p }, act(st, n, s, i, p, es)) }
    })
{
    reveal_with_fuel(name_end, 2);
    reveal_with_fuel(rest, 3);
    reveal_with_fuel(word, 3);
    reveal_with_fuel(comment, 3);
    reveal_with_fuel(close, 3);
    assert(name_end(s, i) == if name(s[i]) { name_end(s, i + 1) } else { i });
    lemma_name_end(s, i);
    lemma_name_end(s, i + 1);
}
proof fn lemma_name_end(s: Bs, i: int)
    requires 0 <= i
    ensures i <= name_end(s, i), i <= s.len() ==> name_end(s, i) <= s.len()
    decreases s.len() - i
{ if i < s.len() && name(s[i]) { lemma_name_end(s, i + 1); } }
/// States in which a token that belongs to the last element is open.
spec fn in_elem(st: State) -> bool {
    st == State::ValueFirst || st == State::Value || st == State::ValueQuoted || st == State::ValueEscape || st == State::ValueNewline || st == State::ValueContinued
    || st == State::Comment || st == State::CommentNewline
}
/// The position in the grammar.
spec fn vst(v: Validator) -> State { v.state }
spec fn pst(p: AttrParser<'_>) -> State { p.state }
spec fn pels(p: AttrParser<'_>) -> Els { els(p.attrs) }
/// One byte further, where another block may follow a complete one.
spec fn step2(st: State, c: u8) -> State { if st == State::Invalid { st } else if st == State::Done { tstep(State::Start, c) } else { tstep(st, c) } }
/// Where nothing has been read.
spec fn st0() -> State { State::Start }
spec fn is_done(st: State) -> bool { st == State::Done }
spec fn is_bad(st: State) -> bool { st == State::Invalid }
/// The state after the bytes i..j.
spec fn run(st: State, s: Bs, i: int, j: int) -> State
    decreases j - i
{
    if i < j { step2(run(st, s, i, j - 1), s[j - 1]) } else { st }
}
/// States in which the parser may pause at the end of a line.
spec fn resumable(st: State) -> bool {
    st != State::Done && st != State::Invalid && st != State::ValueQuoted && st != State::ValueEscape
}
spec fn resum(st: State) -> bool { resumable(st) }
/// The same position: a block may begin where another is complete.
spec fn like(v: State, st: State) -> bool { v != State::Done && v != State::Invalid && (v == st || st == State::Done && v == State::Start) }
proof fn lemma_st0() ensures st0() == State::Start, !is_done(st0()), !is_bad(st0()), like(st0(), st0()), resum(st0()), !in_elem(st0()) {}
proof fn lemma_done(st: State) requires is_done(st) ensures !is_bad(st) {}
proof fn lemma_run_none(st: State, s: Bs, i: int) ensures run(st, s, i, i) == st {}
proof fn lemma_like(v: State, st: State) requires like(v, st) ensures !is_done(v), !is_bad(v), !is_bad(st) {}
proof fn lemma_resum(st: State) requires resum(st) ensures resumable(st) {}
/// The bytes of a part of the text.
proof fn lemma_run_sub(st: State, s: Bs, i: int, j: int, n: int)
    requires 0 <= i, i + n <= j <= s.len(), 0 <= n
    ensures run(st, s.subrange(i, j), 0, n) == run(st, s, i, i + n)
    decreases n
{ if n > 0 { lemma_run_sub(st, s, i, j, n - 1); } }
proof fn lemma_run_cat(st: State, s: Bs, i: int, j: int, k: int)
    requires i <= j <= k
    ensures run(run(st, s, i, j), s, j, k) == run(st, s, i, k), is_bad(run(st, s, i, j)) ==> is_bad(run(st, s, i, k))
    decreases k - j
{ if j < k { lemma_run_cat(st, s, i, j, k - 1); } }
/// From a position like another one.
proof fn lemma_run_like(v: State, st: State, s: Bs, i: int, j: int)
    requires like(v, st), i <= j
    ensures i < j ==> run(v, s, i, j) == run(st, s, i, j), !is_bad(run(v, s, i, j)) && !is_done(run(v, s, i, j)) ==> like(run(v, s, i, j), run(st, s, i, j))
    decreases j - i
{ if i < j { lemma_run_like(v, st, s, i, j - 1); } }
/// Where a line ends, the parser may pause.
proof fn lemma_run_nl(st: State, s: Bs, i: int, j: int)
    requires i < j, 0 < j <= s.len(), s[j - 1] == 10, !is_bad(run(st, s, i, j))
    ensures resum(run(st, s, i, j)), !is_done(run(st, s, i, j))
{ let u = run(st, s, i, j - 1); let w = if u == State::Done { tstep(State::Start, 10) } else { tstep(u, 10) }; }
/// What the recognizer accepts, the parser does.
proof fn lemma_good(st: State, s: Bs, i: int, p: int, es: Els)
    requires 0 <= i <= s.len(), !is_done(st), !is_bad(st), !is_bad(run(st, s, i, s.len() as int))
    ensures !(rest(st, s, i, p, es) is Bad), rest(st, s, i, p, es) matches Out::Done(n, _) ==> n == s.len()
    decreases s.len() - i
{
    if i < s.len() {
        lemma_rest(st, s, i, p, es);
        let n = tstep(st, s[i]);
        lemma_run_cat(st, s, i, i + 1, s.len() as int);
        assert(run(st, s, i, i) == st && run(st, s, i, i + 1) == n);
        let q = act(st, n, s, i, p, es);
        if n == State::Done {
            if i + 1 < s.len() {
                lemma_run_cat(n, s, i + 1, i + 2, s.len() as int);
                assert(run(n, s, i + 1, i + 1) == n && run(n, s, i + 1, i + 2) == step2(n, s[i + 1]));
                assert(s[i + 1] == b'{');
                lemma_run_like(State::Start, n, s, i + 1, s.len() as int);
                lemma_good(State::Start, s, i + 1, i, q);
            }
        } else if n != State::Invalid {
            lemma_good(n, s, i + 1, if moves(st, n) { i } else { p }, q);
        }
    }
}
fn v_attributes_empty(a: &Attributes<'_>) -> bool { a.0.len() == 0 }
@end
@fn is_name
    ret r
    ens
        r == name(c),
@end
@fn State::step
    ret r
    req
        self != State::Done, self != State::Invalid,
    ens
        r == tstep(self, c),
@end
@fn valid
    ret n
    opt m_bytes
    ens
        n == (if scan(State::Start, sb(src), 0).0 == State::Done { scan(State::Start, sb(src), 0).1 } else { 0int }),
    loop 0
        invariant_except_break
            n == __it0.pos, state != State::Done, state != State::Invalid,
            scan(State::Start, sb(src), 0) == scan(state, sb(src), n as int),
        invariant
            __it0.wf(), __it0.s@ == sb(src), n <= sb(src).len(), __it0.s.len() == __it0.s@.len(),
        ensures
            scan(State::Start, sb(src), 0) == (state, n as int),
        decreases __it0.s@.len() - __it0.pos,
@end
@fn Validator::new
    ret r
    ens
        vst(r) == State::Start,
@end
@fn Validator::restart
    ens
        vst(*final(self)) == State::Start,
@end
@fn Validator::parse
    ret r
    opt m_bytes m_len
    req
        vst(*old(self)) != State::Done, vst(*old(self)) != State::Invalid,
    ens
        match scan(vst(*old(self)), sb(input), 0).0 {
            State::Done => r is Some && r->0 == scan(vst(*old(self)), sb(input), 0).1,
            State::Invalid => r == Some(0usize),
            _ => r is None && vst(*final(self)) == scan(vst(*old(self)), sb(input), 0).0,
        },
        // a complete block, or the text is rejected, or it goes on
        r matches Some(n) ==> n <= sb(input).len() && (n > 0 ==> sb(input)[n - 1] == b'}' && run(vst(*old(self)), sb(input), 0, n as int) == State::Done),
        r is None ==> vst(*final(self)) == run(vst(*old(self)), sb(input), 0, sb(input).len() as int) && vst(*final(self)) != State::Done && vst(*final(self)) != State::Invalid,
    loop 0
        invariant
            bytes.wf(), bytes.s@ == sb(input),
            self.state != State::Done, self.state != State::Invalid,
            scan(old(self).state, sb(input), 0) == scan(self.state, sb(input), bytes.pos as int),
            run(old(self).state, sb(input), 0, bytes.pos as int) == self.state,
        ensures
            bytes.pos == bytes.s@.len(),
        decreases bytes.s@.len() - bytes.pos,
@end
@fn Parser::new self AttrParser<'s>
    ret r
    ens
        pst(r) == State::Start, pels(r) == els(attrs),
@end
@fn Parser::finish self AttrParser<'s>
    ret r
    ens
        els(r) == pels(self),
@end
@fn Parser::parse self AttrParser<'s>
    ret r
    opt m_bytes m_into m_starts_with slice
    subst /self.attrs.push/self.attrs.0.push/
    subst /self.attrs.len()/self.attrs.0.len()/
    subst /usize::from(/v_usize_from(/
    subst /input.len()/input.v_len()/
    req
        resumable(pst(*old(self))),
        in_elem(pst(*old(self))) ==> pels(*old(self)).len() > 0,
    ens
        match rest(pst(*old(self)), sb(input), 0, 0, pels(*old(self))) {
            Out::Done(n, es) => r is Ok && r->Ok_0 == n && pst(*final(self)) == State::Done && pels(*final(self)) == es,
            Out::More(es) => r is Ok && r->Ok_0 == sb(input).len() && pst(*final(self)) != State::Done && pels(*final(self)) == es,
            Out::Bad(n) => r is Err && r->Err_0 == n,
        },
        r is Ok ==> pst(*final(self)) == run(pst(*old(self)), sb(input), 0, r->Ok_0 as int) && (in_elem(pst(*final(self))) ==> pels(*final(self)).len() > 0),
    at start
        proof { lemma_valid(input); }
    at loop 0 start
        let ghost es0 = els(self.attrs);
        let ghost p0 = pos_prev as int;
        proof {
            lemma_lits();
            lemma_rest(self.state, sb(input), pos as int, pos_prev as int, els(self.attrs));
            if c < 128 { lemma_ascii_boundary(sb(input), pos as int); }
        }
    at let content after
        proof {
            lemma_valid(content);
            assert(sb(content).subrange(0, sb(content).len() as int) =~= sb(content));
            if pos > p0 { assert(sb(content).subrange(1, sb(content).len() as int) =~= sb(input).subrange(p0 + 1, pos as int)); }
            if st == State::ValueQuoted || st == State::ValueEscape { lemma_ascii_boundary(sb(content), 0); }
        }
    at if 1 thenend
        proof { assert(els(self.attrs) =~= act(st, self.state, sb(input), pos as int, p0, es0)); }
    loop 0
        invariant
            __it0.wf(), __it0.s@ == sb(input), __n0 == __it0.pos, __it0.s.len() == __it0.s@.len(), valid_utf8(sb(input)),
            pos_prev <= __n0, bnd(sb(input), pos_prev as int),
            self.state != State::Done, self.state != State::Invalid,
            in_elem(self.state) ==> self.attrs.0@.len() > 0,
            self.state == State::ValueQuoted || self.state == State::ValueEscape ==> pos_prev < __n0 && sb(input)[pos_prev as int] == b'"',
            self.state != State::Comment && self.state != State::ValueContinued && self.state != State::ValueQuoted ==> bnd(sb(input), __n0 as int),
            ({ let u = run(old(self).state, sb(input), 0, __n0 as int); u == self.state || u == State::Done && self.state == State::Start && __n0 < sb(input).len() && sb(input)[__n0 as int] == b'{' }),
            rest(old(self).state, sb(input), 0, 0, els(old(self).attrs)) == rest(self.state, sb(input), __n0 as int, pos_prev as int, els(self.attrs)),
        ensures
            __n0 == sb(input).len(),
        decreases __it0.s@.len() - __it0.pos,
@end
@raw
spec fn trim_end(s: Bs) -> Bs
    decreases s.len()
{
    if s.len() > 0 && ascii_ws(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn char_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0c' }
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool)
    ensures r == char_ws(*c);
/// str::trim_end_matches for the predicate char::is_ascii_whitespace
trait VTrim {
    spec fn tb(&self) -> Bs;
    fn v_trim_end_matches<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| call_requires(f, (c,)), forall|c: char, b: bool| call_ensures(f, (c,), b) ==> b == char_ws(c),
        ensures sb(r) == trim_end(self.tb());
}
impl VTrim for str {
    spec fn tb(&self) -> Bs { sb(self) }
    fn v_trim_end_matches<F: Fn(char) -> bool>(&self, f: F) -> &str
    {
        let mut n = self.v_len();
        proof { lemma_valid(self); assert(sb(self).subrange(0, n as int) =~= sb(self)); }
        while n > 0 && self.as_bytes()[n - 1].is_ascii_whitespace()
            invariant n <= sb(self).len(), valid_utf8(sb(self)), bnd(sb(self), n as int),
                trim_end(sb(self)) == trim_end(sb(self).subrange(0, n as int)),
            ensures n == 0 || !ascii_ws(sb(self)[n - 1]),
            decreases n,
        {
            proof {
                lemma_ascii_boundary(sb(self), n - 1);
                assert(sb(self).subrange(0, n as int).drop_last() =~= sb(self).subrange(0, n - 1));
            }
            n -= 1;
        }
        self.v_slice_to(n)
    }
}
fn v_take<'s>(a: &mut Attributes<'s>) -> (r: Attributes<'s>)
    ensures r == *old(a), els(*final(a)) == Seq::<El>::empty(),
{
    let r = core::mem::replace(a, Attributes(Vec::new()));
    proof { assert(els(*a) =~= Seq::<El>::empty()); }
    r
}
@end
@fn Attributes::take
    ret r
    subst /std::mem::take(self)/v_take(self)/
    ens
        r == *old(self), els(*final(self)) == Seq::<El>::empty(),
@end
@fn Attributes::parse
    subst /Parser::new(/AttrParser::new(/
    ret r
    opt m_trim_end_matches
    subst /input.len()/input.v_len()/
    closure 0 |c: char| -> (b: bool) ensures b == char_ws(c)
    ens
        // accepted exactly if the text without trailing white space is a complete sequence of blocks
        match rest(State::Start, trim_end(sb(input)), 0, 0, els(*old(self))) {
            Out::Done(n, es) => if n == trim_end(sb(input)).len() { r is Ok && els(*final(self)) == es } else { r is Err && r->Err_0 == n },
            Out::More(es) => r is Err && r->Err_0 == trim_end(sb(input)).len(),
            Out::Bad(n) => r is Err && r->Err_0 == n,
        },
@end
@item struct ParseAttributesError derive -
@raw
/// Attributes::new() (derived Default)
fn v_attributes_new<'s>() -> (r: Attributes<'s>) ensures els(r) =~= Seq::<El>::empty() { Attributes(Vec::new()) }
@end
@fn <Attributes as TryFrom<&'sstr>>::try_from self Attributes<'s>
    ret r
    subst /Attributes::new()/v_attributes_new()/
    ens
        match rest(State::Start, trim_end(sb(s)), 0, 0, Seq::empty()) {
            Out::Done(n, es) => if n == trim_end(sb(s)).len() { r is Ok && els(r->Ok_0) == es } else { r is Err && r->Err_0.pos == n },
            Out::More(es) => r is Err && r->Err_0.pos == trim_end(sb(s)).len(),
            Out::Bad(n) => r is Err && r->Err_0.pos == n,
        },
@end
