@include prelude.vc
@file src/lex.rs
@item use Delimiter::*
@item use Kind::*
@item use Sequence::*
@item use Symbol::*
@item struct Token
@item enum Kind
@item enum Delimiter
@item enum Symbol
@item enum Sequence
@item struct Lexer derive -
@raw
impl Lexer<'_> {
    spec fn wf(&self) -> bool {
        &&& self.pos <= self.src@.len()
        &&& self.next is Some ==> 1 <= self.next->0.len <= self.pos && tok_ok(self.src@, self.pos - self.next->0.len, self.next->0)
            && (self.escape ==> self.next->0.kind == Kind::Escape)
        &&& self.escape ==> self.pos < self.src@.len() && self.src@[self.pos as int] < 128
    }
    /// Number of bytes handed out as tokens so far.
    spec fn given(&self) -> int { self.pos - (if self.next is Some { self.next->0.len as int } else { 0 }) }
    spec fn same_text(&self, o: &Self) -> bool { self.src@ == o.src@ && self.verbatim == o.verbatim }
}
/// A brace that no delimiter character follows.
spec fn brace_at(s: Bs, i: int) -> bool { 0 <= i < s.len() && s[i] == b'{' && (i + 1 < s.len() ==> brace_delim(s[i + 1]) is None) }
/// The bytes of a token at `i`. It ends at an ASCII character.
spec fn tok_ok(s: Bs, i: int, t: Token) -> bool {
    let j = i + t.len;
    &&& 0 <= i && 1 <= t.len && j <= s.len() && (j == s.len() || s[j] < 128 || s[j - 1] < 128)
    &&& match t.kind {
        Kind::Text => true,
        Kind::Newline => t.len == 1 && s[i] == b'\n',
        Kind::Nbsp => t.len == 1 && s[i] == b' ',
        Kind::Escape => t.len == 1 && s[i] == b'\\',
        Kind::Hardbreak => s[j - 1] == b'\n' && forall|x: int| i <= x < j - 1 ==> #[trigger] s[x] == b' ' || s[x] == b'\t',
        Kind::Open(d) => match d {
            Delimiter::Bracket => t.len == 1 && s[i] == b'[',
            Delimiter::Paren => t.len == 1 && s[i] == b'(',
            Delimiter::Brace => t.len == 1 && brace_at(s, i),
            _ => t.len == 2 && s[i] == b'{' && brace_delim(s[i + 1]) == Some(d),
        },
        Kind::Close(d) => match d {
            Delimiter::Bracket => t.len == 1 && s[i] == b']',
            Delimiter::Paren => t.len == 1 && s[i] == b')',
            Delimiter::Brace => t.len == 1 && s[i] == b'}',
            _ => t.len == 2 && s[i + 1] == b'}' && brace_delim(s[i]) == Some(d),
        },
        Kind::Sym(y) => match y {
            Symbol::ExclaimBracket => t.len == 2 && s[i] == b'!' && s[i + 1] == b'[',
            Symbol::Asterisk => t.len == 1 && s[i] == b'*',
            Symbol::Caret => t.len == 1 && s[i] == b'^',
            Symbol::Tilde => t.len == 1 && s[i] == b'~',
            Symbol::Underscore => t.len == 1 && s[i] == b'_',
            Symbol::Quote1 => t.len == 1 && s[i] == b'\'',
            Symbol::Quote2 => t.len == 1 && s[i] == b'"',
            Symbol::Lt => t.len == 1 && s[i] == b'<',
            Symbol::Pipe => t.len == 1 && s[i] == b'|',
            Symbol::Colon => t.len == 1 && s[i] == b':',
        },
        Kind::Seq(q) => forall|x: int| i <= x < j ==> #[trigger] s[x] == seq_byte(q),
    }
}
proof fn lemma_tok(a: Lexer<'_>, b: Lexer<'_>, t: Token)
    requires token_post(a, b, Some(t)), a.escape ==> a.pos < a.src@.len() && a.src@[a.pos as int] < 128
    ensures tok_ok(a.src@, a.pos as int, t)
{
    lemma_blank_end(a.src@, a.pos as int);
}
spec fn special(c: u8) -> bool {
    c == b'\\' || c == b'[' || c == b']' || c == b'(' || c == b')' || c == b'{' || c == b'}' || c == b'*' || c == b'^'
    || c == b'=' || c == b'+' || c == b'~' || c == b'_' || c == b'\'' || c == b'"' || c == b'-' || c == b'!' || c == b'<'
    || c == b'|' || c == b':' || c == b'`' || c == b'.' || c == b'\n'
}
spec fn seq_byte(s: Sequence) -> u8 { match s { Sequence::Backtick => b'`', Sequence::Period => b'.', Sequence::Hyphen => b'-' } }

/// What one step of the tokenizer does.
spec fn token_post(a: Lexer<'_>, b: Lexer<'_>, r: Option<Token>) -> bool {
    &&& b.src@ == a.src@ && b.next == a.next && b.verbatim == a.verbatim
    &&& a.pos <= b.pos <= b.src@.len()
    &&& r is None ==> a.pos == a.src@.len() && b.pos == a.pos
    &&& r is Some ==> {
        let t = r->0;
        &&& 1 <= t.len && b.pos == a.pos + t.len
        &&& token_kind(a, b, t.kind)
    }
    // escapes: pending exactly after an escape token outside verbatim
    &&& b.escape == (r is Some && r->0.kind == Kind::Escape && !a.verbatim)
    &&& r is Some && r->0.kind == Kind::Escape ==> !a.escape && b.pos < b.src@.len() && (ascii_ws(b.src@[b.pos as int]) || ascii_punct(b.src@[b.pos as int]))
}

spec fn token_kind(a: Lexer<'_>, b: Lexer<'_>, k: Kind) -> bool {
    let s = a.src@;
    let i = a.pos as int;
    let j = b.pos as int;
    let c = s[i];
    let d = if i + 1 < s.len() { s[i + 1] } else { 0u8 };
    if a.escape {
        // the character after a backslash
        let e = blank_end(s, i);
        if c == b'\n' { k == Kind::Hardbreak && j == i + 1 }
        else if (c == b' ' || c == b'\t') && e < s.len() && s[e] == b'\n' { k == Kind::Hardbreak && j == e + 1 }
        else if c == b' ' { k == Kind::Nbsp && j == i + 1 }
        else { k == Kind::Text && j == i + 1 }
    } else if !special(c) {
        k == Kind::Text && (forall|x: int| i <= x < j ==> !special(s[x])) && (j < s.len() ==> special(s[j]))
    } else {
        match c {
            b'\n' => k == Kind::Newline && j == i + 1,
            b'\\' => j == i + 1 && k == (if i + 1 < s.len() && (ascii_ws(d) || ascii_punct(d)) { Kind::Escape } else { Kind::Text }),
            b'[' => k == Kind::Open(Delimiter::Bracket) && j == i + 1,
            b']' => k == Kind::Close(Delimiter::Bracket) && j == i + 1,
            b'(' => k == Kind::Open(Delimiter::Paren) && j == i + 1,
            b')' => k == Kind::Close(Delimiter::Paren) && j == i + 1,
            b'}' => k == Kind::Close(Delimiter::Brace) && j == i + 1,
            b'{' => match brace_delim(d) {
                Some(x) => k == Kind::Open(x) && j == i + 2,
                None => k == Kind::Open(Delimiter::Brace) && j == i + 1,
            },
            b'*' => closer(k, j - i, d, Kind::Sym(Symbol::Asterisk), Delimiter::BraceAsterisk),
            b'^' => closer(k, j - i, d, Kind::Sym(Symbol::Caret), Delimiter::BraceCaret),
            b'=' => closer(k, j - i, d, Kind::Text, Delimiter::BraceEqual),
            b'+' => closer(k, j - i, d, Kind::Text, Delimiter::BracePlus),
            b'~' => closer(k, j - i, d, Kind::Sym(Symbol::Tilde), Delimiter::BraceTilde),
            b'_' => closer(k, j - i, d, Kind::Sym(Symbol::Underscore), Delimiter::BraceUnderscore),
            b'\'' => closer(k, j - i, d, Kind::Sym(Symbol::Quote1), Delimiter::BraceQuote1),
            b'"' => closer(k, j - i, d, Kind::Sym(Symbol::Quote2), Delimiter::BraceQuote2),
            // a run of hyphens, all of it except one that belongs to a closing `-}`
            b'-' => if d == b'}' { k == Kind::Close(Delimiter::BraceHyphen) && j == i + 2 } else {
                &&& k == Kind::Seq(Sequence::Hyphen)
                &&& forall|x: int| i <= x < j ==> s[x] == b'-'
                &&& j < s.len() && s[j] == b'-' ==> j + 1 < s.len() && s[j + 1] == b'}'
            },
            b'!' => if d == b'[' { k == Kind::Sym(Symbol::ExclaimBracket) && j == i + 2 } else { k == Kind::Text && j == i + 1 },
            b'<' => k == Kind::Sym(Symbol::Lt) && j == i + 1,
            b'|' => k == Kind::Sym(Symbol::Pipe) && j == i + 1,
            b':' => k == Kind::Sym(Symbol::Colon) && j == i + 1,
            // maximal runs
            b'`' => k == Kind::Seq(Sequence::Backtick) && (forall|x: int| i <= x < j ==> s[x] == b'`') && (j < s.len() ==> s[j] != b'`'),
            b'.' => k == Kind::Seq(Sequence::Period) && (forall|x: int| i <= x < j ==> s[x] == b'.') && (j < s.len() ==> s[j] != b'.'),
            _ => true,
        }
    }
}

/// Position of the first byte from `i` on that is neither space nor tab.
spec fn blank_end(s: Bs, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i < s.len() && (s[i] == b' ' || s[i] == b'\t') { blank_end(s, i + 1) } else { i }
}

proof fn lemma_blank_end(s: Bs, i: int)
    requires 0 <= i <= s.len()
    ensures
        i <= blank_end(s, i) <= s.len(),
        forall|x: int| i <= x < blank_end(s, i) ==> s[x] == b' ' || s[x] == b'\t',
        blank_end(s, i) < s.len() ==> s[blank_end(s, i)] != b' ' && s[blank_end(s, i)] != b'\t',
    decreases s.len() - i
{
    if i < s.len() && (s[i] == b' ' || s[i] == b'\t') { lemma_blank_end(s, i + 1); }
}
/// The same, also in terms of the rest of the text.
proof fn lemma_blank_rest(s: Bs, i: int)
    requires 0 <= i <= s.len()
    ensures
        i <= blank_end(s, i) <= s.len(),
        forall|x: int| i <= x < blank_end(s, i) ==> s[x] == b' ' || s[x] == b'\t',
        blank_end(s, i) < s.len() ==> s[blank_end(s, i)] != b' ' && s[blank_end(s, i)] != b'\t'
            && s.subrange(i, s.len() as int)[blank_end(s, i) - i] == s[blank_end(s, i)],
        forall|y: int| 0 <= y < blank_end(s, i) - i ==> (#[trigger] s.subrange(i, s.len() as int)[y] == b' ' || s.subrange(i, s.len() as int)[y] == b'\t'),
{
    lemma_blank_end(s, i);
}

spec fn brace_delim(c: u8) -> Option<Delimiter> {
    match c {
        b'*' => Some(Delimiter::BraceAsterisk), b'^' => Some(Delimiter::BraceCaret), b'=' => Some(Delimiter::BraceEqual),
        b'-' => Some(Delimiter::BraceHyphen), b'+' => Some(Delimiter::BracePlus), b'~' => Some(Delimiter::BraceTilde),
        b'_' => Some(Delimiter::BraceUnderscore), b'\'' => Some(Delimiter::BraceQuote1), b'"' => Some(Delimiter::BraceQuote2),
        _ => None,
    }
}

spec fn closer(k: Kind, n: int, next: u8, alone: Kind, d: Delimiter) -> bool {
    if next == b'}' { k == Kind::Close(d) && n == 2 } else { k == alone && n == 1 }
}
@end
@fn Sequence::ch
    ret r
    ens
        r == (match self { Sequence::Backtick => b'`', Sequence::Period => b'.', Sequence::Hyphen => b'-' }),
@end
@fn is_special
    ret r
    ens
        r == special(c),
@end
@fn Lexer::new
    ret r
    ens
        r.wf(), r.src@ == src@, r.pos == 0, r.next is None, !r.escape, !r.verbatim,
@end
@fn Lexer::peek_byte_n
    ret r
    req
        old(self).pos + n <= usize::MAX,
    ens
        *final(self) == *old(self),
        r == (if old(self).pos + n < old(self).src@.len() { Some(old(self).src@[old(self).pos + n]) } else { None::<u8> }),
@end
@fn Lexer::peek_byte
    ret r
    ens
        *final(self) == *old(self),
        r == (if old(self).pos < old(self).src@.len() { Some(old(self).src@[old(self).pos as int]) } else { None::<u8> }),
@end
@fn Lexer::eat_byte
    ret r
    ens
        final(self).src == old(self).src, final(self).escape == old(self).escape, final(self).next == old(self).next,
        final(self).verbatim == old(self).verbatim,
        old(self).pos < old(self).src@.len() ==> final(self).pos == old(self).pos + 1 && r == Some(old(self).src@[old(self).pos as int]),
        old(self).pos >= old(self).src@.len() ==> final(self).pos == old(self).pos && r is None,
@end
@fn Lexer::eat_while
    subst /mut predicate: impl FnMut/predicate: impl Fn/
    req
        old(self).pos <= old(self).src@.len(),
        forall|c: u8| call_requires(predicate, (c,)),
    ens
        final(self).src == old(self).src, final(self).escape == old(self).escape, final(self).next == old(self).next,
        final(self).verbatim == old(self).verbatim,
        old(self).pos <= final(self).pos <= final(self).src@.len(),
        forall|i: int| old(self).pos <= i < final(self).pos ==> call_ensures(predicate, (#[trigger] old(self).src@[i],), true),
        final(self).pos < final(self).src@.len() ==> call_ensures(predicate, (old(self).src@[final(self).pos as int],), false),
    loop 0
        invariant
            self.src == old(self).src, self.escape == old(self).escape, self.next == old(self).next,
            self.verbatim == old(self).verbatim,
            old(self).pos <= self.pos <= self.src@.len(),
            forall|c: u8| call_requires(predicate, (c,)),
            forall|i: int| old(self).pos <= i < self.pos ==> call_ensures(predicate, (#[trigger] old(self).src@[i],), true),
        ensures
            self.pos < self.src@.len() ==> call_ensures(predicate, (old(self).src@[self.pos as int],), false),
        decreases self.src@.len() - self.pos,
@end
@fn Lexer::eat_seq
    ret r
    req
        old(self).pos <= old(self).src@.len(),
    ens
        r == Kind::Seq(s),
        final(self).src == old(self).src, final(self).escape == old(self).escape, final(self).next == old(self).next,
        final(self).verbatim == old(self).verbatim,
        old(self).pos <= final(self).pos <= final(self).src@.len(),
        forall|i: int| old(self).pos <= i < final(self).pos ==> #[trigger] old(self).src@[i] == seq_byte(s),
        final(self).pos < final(self).src@.len() ==> old(self).src@[final(self).pos as int] != seq_byte(s),
    closure 0 |c: u8| -> (b: bool) ensures b == (c == seq_byte(s))
@end
@fn Lexer::maybe_eat_close_brace
    ret r
    req
        old(self).pos <= old(self).src@.len(),
    ens
        final(self).src == old(self).src, final(self).escape == old(self).escape, final(self).next == old(self).next,
        final(self).verbatim == old(self).verbatim,
        old(self).pos < old(self).src@.len() && old(self).src@[old(self).pos as int] == b'}' ==> r == Kind::Close(d) && final(self).pos == old(self).pos + 1,
        !(old(self).pos < old(self).src@.len() && old(self).src@[old(self).pos as int] == b'}') ==> r == kind && final(self).pos == old(self).pos,
@end
@fn Lexer::token
    attr #[verifier::rlimit(40)]
    ret r
    req
        old(self).pos <= old(self).src@.len(),
    ens
        token_post(*old(self), *final(self), r),
        r is Some && (old(self).escape ==> old(self).pos < old(self).src@.len() && old(self).src@[old(self).pos as int] < 128)
            ==> tok_ok(old(self).src@, old(self).pos as int, r->0),
    opt fn_iter_find match_guards
    closure 0 |c: &&u8| -> (b: bool) ensures b == !(**c == b' ' || **c == b'\t')
    closure 1 |c: u8| -> (b: bool) ensures b == !special(c)
    at start
        proof { if self.escape && self.pos < self.src@.len() { lemma_blank_rest(self.src@, self.pos + 1); } }
    at end
        assert(!old(self).escape ==> token_kind(*old(self), *self, kind));
        assert(old(self).escape ==> token_kind(*old(self), *self, kind));
        proof {
            let t = Token { kind: kind, len: (self.pos - start) as usize };
            assert(token_post(*old(self), *self, Some(t)));
            if old(self).escape ==> old(self).pos < old(self).src@.len() && old(self).src@[old(self).pos as int] < 128 {
                lemma_tok(*old(self), *self, t);
            }
        }
    loop 0
        invariant_except_break
            blank_end(self.src@, self.pos as int) == blank_end(self.src@, start as int),
        invariant
            self.src == old(self).src, self.next == old(self).next, self.verbatim == old(self).verbatim, !self.escape,
            start < self.pos <= self.src@.len(),
            blank_end(self.src@, start as int) < self.src@.len(),
            self.src@[blank_end(self.src@, start as int)] == b'\n',
        ensures
            self.pos == blank_end(self.src@, start as int) + 1,
        decreases self.src@.len() - self.pos,
    loop 1
        invariant
            self.src == old(self).src, self.next == old(self).next, self.verbatim == old(self).verbatim, !self.escape,
            start < self.pos <= self.src@.len(),
            self.src.len() == self.src@.len(),
            forall|x: int| start <= x < self.pos ==> #[trigger] self.src@[x] == b'-',
        ensures
            self.pos < self.src@.len() && self.src@[self.pos as int] == b'-' ==> self.pos + 1 < self.src@.len() && self.src@[self.pos + 1] == b'}',
        decreases self.src@.len() - self.pos,
@end
@raw
/// Kind of the token that starts with byte `k` positions... text tokens of one call are joined:
/// `next_token` returns a text token only if no text token directly follows it.
spec fn next_post(a: Lexer<'_>, b: Lexer<'_>, r: Option<Token>) -> bool {
    &&& b.src@ == a.src@ && b.verbatim == a.verbatim && b.wf()
    &&& r is None ==> a.given() == a.src@.len() && b.given() == a.given()
    &&& r is Some ==> 1 <= r->0.len && b.given() == a.given() + r->0.len && tok_ok(a.src@, a.given(), r->0)
    // nothing is read ahead except after text
    &&& r is Some && r->0.kind != Kind::Text ==> b.next is None && (b.escape ==> r->0.kind == Kind::Escape)
    &&& a.next is Some ==> r == a.next
    &&& a.next is None && !a.escape && brace_at(a.src@, a.pos as int) ==> r == Some(Token { kind: Kind::Open(Delimiter::Brace), len: 1 })
}
@end
@fn Lexer::peek
    ret r
    req
        old(self).wf(),
    ens
        final(self).same_text(old(self)), final(self).wf(),
        final(self).given() == old(self).given(),
        r is Some <==> final(self).next is Some, r is Some ==> *r->0 == final(self).next->0,
        old(self).next is Some ==> *final(self) == *old(self),
        old(self).next is None ==> exists|m: Lexer<'_>| #[trigger] token_post(*old(self), m, final(self).next)
            && m.pos == final(self).pos && m.escape == final(self).escape,
        r is None ==> old(self).given() == old(self).src@.len(),
@end
@fn Lexer::ahead
    ret r
    req
        self.wf(),
    ens
        r@ == self.src@.subrange(self.given(), self.src@.len() as int),
@end
@fn Lexer::skip_ahead
    req
        old(self).wf(), old(self).pos + n <= old(self).src.len(), old(self).src.len() == old(self).src@.len(),
    ens
        final(self).wf(), final(self).src@ == old(self).src@.subrange(old(self).pos + n, old(self).src@.len() as int),
        final(self).pos == 0, final(self).next is None, !final(self).escape, !final(self).verbatim,
@end
@fn Lexer::next_token
    ret r
    req
        old(self).wf(), old(self).next is None,
    ens
        next_post(*old(self), *final(self), r),
        // a text token is followed by something else
        r is Some && r->0.kind == Kind::Text ==> final(self).next is None || final(self).next->0.kind != Kind::Text,
    loop 0
        invariant
            self.src@ == old(self).src@, self.verbatim == old(self).verbatim, self.wf(),
            self.src.len() == self.src@.len(),
            1 <= *len, self.given() == old(self).given() + *len, 0 <= old(self).given(),
            tok_ok(self.src@, old(self).given(), Token { kind: Kind::Text, len: *len }),
        ensures
            self.next is None || self.next->0.kind != Kind::Text,
        decreases self.src@.len() - self.given(),
    at loop 0 start
        assert(self.given() + l == self.pos);
        assert(self.pos <= self.src.len());
@end
@fn <Lexer as Iterator>::next self Lexer<'_>
    ret r
    req
        old(self).wf(),
    ens
        next_post(*old(self), *final(self), r),
@end
