// Recognition of blocks: which block a line starts and which lines continue it.
@include numtypes.vc
@file src/lex.rs
@item enum Kind derive Clone,Copy subst /Kind/LKind/
@item enum Delimiter derive Clone,Copy
@item enum Symbol derive Clone,Copy
@item enum Sequence derive Clone,Copy
@item struct Token derive Clone,Copy subst /Kind/LKind/
@file src/block.rs
@item enum FenceKind
@item enum Kind derive -
@item struct IdentifiedBlock derive -
@item struct MeteredBlock derive -
@raw
/// The tokenizer (contract proved in the unit `lex`): tokens are not empty and lie one after the other.
struct VLexer { left: usize, verbatim: bool }
#[verifier::external_body]
fn v_lexer(line: &str) -> (r: VLexer)
    requires sb(line).len() >= 1
    ensures r.left == sb(line).len() - 1
{ unimplemented!() }
impl VLexer {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Token>)
        ensures
            final(self).verbatim == old(self).verbatim,
            r is None ==> final(self).left == 0,
            r is Some ==> r->0.len >= 1 && final(self).left + r->0.len == old(self).left,
    { unimplemented!() }
}
/// Attribute blocks (attr::valid is specified and proved in the unit `attr`; here a function of the bytes).
uninterp spec fn attr_len(b: Bs) -> int;
#[verifier::external_body]
fn v_attr_valid(s: &str) -> (n: usize) ensures n == attr_len(sb(s)), n <= sb(s).len() { unimplemented!() }

// ---- what a line is, in terms of its bytes
/// First position from `i` on that holds no white space other than line feeds.
spec fn lead(b: Bs, i: int) -> int
    decreases b.len() - i
{ if 0 <= i < b.len() && ascii_ws(b[i]) && b[i] != 10 { lead(b, i + 1) } else { i } }
/// End of a run of `c` from `i` on.
spec fn run(b: Bs, c: u8, i: int) -> int
    decreases b.len() - i
{ if 0 <= i < b.len() && b[i] == c { run(b, c, i + 1) } else { i } }
/// First `c` from `i` on; the length if there is none.
spec fn find(b: Bs, c: u8, i: int) -> int
    decreases b.len() - i
{ if 0 <= i < b.len() && b[i] != c { find(b, c, i + 1) } else { i } }
spec fn ends(b: Bs, i: int) -> bool { i >= b.len() || ascii_ws(b[i]) }

/// Dashes and stars among the first `i` bytes.
spec fn marks(b: Bs, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { marks(b, i - 1) + (if b[i - 1] == 45 || b[i - 1] == 42 { 1int } else { 0 }) } }
spec fn s_break(b: Bs) -> bool {
    marks(b, b.len() as int) >= 3 && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 45 || b[i] == 42 || ascii_ws(b[i])
}
spec fn row_shape(b: Bs) -> bool { b.len() >= 2 && b[0] == 124 && b.last() == 124 && b[b.len() - 2] != 92 }
/// Whether a trimmed line is a table row: its shape, and its last pipe lies outside of verbatim.
spec fn table_row(b: Bs) -> bool { row_shape(b) && row_pipe(b) }
uninterp spec fn row_pipe(b: Bs) -> bool;

spec fn num_class(c: u8) -> Option<OrderedListNumbering> {
    if 48 <= c <= 57 { Some(OrderedListNumbering::Decimal) }
    else if roman_lower(c) { Some(OrderedListNumbering::RomanLower) }
    else if roman_upper(c) { Some(OrderedListNumbering::RomanUpper) }
    else if 97 <= c <= 122 { Some(OrderedListNumbering::AlphaLower) }
    else if 65 <= c <= 90 { Some(OrderedListNumbering::AlphaUpper) }
    else { None }
}
/// End of the characters of a number from `i` on, before `lim`.
spec fn num_run(n: OrderedListNumbering, b: Bs, i: int, lim: int) -> int
    decreases b.len() - i
{ if 0 <= i < b.len() && i < lim && num_char(n, b[i]) { num_run(n, b, i + 1, lim) } else { i } }

/// Marker of an ordered item: number, style and length.
spec fn s_ordered(b: Bs) -> Option<(ListNumber, OrderedListStyle, int)> {
    let p = if b[0] == 40 { 1int } else { 0 };
    if p >= b.len() { None } else {
        match num_class(b[p]) {
            None => None,
            Some(n) => {
                let e = num_run(n, b, p + 1, p + num_max(n));
                if e >= b.len() { None }
                else if p == 1 && b[e] != 41 || b[e] != 41 && b[e] != 46 { None }
                else if !ends(b, e + 1) { None }
                else {
                    let st = if p == 1 { OrderedListStyle::ParenParen } else if b[e] == 41 { OrderedListStyle::Paren } else { OrderedListStyle::Period };
                    Some((ListNumber { numbering: n, value: num_value(n, b.subrange(p, e)) as u64 }, st, e + 1))
                }
            }
        }
    }
}

/// A block, as far as it has been read.
enum SK {
    Blank, Attrs, Break, Para, Quote,
    Heading(int),
    Fence { indent: int, len: int, kind: FenceKind, spec_: Bs, closed: bool, nested: Option<(u8, usize)> },
    Def { indent: int, foot: bool, label: Bs, blank: bool },
    Item { indent: int, ty: ListType, blank: bool },
    Table { caption: bool, blank: bool },
}
spec fn sk(k: Kind) -> SK {
    match k {
        Kind::Atom(Atom::Blankline) => SK::Blank,
        Kind::Atom(Atom::Attributes) => SK::Attrs,
        Kind::Atom(Atom::ThematicBreak) => SK::Break,
        Kind::Paragraph => SK::Para,
        Kind::Heading { level } => SK::Heading(level as int),
        Kind::Fenced { indent, fence_length, kind, spec, has_closing_fence, nested_raw } =>
            SK::Fence { indent: indent as int, len: fence_length as int, kind, spec_: sb(spec), closed: has_closing_fence, nested: nested_raw },
        Kind::Definition { indent, footnote, label, last_blankline } => SK::Def { indent: indent as int, foot: footnote, label: sb(label), blank: last_blankline },
        Kind::Blockquote => SK::Quote,
        Kind::ListItem { indent, ty, last_blankline } => SK::Item { indent: indent as int, ty, blank: last_blankline },
        Kind::Table { caption, blankline } => SK::Table { caption, blank: blankline },
    }
}
spec fn s_item(k: int, ty: ListType) -> SK { SK::Item { indent: k, ty, blank: false } }

/// The block that a line starts and the span of its marker.
spec fn ident(b: Bs) -> (SK, int, int) {
    let k = lead(b, 0);
    if k == b.len() { (SK::Blank, k, k) } else {
        match ident_t(b.subrange(k, b.len() as int), k) { Some(r) => r, None => (SK::Para, k, k) }
    }
}
/// The same for a line without leading white space, indented by `k`.
spec fn ident_t(t: Bs, k: int) -> Option<(SK, int, int)> {
    let n = t.len() as int;
    let lt = tail(t, n);
    let c = t[0];
    if c == 10 { Some((SK::Blank, k, k + 1)) }
    else if c == 35 { let l = run(t, 35, 0); if ends(t, l) { Some((SK::Heading(l), k, k + l)) } else { None } }
    else if c == 62 { if ends(t, 1) { Some((SK::Quote, k, k + 1)) } else { None } }
    else if c == 123 { if attr_len(t) == lt { Some((SK::Attrs, k, k + n)) } else { None } }
    else if c == 124 { if table_row(t.subrange(0, lt)) { Some((SK::Table { caption: false, blank: false }, k, k)) } else { None } }
    else if c == 91 {
        let l = find(t, 93, 1);
        if l < n && l + 1 < n && t[l + 1] == 58 {
            let foot = l > 1 && t[1] == 94;
            Some((SK::Def { indent: k, foot, label: t.subrange(if foot { 2 } else { 1 }, l), blank: false }, 0, k + l + 2))
        } else { None }
    }
    else if (c == 45 || c == 42) && s_break(t) { Some((SK::Break, k, k + lt)) }
    else if c == 45 || c == 42 || c == 43 {
        if n == 1 || t[1] == 32 {
            if n >= 5 && t[2] == 91 && (t[3] == 120 || t[3] == 88 || t[3] == 32) && t[4] == 93 && ends(t, 5) { Some((s_item(k, ListType::Task(c)), k, k + 5)) }
            else { Some((s_item(k, ListType::Unordered(c)), k, k + 1)) }
        } else { None }
    }
    else if c == 58 && ends(t, 1) { Some((s_item(k, ListType::Description), k, k + 1)) }
    else if c == 96 || c == 58 || c == 126 {
        let l = run(t, c, 0);
        let s0 = t.subrange(l, lt);
        let s = s0.subrange(lead_ws(s0, 0), s0.len() as int);
        if l >= 3 && (if c == 58 { forall|i: int| 0 <= i < s.len() ==> name(#[trigger] s[i]) } else { forall|i: int| 0 <= i < s.len() ==> !ascii_ws(#[trigger] s[i]) && s[i] != 96 }) {
            Some((SK::Fence { indent: k, len: l, kind: if c == 58 { FenceKind::Div } else { FenceKind::CodeBlock(c) }, spec_: s, closed: false, nested: None }, k, k + n))
        } else { None }
    }
    else {
        match s_ordered(t) { Some((num, st, l)) => Some((s_item(k, ListType::Ordered(num, st)), k, k + l)), None => None }
    }
}
spec fn name(c: u8) -> bool { ascii_alnum(c) || c == 58 || c == 95 || c == 45 }

proof fn lemma_lead(b: Bs, i: int, k: int)
    requires 0 <= i <= k <= b.len(), forall|x: int| i <= x < k ==> ascii_ws(#[trigger] b[x]) && b[x] != 10, k < b.len() ==> !(ascii_ws(b[k]) && b[k] != 10)
    ensures lead(b, i) == k
    decreases k - i
{ if i < k { assert(ascii_ws(b[i]) && b[i] != 10); lemma_lead(b, i + 1, k); } }
proof fn lemma_run(b: Bs, c: u8, i: int, k: int)
    requires 0 <= i <= k <= b.len(), forall|x: int| i <= x < k ==> #[trigger] b[x] == c, k < b.len() ==> b[k] != c
    ensures run(b, c, i) == k
    decreases k - i
{ if i < k { assert(b[i] == c); lemma_run(b, c, i + 1, k); } }
proof fn lemma_find(b: Bs, c: u8, i: int, k: int)
    requires 0 <= i <= k <= b.len(), forall|x: int| i <= x < k ==> #[trigger] b[x] != c, k < b.len() ==> b[k] == c
    ensures find(b, c, i) == k
    decreases k - i
{ if i < k { assert(b[i] != c); lemma_find(b, c, i + 1, k); } }
proof fn lemma_num_run(n: OrderedListNumbering, b: Bs, i: int, lim: int, k: int)
    requires 0 <= i <= k <= b.len(), k <= lim, forall|x: int| i <= x < k ==> num_char(n, #[trigger] b[x]), k < b.len() && k < lim ==> !num_char(n, b[k])
    ensures num_run(n, b, i, lim) == k
    decreases k - i
{ if i < k { assert(num_char(n, b[i])); lemma_num_run(n, b, i + 1, lim, k); } }
proof fn lemma_marks(b: Bs, i: int)
    requires 0 <= i <= b.len()
    ensures 0 <= marks(b, i) <= i
    decreases i
{ if i > 0 { lemma_marks(b, i - 1); } }
/// Ends of lines with a backslash before the pipe.
proof fn lemma_escaped_pipe() ensures sb("\\|") == seq![92u8, 124u8]
{ broadcast use group_utf8_lib; reveal_strlit("\\|"); assert(is_ascii_chars("\\|"@)); assert(sb("\\|") =~= seq![92u8, 124u8]); }
proof fn lemma_caption(t: Bs) ensures (t.len() >= sb("^ ").len() && t.subrange(0, sb("^ ").len() as int) == sb("^ ")) == s_caption(t)
{ lemma_caret(); if s_caption(t) { assert(t.subrange(0, 2) =~= seq![94u8, 32u8]); } else if t.len() >= 2 { assert(t.subrange(0, 2)[0] == t[0] && t.subrange(0, 2)[1] == t[1]); } }
proof fn lemma_caret() ensures sb("^ ") == seq![94u8, 32u8]
{ broadcast use group_utf8_lib; reveal_strlit("^ "); assert(is_ascii_chars("^ "@)); assert(sb("^ ") =~= seq![94u8, 32u8]); }

/// `starts_with` and `ends_with` (assumed contracts).
trait VPat: Sized {
    spec fn pat(&self) -> Bs;
    spec fn pat_ok(&self) -> bool;
    spec fn starts(&self, b: Bs) -> bool;
}
impl VPat for char { spec fn pat(&self) -> Bs { seq![*self as u8] } spec fn pat_ok(&self) -> bool { (*self as u32) < 128 } spec fn starts(&self, b: Bs) -> bool { b.len() > 0 && b[0] == *self as u8 } }
impl VPat for &str { spec fn pat(&self) -> Bs { sb(*self) } spec fn pat_ok(&self) -> bool { true } spec fn starts(&self, b: Bs) -> bool { b.len() >= sb(*self).len() && b.subrange(0, sb(*self).len() as int) == sb(*self) } }
#[verifier::external_body]
fn v_starts_with<P: VPat>(s: &str, p: P) -> (r: bool)
    requires p.pat_ok()
    ensures r == p.starts(sb(s))
{ unimplemented!() }
#[verifier::external_body]
fn v_ends_with<P: VPat>(s: &str, p: P) -> (r: bool)
    requires p.pat_ok()
    ensures r == (sb(s).len() >= p.pat().len() && sb(s).subrange(sb(s).len() - p.pat().len(), sb(s).len() as int) == p.pat())
{ unimplemented!() }
/// Position of a character in the rest of a text (str::find).
fn v_as_str_find(c: &VChars<'_>, x: char) -> (r: Option<usize>)
    requires c.full(), (x as u32) < 128
    ensures
        r is None ==> forall|i: int| c.pos <= i < c.back ==> #[trigger] sb(c.s)[i] != x as u8,
        r is Some ==> c.pos + r->0 < c.back && sb(c.s)[c.pos + r->0] == x as u8 && forall|i: int| c.pos <= i < c.pos + r->0 ==> #[trigger] sb(c.s)[i] != x as u8,
        r is Some ==> { let u = sb(c.s).subrange(c.pos as int, c.back as int); bnd(u, r->0 as int) && bnd(u, r->0 + 1) },
{
    let s = c.as_str();
    let b = s.as_bytes();
    let mut i: usize = 0;
    while i < b.len()
        invariant i <= b@.len(), b@ == sb(s), c.full(), (x as u32) < 128, sb(s) == sb(c.s).subrange(c.pos as int, c.back as int),
            forall|j: int| c.pos <= j < c.pos + i ==> #[trigger] sb(c.s)[j] != x as u8,
        decreases b@.len() - i
    {
        assert(b@[i as int] == sb(c.s)[c.pos + i]);
        if b[i] == x as u8 {
            proof { lemma_valid(s); lemma_ascii_boundary(sb(s), i as int); }
            return Some(i);
        }
        i += 1;
    }
    None
}
@end
@fn IdentifiedBlock::is_thematic_break
    ret r
    opt matches
    subst /std::str::Chars/VChars<'_>/
    req
        chars.full(), chars.pos == 1, sb(chars.s)[0] == 45 || sb(chars.s)[0] == 42, 0 < sb(chars.s).len() < 0x7fff_ffff,
    ens
        r == s_break(sb(chars.s)),
    loop 0
        invariant
            __it0.full(), __it0.s == chars.s, __it0.pos >= 1, n == marks(sb(chars.s), __it0.pos as int), 0 < sb(chars.s).len() < 0x7fff_ffff,
            forall|i: int| 0 <= i < __it0.pos ==> #[trigger] sb(chars.s)[i] == 45 || sb(chars.s)[i] == 42 || ascii_ws(sb(chars.s)[i]),
        ensures
            __it0.pos == sb(chars.s).len(),
        decreases __it0.back - __it0.pos,
    at loop 0 start
        proof { lemma_marks(sb(chars.s), __it0.pos as int); }
    at start
        proof { assert(marks(sb(chars.s), 0) == 0); assert(marks(sb(chars.s), 1) == 1); }
@end
@fn IdentifiedBlock::maybe_ordered_list_item/is_roman_lower_digit
    ret r
    opt matches
    ens
        r == ((c as u32) < 128 && roman_lower(c as u8)),
@end
@fn IdentifiedBlock::maybe_ordered_list_item/is_roman_upper_digit
    ret r
    opt matches
    ens
        r == ((c as u32) < 128 && roman_upper(c as u8)),
@end
@raw
proof fn lemma_ord(b: Bs, p: int, n: OrderedListNumbering, e: int)
    requires
        valid_utf8(b), 0 <= p < e <= b.len(), p <= 1, e <= p + num_max(n), num_class(b[p]) == Some(n), p == 1 ==> b[0] == 40,
        forall|x: int| p + 1 <= x < e ==> num_char(n, #[trigger] b[x]) && b[x] < 128, e < b.len() && e < p + num_max(n) ==> !num_char(n, b[e]),
    ensures
        num_run(n, b, p + 1, p + num_max(n)) == e, num_bytes(n, b.subrange(p, e)), bnd(b, p), bnd(b, e), p + 1 <= e,
        forall|x: int| 0 <= x < e ==> #[trigger] b[x] < 128,
{
    lemma_num_run(n, b, p + 1, p + num_max(n), e);
    assert(num_char(n, b[p]) && b[p] < 128);
    lemma_ascii_boundary(b, p); lemma_ascii_boundary(b, e - 1);
}
@end
@fn IdentifiedBlock::maybe_ordered_list_item
    ret r
    opt hoist m_chars slice
    attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
    req
        sb(line).len() > 0,
    ens
        r is Some <==> s_ordered(sb(line)) is Some,
        r matches Some((n, st, l)) ==> s_ordered(sb(line)) == Some((n, st, l as int)) && num_ok(n) && l <= sb(line).len(),
    subst /usize::from(/v_us(/
    closure 0 |c: &char| -> (r: bool) ensures r == ((*c as u32) < 128 && num_char(numbering, *c as u8))
    at let len_num
        proof {
            let b = sb(line);
            let p = if start_paren { 1int } else { 0 };
            let e = p + len_num;
            assert(sb(chars.s) == b && chars.pos == p + 1 && b[p] < 128 && num_class(b[p]) == Some(numbering));
            assert(start_paren == (b[0] == 40));
            assert forall|x: int| p + 1 <= x < e implies num_char(numbering, #[trigger] b[x]) && b[x] < 128 by { let c = b[x] as char; }
            lemma_valid(line);
            lemma_ord(b, p, numbering, e);
        }
    at let style
        proof {
            let b = sb(line);
            let p = if start_paren { 1int } else { 0 };
            let e = p + len_num;
            assert(e < b.len() && chars.pos == e + 1);
            lemma_ascii_boundary(b, e);
            let m = b.subrange(0, e + 1);
            assert(m.subrange(p, m.len() - 1) =~= b.subrange(p, e));
        }
@end
@fn is_table_row
    ret r
    opt fn_starts_with fn_ends_with matches
    subst /lex::Lexer::new(&line.as_bytes()[1..])/v_lexer(line)/
    subst /lex::Token {/Token {/
    subst /lex::Kind/LKind/
    subst /lex::Sequence/Sequence/
    subst /line.len()/line.v_len()/
    ens
        r ==> row_shape(sb(line)),
    at start
        proof {
            lemma_escaped_pipe();
            let b = sb(line);
            let n = b.len() as int;
            if n >= 2 {
                assert(b.subrange(0, 1)[0] == b[0] && b.subrange(n - 1, n)[0] == b[n - 1]);
                if b[n - 1] == 124 && b[n - 2] == 92 { assert(b.subrange(n - 2, n) =~= seq![92u8, 124u8]); }
            }
        }
    loop 0
        invariant
            true,
        decreases lex.left,
@end
@raw
/// is_table_row as a function of the line: only that it always gives the same answer is assumed.
fn v_table_row(line: &str) -> (r: bool)
    ensures r == table_row(sb(line)), r ==> row_shape(sb(line))
{
    let r = is_table_row(line);
    assume(r == row_pipe(sb(line)));
    r
}
@end
@file src/attr.rs
@fn is_name
    ret r
    ens
        r == name(c),
@end
@file src/block.rs
@raw
/// First character of a line after its indentation; -1 if there is none.
spec fn first_of(b: Bs) -> int { let k = lead(b, 0); if k < b.len() { b[k] as int } else { -1 } }
/// What the trimmed line `t` is called where it is used below.
spec fn runs_are(t: Bs, c: u8) -> bool {
    forall|k: int| 0 <= k <= t.len() && #[trigger] bnd(t, k) && (forall|x: int| 0 <= x < k ==> #[trigger] t[x] == c) && (k < t.len() ==> t[k] != c) ==> run(t, c, 0) == k
}
proof fn lemma_runs_are(t: Bs, c: u8) ensures runs_are(t, c)
{
    assert forall|k: int| 0 <= k <= t.len() && #[trigger] bnd(t, k) && (forall|x: int| 0 <= x < k ==> #[trigger] t[x] == c) && (k < t.len() ==> t[k] != c) implies run(t, c, 0) == k by { lemma_run(t, c, 0, k); }
}
spec fn finds_are(t: Bs, c: u8) -> bool {
    &&& forall|k: int| 1 <= k < t.len() && (forall|x: int| 1 <= x < k ==> #[trigger] t[x] != c) && #[trigger] t[k] == c ==> find(t, c, 1) == k
    &&& t.len() >= 1 && (forall|x: int| 1 <= x < t.len() ==> #[trigger] t[x] != c) ==> find(t, c, 1) == t.len()
}
proof fn lemma_finds_are(t: Bs, c: u8) ensures finds_are(t, c)
{
    assert forall|k: int| 1 <= k < t.len() && (forall|x: int| 1 <= x < k ==> #[trigger] t[x] != c) && #[trigger] t[k] == c implies find(t, c, 1) == k by { lemma_find(t, c, 1, k); }
    if t.len() >= 1 && (forall|x: int| 1 <= x < t.len() ==> #[trigger] t[x] != c) { lemma_find(t, c, 1, t.len() as int); }
}
@end
@fn IdentifiedBlock::new
    ret r
    attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    opt m_chars slice opt_map opt_and_then match_guards m_trim_start_matches m_trim_end_matches fn_as_str_find m_starts_with m_bytes matches eq
    subst /usize::from(/v_us(/
    subst /line.len()/line.v_len()/
    subst /line_t.len()/line_t.v_len()/
    subst /attr::valid(/v_attr_valid(/
    subst /attr::is_name/is_name/
    subst /is_table_row(/v_table_row(/
    case none only c10: first_of(sb(line)) == -1
    case blank only c10: first_of(sb(line)) == 10
    case heading only c35: first_of(sb(line)) == 35
    case quote only c62: first_of(sb(line)) == 62
    case attrs only c123: first_of(sb(line)) == 123
    case table only c124: first_of(sb(line)) == 124
    case def only c91: first_of(sb(line)) == 91
    case bullet only c45: first_of(sb(line)) == 45 || first_of(sb(line)) == 42 || first_of(sb(line)) == 43
    case colon only c58: first_of(sb(line)) == 58
    case tick only c96: first_of(sb(line)) == 96
    case tilde only c126: first_of(sb(line)) == 126
    case other only _: !(first_of(sb(line)) == -1 || first_of(sb(line)) == 10 || first_of(sb(line)) == 35 || first_of(sb(line)) == 62 || first_of(sb(line)) == 123 || first_of(sb(line)) == 124 || first_of(sb(line)) == 91 || first_of(sb(line)) == 45 || first_of(sb(line)) == 42 || first_of(sb(line)) == 43 || first_of(sb(line)) == 58 || first_of(sb(line)) == 96 || first_of(sb(line)) == 126)
    req
        sb(line).len() < 0x7fff_ffff,
    ens
        ident(sb(line)) == (sk(r.kind), r.span.start as int, r.span.end as int),
        sk(r.kind) matches SK::Item { ty, .. } ==> ty_ok(ty),
    closure 0 |c: char| -> (r: bool) ensures r == (cws(c) && c != '\n')
    closure 1 |c: char| -> (r: bool) ensures r == cws(c)
    closure 2 |c: &char| -> (r: bool) ensures r == (*c != '#')
    closure 5 |c: &u8| -> (r: bool) ensures r == (*c == 35)
    closure 13 |c: &char| -> (r: bool) ensures r == (*c == f)
    closure 14 |c: char| -> (r: bool) ensures r == cws(c)
    closure 15 |c: u8| -> (r: bool) ensures r == ascii_ws(c)
    closure 16 |c: u8| -> (r: bool) ensures r == (c == 96)
    at start
        let ghost b0 = sb(line);
        proof { lemma_valid(line); }
    at let line
        proof {
            let k = b0.len() - sb(line).len();
            assert forall|x: int| 0 <= x < k implies ascii_ws(#[trigger] b0[x]) && b0[x] != 10 by { let c = b0[x] as char; }
            lemma_lead(b0, 0, k);
        }
        let ghost t = sb(line);
    at let line_t
        proof {
            lemma_valid(line);
            assert forall|x: int| sb(line_t).len() <= x < t.len() implies ascii_ws(#[trigger] t[x]) by { let c = t[x] as char; }
            lemma_tail(t, t.len() as int, sb(line_t).len() as int);
            let c = first_of(b0);
            if c == 35 || c == 58 || c == 96 || c == 126 { lemma_runs_are(t, c as u8); }
            if c == 91 { lemma_finds_are(t, 93); }
            assert(ident(b0) == (if t.len() == 0 { (SK::Blank, indent as int, indent as int) } else { match ident_t(t, indent as int) { Some(r) => r, None => (SK::Para, indent as int, indent as int) } }));
        }
    at let label
        proof { lemma_valid(label); assert(t[l + 2] == 58); assert(find(t, 93, 1) == l + 1); }
    at let footnote
        proof {
            assert(sb(label) =~= t.subrange(1, l + 1));
            if footnote { lemma_ascii_boundary(sb(label), 0); assert(sb(label).subrange(1, l as int) =~= t.subrange(2, l + 1)); }
            else { assert(sb(label).subrange(0, l as int) =~= t.subrange(1, l + 1)); }
        }
    at let level
        proof { lemma_run(t, 35, 0, level as int); }
    at let fence_length
        proof {
            let c = f as u8;
            assert forall|x: int| 0 <= x < fence_length implies #[trigger] t[x] == c by { let c = t[x] as char; }
            lemma_run(t, c, 0, fence_length as int);
            assert forall|x: int| 0 <= x < fence_length implies !ascii_ws(#[trigger] t[x]) by {}
            if lt < fence_length { assert(ascii_ws(t[lt as int])); }
            lemma_ascii_boundary(t, fence_length - 1);
            lemma_valid(line_t); lemma_ascii_boundary(sb(line_t), fence_length - 1);
        }
    at let spec
        proof {
            let s0 = sb(line_t).subrange(fence_length as int, lt as int);
            assert(s0 =~= t.subrange(fence_length as int, lt as int));
            let k = s0.len() - sb(*spec).len();
            assert forall|x: int| 0 <= x < k implies ascii_ws(#[trigger] s0[x]) by { let c = s0[x] as char; }
            lemma_lead_ws(s0, 0, k);
            assert(sb(*spec) == s0.subrange(k, s0.len() as int));
        }
    at let valid_spec
        proof {
            let s = sb(*spec);
            assert(f == ':' <==> f as u8 == 58);
            if f == ':' {
                assert(valid_spec ==> forall|i: int| 0 <= i < s.len() ==> name(#[trigger] s[i]));
                assert(!valid_spec ==> exists|i: int| 0 <= i < s.len() && !name(#[trigger] s[i]));
            } else {
                assert(valid_spec ==> forall|i: int| 0 <= i < s.len() ==> !ascii_ws(#[trigger] s[i]) && s[i] != 96);
                assert(!valid_spec ==> exists|i: int| 0 <= i < s.len() && (ascii_ws(#[trigger] s[i]) || s[i] == 96));
            }
        }
@end
@raw
impl VEq for FenceKind { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { match (self, o) { (FenceKind::Div, FenceKind::Div) => true, (FenceKind::CodeBlock(a), FenceKind::CodeBlock(b)) => *a == *b, _ => false } } }
// ---- which lines continue a block
spec fn s_caption(t: Bs) -> bool { t.len() >= 2 && t[0] == 94 && t[1] == 32 }
spec fn cont(s: SK, b: Bs) -> (SK, bool) {
    let next = ident(b).0;
    match s {
        SK::Blank | SK::Attrs | SK::Break => (s, false),
        SK::Quote => (s, next is Quote || next is Para),
        SK::Heading(l) => (s, next is Para || next == SK::Heading(l)),
        SK::Para => (s, !blank(b)),
        SK::Item { indent, ty, blank } => (SK::Item { indent, ty, blank: next is Blank }, next is Blank || lead_ws(b, 0) > indent || !blank && next is Para),
        SK::Def { indent, foot, label, blank: bl } =>
            if foot { (SK::Def { indent, foot, label, blank: next is Blank }, next is Blank || lead_ws(b, 0) > indent || !bl && next is Para) }
            else { (s, b.len() > 0 && b[0] == 32 && !blank(b)) },
        SK::Fence { indent, len, kind, spec_, closed, nested } =>
            if closed { (s, false) } else {
                match next {
                    SK::Fence { len: l, kind: k, spec_: sp, .. } => {
                        if let Some((c, nl)) = nested {
                            (if k == FenceKind::CodeBlock(c) && l >= nl && sp.len() == 0 { SK::Fence { indent, len, kind, spec_, closed, nested: None } } else { s }, true)
                        } else if k == kind {
                            (SK::Fence { indent, len, kind, spec_, closed: l >= len && sp.len() == 0, nested }, true)
                        } else if kind == FenceKind::Div {
                            (match k { FenceKind::CodeBlock(c) => SK::Fence { indent, len, kind, spec_, closed, nested: Some((c, l as usize)) }, _ => s }, true)
                        } else { (s, true) }
                    }
                    _ => (s, true),
                }
            },
        SK::Table { caption, blank: bl } =>
            if caption { (s, !blank(b)) }
            else if blank(b) { (SK::Table { caption, blank: true }, true) }
            else if s_caption(trim(b)) { (SK::Table { caption: true, blank: bl }, true) }
            else { (s, !bl && table_row(trim(b))) },
    }
}
@end
@fn Kind::continues
    ret r
    opt m_chars slice opt_map match_guards m_trim_start_matches m_trim_matches fn_starts_with m_is_empty m_bytes matches eq
    subst /line.len()/line.v_len()/
    subst /line_t.len()/line_t.v_len()/
    subst /is_table_row(/v_table_row(/
    closure 0 |c: char| -> (r: bool) ensures r == cws(c)
    closure 1 |c: char| -> (r: bool) ensures r == cws(c)
    closure 2 |c: char| -> (r: bool) ensures r == cws(c)
    closure 3 |c: char| -> (r: bool) ensures r == cws(c)
    closure 4 |c: char| -> (r: bool) ensures r == cws(c)
    req
        sb(line).len() < 0x7fff_ffff,
    ens
        (sk(*final(self)), r) == cont(sk(*old(self)), sb(line)),
    at start
        proof { lemma_caption(trim(sb(line))); }
@end
@raw
/// An iterator over lines (stands for the type parameter of MeteredBlock::new).
#[verifier::external_body]
struct VLines<'s> { it: std::slice::Iter<'s, &'s str> }
impl<'s> VLines<'s> {
    uninterp spec fn rest(&self) -> Seq<&'s str>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'s str>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().subrange(1, old(self).rest().len() as int),
    { unimplemented!() }
}
/// The lines that continue a block: its state after them and their number.
spec fn cont_run(s: SK, ls: Seq<&str>) -> (SK, int)
    decreases ls.len()
{
    if ls.len() == 0 { (s, 0) } else {
        let (s2, c) = cont(s, sb(ls[0]));
        if c { let r = cont_run(s2, ls.subrange(1, ls.len() as int)); (r.0, r.1 + 1) } else { (s2, 0) }
    }
}
proof fn lemma_cont_run(s: SK, ls: Seq<&str>)
    ensures 0 <= cont_run(s, ls).1 <= ls.len()
    decreases ls.len()
{ if ls.len() > 0 && cont(s, sb(ls[0])).1 { lemma_cont_run(cont(s, sb(ls[0])).0, ls.subrange(1, ls.len() as int)); } }
@end
@fn MeteredBlock::new
    ret r
    opt opt_map iter_count
    subst /<I: Iterator<Item = &'s str>>(mut lines: I)/(mut lines: VLines<'s>)/
    req
        lines.rest().len() < usize::MAX,
        forall|i: int| 0 <= i < lines.rest().len() ==> sb(#[trigger] lines.rest()[i]).len() < 0x7fff_ffff,
    ens
        r is Some <==> lines.rest().len() > 0,
        r matches Some(m) ==> {
            let ls = lines.rest();
            let (s, a, e) = ident(sb(ls[0]));
            let (s2, n) = cont_run(s, ls.subrange(1, ls.len() as int));
            &&& sk(m.kind) matches SK::Item { ty, .. } ==> ty_ok(ty)
            &&& sk(m.kind) == s2 && m.span.start == a && m.span.end == e && m.line_count == 1 + n && 1 <= m.line_count <= ls.len()
        },
    at let line_count before
        let ghost ls = lines.rest();
        let ghost s0 = sk(kind);
        proof { lemma_cont_run(s0, ls); assert(lines.rest() == l0.subrange(1, l0.len() as int)); assert(sb(l) == sb(l0[0])); }
    loop 0
        invariant_except_break
            cont_run(s0, ls) == (cont_run(sk(kind), __it0.rest()).0, cont_run(sk(kind), __it0.rest()).1 + __n0),
        invariant
            sk(kind) matches SK::Item { ty, .. } ==> ty_ok(ty),
            __n0 <= ls.len(), ls.len() < usize::MAX, __n0 + __it0.rest().len() <= ls.len(),
            forall|i: int| 0 <= i < __it0.rest().len() ==> sb(#[trigger] __it0.rest()[i]).len() < 0x7fff_ffff,
        ensures
            cont_run(s0, ls) == (sk(kind), __n0 as int),
        decreases __it0.rest().len(),
    at start
        let ghost l0 = lines.rest();
@end
