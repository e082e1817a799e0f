// Output of the HTML renderer: a writer that may fail at any call, and a scanner of what was written.
@include attrval.vc
@raw
global size_of usize == 8;
// ---- a scanner of HTML text: mode, name of the current tag (in base 256), open elements
#[derive(PartialEq, Eq, Structural)]
pub enum M { Text, AmpT, Lt, Name, EndName, In, Val, AmpV, Bad }
pub struct Lx { pub m: M, pub n: int, pub st: Seq<int> }
pub open spec fn lx(m: M, n: int, st: Seq<int>) -> Lx { Lx { m, n, st } }
pub open spec fn low(c: u8) -> bool { 97 <= c <= 122 || 48 <= c <= 57 }
/// img, hr, br, input have no end tag
pub open spec fn void(n: int) -> bool { n == 0x696d67 || n == 0x6872 || n == 0x6272 || n == 0x696e707574 }
pub open spec fn close(l: Lx) -> Lx { if void(l.n) { lx(M::Text, 0, l.st) } else { lx(M::Text, 0, l.st.push(l.n)) } }
pub open spec fn bad() -> Lx { lx(M::Bad, 0, Seq::empty()) }
/// `<` and `&` begin a tag or character reference, a start tag opens an element, an end tag must close the innermost one.
pub open spec fn step(l: Lx, c: u8) -> Lx {
    match l.m {
        M::Text => if c == 60 { lx(M::Lt, 0, l.st) } else if c == 62 { bad() } else if c == 38 { lx(M::AmpT, 0, l.st) } else { l },
        M::AmpT => if c == 59 { lx(M::Text, 0, l.st) } else if low(c) { l } else { bad() },
        M::Lt => if c == 47 { lx(M::EndName, 0, l.st) } else if low(c) { lx(M::Name, c as int, l.st) } else { bad() },
        M::Name => if low(c) { lx(M::Name, l.n * 256 + c, l.st) } else if c == 32 { lx(M::In, l.n, l.st) } else if c == 62 { close(l) } else { bad() },
        M::EndName => if low(c) { lx(M::EndName, l.n * 256 + c, l.st) } else if c == 62 && l.st.len() > 0 && l.st.last() == l.n { lx(M::Text, 0, l.st.drop_last()) } else { bad() },
        M::In => if c == 34 { lx(M::Val, l.n, l.st) } else if c == 62 { close(l) } else if c == 60 || c == 38 || c == 39 { bad() } else { l },
        M::Val => if c == 34 { lx(M::In, l.n, l.st) } else if c == 60 || c == 62 { bad() } else if c == 38 { lx(M::AmpV, l.n, l.st) } else { l },
        M::AmpV => if c == 59 { lx(M::Val, l.n, l.st) } else if low(c) { l } else { bad() },
        M::Bad => l,
    }
}
pub open spec fn sc(l: Lx, b: Bs, i: int) -> Lx decreases i { if i <= 0 { l } else { step(sc(l, b, i - 1), b[i - 1]) } }
pub open spec fn scan(l: Lx, b: Bs) -> Lx { sc(l, b, b.len() as int) }
proof fn lemma_sc_prefix(l: Lx, a: Bs, b: Bs, i: int)
    requires 0 <= i <= a.len()
    ensures sc(l, a + b, i) == sc(l, a, i)
    decreases i
{ if i > 0 { lemma_sc_prefix(l, a, b, i - 1); } }
proof fn lemma_sc_suffix(l: Lx, a: Bs, b: Bs, i: int)
    requires 0 <= i <= b.len()
    ensures sc(l, a + b, a.len() + i) == sc(scan(l, a), b, i)
    decreases i
{ if i > 0 { lemma_sc_suffix(l, a, b, i - 1); } else { lemma_sc_prefix(l, a, b, a.len() as int); } }
broadcast proof fn lemma_scan_concat(l: Lx, a: Bs, b: Bs)
    ensures #[trigger] scan(l, a + b) == scan(scan(l, a), b)
{ lemma_sc_suffix(l, a, b, b.len() as int); }
proof fn lemma_scan_one(l: Lx, c: u8)
    ensures scan(l, seq![c]) == step(l, c)
{ reveal_with_fuel(sc, 2); }
proof fn lemma_scan_empty(l: Lx) ensures scan(l, Seq::empty()) == l {}

/// No character with a meaning in tags or values.
pub open spec fn plain_c(c: u8) -> bool { c != 34 && c != 38 && c != 39 && c != 60 && c != 62 }
pub open spec fn plain(b: Bs) -> bool { forall|i: int| 0 <= i < b.len() ==> plain_c(#[trigger] b[i]) }
proof fn lemma_sc_plain(l: Lx, b: Bs, i: int)
    requires plain(b), l.m is Text || l.m is In || l.m is Val, 0 <= i <= b.len()
    ensures sc(l, b, i) == l
    decreases i
{ if i > 0 { lemma_sc_plain(l, b, i - 1); assert(plain_c(b[i - 1])); } }
broadcast proof fn lemma_scan_plain(l: Lx, b: Bs)
    requires plain(b), l.m is Text || l.m is In || l.m is Val
    ensures #[trigger] scan(l, b) == l
{ lemma_sc_plain(l, b, b.len() as int); }

/// Digits extend a tag name.
pub open spec fn digits(b: Bs) -> bool { b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> 48 <= #[trigger] b[i] <= 57 }
pub open spec fn nm(n: int, b: Bs) -> int decreases b.len() { if b.len() == 0 { n } else { nm(n, b.drop_last()) * 256 + b.last() } }
proof fn lemma_sc_digits(l: Lx, b: Bs, i: int)
    requires digits(b), l.m is Name || l.m is EndName, 0 <= i <= b.len()
    ensures sc(l, b, i) == lx(l.m, nm(l.n, b.subrange(0, i)), l.st)
    decreases i
{
    if i > 0 {
        lemma_sc_digits(l, b, i - 1);
        assert(b.subrange(0, i).drop_last() =~= b.subrange(0, i - 1));
        assert(48 <= b[i - 1] <= 57);
    }
}
broadcast proof fn lemma_scan_digits(l: Lx, b: Bs)
    requires digits(b), l.m is Name || l.m is EndName
    ensures #[trigger] scan(l, b) == lx(l.m, nm(l.n, b), l.st), !void(nm(l.n, b))
{
    lemma_sc_digits(l, b, b.len() as int);
    assert(b.subrange(0, b.len() as int) =~= b);
    let x = nm(l.n, b.drop_last());
    assert(48 <= b.last() <= 57);
    assert((x * 256 + b.last()) % 256 == b.last()) by (nonlinear_arith) requires 48 <= b.last() <= 57;
}

// ---- the writer
pub struct VErr;
pub type VResult = Result<(), VErr>;
/// Stands for std::fmt::Write. `out` is everything written so far; calls after a failure are not allowed.
pub trait VWrite {
    spec fn out(&self) -> Bs;
    spec fn failed(&self) -> bool;
    fn write_str(&mut self, s: &str) -> (r: VResult)
        requires !old(self).failed()
        ensures wrote(r, old(self).out(), final(self).failed(), final(self).out(), sb(s));
    fn write_char(&mut self, c: char) -> (r: VResult)
        requires !old(self).failed()
        ensures wrote(r, old(self).out(), final(self).failed(), final(self).out(), encode_utf8(seq![c]));
}
/// Success: exactly `b` was added. Failure is remembered.
pub open spec fn wrote(r: VResult, before: Bs, failed: bool, after: Bs, b: Bs) -> bool {
    &&& failed == r is Err
    &&& r is Ok ==> after == before + b
}
/// The scanner's state after everything written.
pub open spec fn lex<W: VWrite>(w: &W) -> Lx { scan(lx(M::Text, 0, Seq::empty()), w.out()) }
proof fn lemma_ascii_char(c: char)
    requires (c as u32) < 128
    ensures encode_utf8(seq![c]) == seq![c as u8]
{
    broadcast use group_utf8_lib;
    let s = seq![c];
    assert(is_ascii_chars(s));
    assert(encode_utf8(s) =~= seq![c as u8]);
}
broadcast proof fn lemma_scan_char(l: Lx, c: char)
    requires (c as u32) < 128
    ensures #[trigger] scan(l, encode_utf8(seq![c])) == step(l, c as u8)
{ lemma_ascii_char(c); lemma_scan_one(l, c as u8); }
broadcast group group_html { lemma_scan_concat, lemma_scan_plain, lemma_scan_digits, lemma_scan_char }

/// A writer for which the contract is proved: a string of limited capacity.
pub struct Limited { pub s: Vec<u8>, pub room: usize, pub failed: bool }
impl VWrite for Limited {
    closed spec fn out(&self) -> Bs { self.s@ }
    closed spec fn failed(&self) -> bool { self.failed }
    fn write_str(&mut self, s: &str) -> VResult {
        let b = s.as_bytes();
        if b.len() > self.room { self.failed = true; return Err(VErr); }
        self.room = self.room - b.len();
        let mut i = 0;
        while i < b.len()
            invariant 0 <= i <= b@.len(), b@ == sb(s), self.s@ == old(self).s@ + b@.subrange(0, i as int), self.failed == old(self).failed
            decreases b.len() - i
        {
            self.s.push(b[i]);
            i += 1;
            proof { assert(self.s@ =~= old(self).s@ + b@.subrange(0, i as int)); }
        }
        proof { assert(b@.subrange(0, b@.len() as int) =~= b@); }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> VResult {
        let mut s = String::new();
        s.push(c);
        proof { broadcast use group_utf8_lib; assert(s@ =~= seq![c]); }
        self.write_str(s.as_str())
    }
}

// ---- arguments of write!
pub trait VDisp {
    spec fn disp(&self) -> Bs;
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> (r: VResult)
        requires !old(out).failed()
        ensures wrote(r, old(out).out(), final(out).failed(), final(out).out(), self.disp());
}
/// Decimal digits of a number.
pub open spec fn dec(n: nat) -> Bs decreases n { if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10) + seq![(48 + n % 10) as u8] } }
broadcast proof fn lemma_dec_digits(n: nat) ensures digits(#[trigger] dec(n)), plain(dec(n)) decreases n { if n >= 10 { lemma_dec_digits(n / 10); } }
/// A digit as a character, and its encoding.
fn v_digit(d: u8) -> (c: char) requires d < 10 ensures encode_utf8(seq![c]) == seq![(48 + d) as u8]
{ let c = (48 + d) as char; proof { lemma_ascii_char(c); } c }
fn v_dec<W: VWrite>(n: u64, out: &mut W) -> (r: VResult)
    requires !old(out).failed()
    ensures r is Ok ==> final(out).out() == old(out).out() + dec(n as nat), final(out).failed() == r is Err
    decreases n
{
    if n >= 10 {
        v_dec(n / 10, out)?;
    }
    let ghost b = out.out();
    let r = out.write_char(v_digit((n % 10) as u8));
    proof { if r is Ok { if n >= 10 { assert(final(out).out() =~= old(out).out() + dec(n as nat)); } } }
    r
}
impl VDisp for u16 {
    open spec fn disp(&self) -> Bs { dec(*self as nat) }
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> VResult { v_dec(*self as u64, out) }
}
impl VDisp for u64 {
    open spec fn disp(&self) -> Bs { dec(*self as nat) }
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> VResult { v_dec(*self, out) }
}
impl VDisp for usize {
    open spec fn disp(&self) -> Bs { dec(*self as nat) }
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> VResult { v_dec(*self as u64, out) }
}
impl VDisp for char {
    open spec fn disp(&self) -> Bs { encode_utf8(seq![*self]) }
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> VResult { out.write_char(*self) }
}
impl VDisp for &str {
    open spec fn disp(&self) -> Bs { sb(*self) }
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> VResult { out.write_str(self) }
}
impl VDisp for CowStr<'_> {
    open spec fn disp(&self) -> Bs { self.b() }
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> VResult { out.write_str(self.as_str()) }
}
impl<T: VDisp> VDisp for &T {
    open spec fn disp(&self) -> Bs { (**self).disp() }
    fn v_fmt<W: VWrite>(&self, out: &mut W) -> VResult { (**self).v_fmt(out) }
}

// ---- characters of strings
/// The character at a boundary (assumed contract of str::chars).
#[verifier::external_body]
fn v_char_at(s: &str, i: usize) -> (c: char)
    requires bnd(sb(s), i as int), i < sb(s).len()
    ensures
        bnd(sb(s), i + encode_utf8(seq![c]).len()), 1 <= encode_utf8(seq![c]).len() <= 4,
        sb(s).subrange(i as int, i + encode_utf8(seq![c]).len()) == encode_utf8(seq![c]),
        (c as u32) < 128 <==> sb(s)[i as int] < 128,
        (c as u32) >= 128 ==> forall|k: int| i <= k < i + encode_utf8(seq![c]).len() ==> sb(s)[k] >= 128,
{ s[i..].chars().next().unwrap() }
#[verifier::external_body]
fn v_char_len(c: char) -> (n: usize) ensures n == encode_utf8(seq![c]).len(), 1 <= n <= 4
{ c.len_utf8() }
@end
