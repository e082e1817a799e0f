// Strings as byte sequences.
@include prelude.vc
@raw
use vstd::string::*;
use vstd::utf8::*;

/// The bytes of a string.
pub open spec fn sb(s: &str) -> Bs { s.spec_bytes() }
/// Position on a character boundary.
pub open spec fn bnd(b: Bs, i: int) -> bool { 0 <= i <= b.len() && is_char_boundary(b, i) }

pub proof fn lemma_valid(s: &str) ensures valid_utf8(sb(s)), bnd(sb(s), 0), bnd(sb(s), sb(s).len() as int)
{ broadcast use group_utf8_lib; is_char_boundary_start_end_of_seq(sb(s)); }

pub proof fn lemma_ascii_boundary(b: Bs, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128
    ensures is_char_boundary(b, i), is_char_boundary(b, i + 1)
    decreases b.len()
{
    is_char_boundary_iff_not_is_continuation_byte(b, i);
    if i + 1 < b.len() {
        is_char_boundary_iff_not_is_continuation_byte(b, i + 1);
        let n = length_of_first_scalar(b);
        let p = pop_first_scalar(b);
        if i == 0 {
            assert(n == 1);
            assert(p == b.subrange(1, b.len() as int));
            assert(valid_utf8(p));
            is_char_boundary_iff_not_is_continuation_byte(p, 0);
            assert(p[0] == b[1]);
        } else {
            assert(p == b.subrange(n, b.len() as int));
            assert(n <= i);
            assert(p[i - n] == b[i]);
            lemma_ascii_boundary(p, i - n);
            if i + 1 - n < p.len() {
                is_char_boundary_iff_not_is_continuation_byte(p, i + 1 - n);
                assert(p[i + 1 - n] == b[i + 1]);
            }
        }
    } else {
        is_char_boundary_start_end_of_seq(b);
    }
}

pub proof fn lemma_str_eq(s: &str, t: &str)
    ensures s@ == t@ <==> sb(s) == sb(t)
{
    broadcast use group_utf8_lib;
    if sb(s) == sb(t) {
        assert(decode_utf8(sb(s)) == s@);
        assert(decode_utf8(sb(t)) == t@);
    }
}

/// Length, emptiness and slices of strings, slices and vectors.
pub trait VStr {
    spec fn bytes_of(&self) -> Bs;
    fn v_len(&self) -> (n: usize) ensures n == self.bytes_of().len();
    fn v_is_empty(&self) -> (b: bool) ensures b == (self.bytes_of().len() == 0);
    fn v_bytes(&self) -> (r: VBytes<'_>) ensures r.s@ == self.bytes_of(), r.pos == 0;
    fn v_slice(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, bnd(self.bytes_of(), a as int), bnd(self.bytes_of(), b as int)
        ensures sb(r) == self.bytes_of().subrange(a as int, b as int);
    fn v_slice_from(&self, a: usize) -> (r: &str)
        requires bnd(self.bytes_of(), a as int)
        ensures sb(r) == self.bytes_of().subrange(a as int, self.bytes_of().len() as int);
    fn v_slice_to(&self, b: usize) -> (r: &str)
        requires bnd(self.bytes_of(), b as int)
        ensures sb(r) == self.bytes_of().subrange(0, b as int);
    /// str::starts_with of an ASCII character
    fn v_starts_with(&self, c: char) -> (r: bool)
        requires (c as u32) < 128
        ensures r == (self.bytes_of().len() > 0 && self.bytes_of()[0] == c as u8);
}

/// A slice of a string holds the bytes in that range (assumed contract of str indexing).
#[verifier::external_body]
fn v_str_slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b, bnd(sb(s), a as int), bnd(sb(s), b as int)
    ensures sb(r) == sb(s).subrange(a as int, b as int)
{ &s[a..b] }

impl VStr for str {
    open spec fn bytes_of(&self) -> Bs { sb(self) }
    fn v_len(&self) -> usize { self.as_bytes().len() }
    fn v_is_empty(&self) -> bool { self.as_bytes().len() == 0 }
    fn v_bytes(&self) -> VBytes<'_> { VBytes { s: self.as_bytes(), pos: 0 } }
    fn v_slice(&self, a: usize, b: usize) -> &str { v_str_slice(self, a, b) }
    fn v_slice_from(&self, a: usize) -> &str { proof { lemma_valid(self); } v_str_slice(self, a, self.v_len()) }
    fn v_slice_to(&self, b: usize) -> &str { proof { lemma_valid(self); } v_str_slice(self, 0, b) }
    fn v_starts_with(&self, c: char) -> bool { self.as_bytes().len() > 0 && self.as_bytes()[0] == c as u8 }
}

/// Iterator over the bytes of a string (stands for std::str::Bytes).
pub struct VBytes<'a> { pub s: &'a [u8], pub pos: usize }
impl<'a> VBytes<'a> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    fn next(&mut self) -> (r: Option<u8>)
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).s == old(self).s,
            old(self).pos < old(self).s@.len() ==> r == Some(old(self).s@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).s@.len() ==> r is None && final(self).pos == old(self).pos,
    {
        if self.pos < self.s.len() { let c = self.s[self.pos]; self.pos += 1; Some(c) } else { None }
    }
    fn v_len(&self) -> (n: usize)
        requires self.wf()
        ensures n == self.s@.len() - self.pos
    { self.s.len() - self.pos }
}
@end
