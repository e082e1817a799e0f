// Characters of strings: stands for std::str::Chars and the trimming and searching methods of str.
@include str.vc

@raw
/// The character of a text at a boundary and how many bytes it has.
pub uninterp spec fn chr(b: Bs, i: int) -> char;
pub uninterp spec fn clen(b: Bs, i: int) -> int;

/// UTF-8: what is known of the character at a boundary (assumed of the standard library).
pub open spec fn chr_ok(b: Bs, i: int) -> bool {
    &&& 1 <= clen(b, i) <= 4 && bnd(b, i + clen(b, i))
    &&& b[i] < 128 ==> chr(b, i) == b[i] as char && clen(b, i) == 1
    &&& b[i] >= 128 ==> chr(b, i) as u32 >= 128 && forall|k: int| i <= k < i + clen(b, i) ==> b[k] >= 128
    &&& forall|k: int| i < k < i + clen(b, i) ==> is_continuation_byte(#[trigger] b[k])
}
#[verifier::external_body]
fn v_chr(s: &str, i: usize) -> (r: (char, usize))
    requires bnd(sb(s), i as int), i < sb(s).len()
    ensures r.0 == chr(sb(s), i as int), r.1 == clen(sb(s), i as int), chr_ok(sb(s), i as int)
{ let c = s[i..].chars().next().unwrap(); (c, c.len_utf8()) }
#[verifier::external_body]
fn v_chr_before(s: &str, i: usize) -> (r: (char, usize))
    requires bnd(sb(s), i as int), 0 < i
    ensures 1 <= r.1 <= i, bnd(sb(s), i - r.1), r.0 == chr(sb(s), i - r.1), r.1 == clen(sb(s), i - r.1), chr_ok(sb(s), i - r.1)
{ let c = s[..i].chars().next_back().unwrap(); (c, c.len_utf8()) }

pub open spec fn cws(c: char) -> bool { (c as u32) < 128 && ascii_ws(c as u8) }
pub open spec fn clower(c: char) -> bool { 97 <= c as u32 <= 122 }
pub open spec fn cupper(c: char) -> bool { 65 <= c as u32 <= 90 }
pub open spec fn cdigit(c: char) -> bool { 48 <= c as u32 <= 57 }
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool) ensures r == cws(*c);
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == clower(*c);
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == cupper(*c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == cdigit(*c);
pub assume_specification[ u8::is_ascii_alphabetic ](c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90 || 97 <= *c <= 122);

/// Facts about all characters in a stretch of text, in terms of its bytes: `f` gives `v` for each of them.
pub open spec fn all_give<F: Fn(&char) -> bool>(f: F, b: Bs, i: int, j: int, v: bool) -> bool {
    &&& forall|x: int| i <= x < j && #[trigger] b[x] < 128 ==> call_ensures(f, (&(b[x] as char),), v)
    &&& (forall|c: char| (c as u32) >= 128 ==> !call_ensures(f, (&c,), v)) ==> forall|x: int| i <= x < j ==> #[trigger] b[x] < 128
}
pub open spec fn all_give_v<F: Fn(char) -> bool>(f: F, b: Bs, i: int, j: int, v: bool) -> bool {
    &&& forall|x: int| i <= x < j && #[trigger] b[x] < 128 ==> call_ensures(f, (b[x] as char,), v)
    &&& (forall|c: char| (c as u32) >= 128 ==> !call_ensures(f, (c,), v)) ==> forall|x: int| i <= x < j ==> #[trigger] b[x] < 128
}

pub struct VChars<'a> { pub s: &'a str, pub pos: usize, pub back: usize }
pub struct VTake<'a> { pub c: VChars<'a>, pub left: usize }
pub struct VCount { pub n: usize }
pub struct VRev<'a> { pub c: VChars<'a> }
impl VCount { fn count(self) -> (n: usize) ensures n == self.n { self.n } }
impl<'a> VChars<'a> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.back <= sb(self.s).len() && bnd(sb(self.s), self.pos as int) && bnd(sb(self.s), self.back as int) }
    /// The text ends where the string does.
    pub open spec fn full(&self) -> bool { self.wf() && self.back == sb(self.s).len() }
    pub open spec fn same(&self, o: &Self) -> bool { self.s == o.s && self.back == o.back }
    fn next(&mut self) -> (r: Option<char>)
        requires old(self).full()
        ensures
            final(self).full(), final(self).same(old(self)),
            r is None <==> old(self).pos == old(self).back, r is None ==> final(self).pos == old(self).pos,
            r is Some ==> r->0 == chr(sb(old(self).s), old(self).pos as int) && final(self).pos == old(self).pos + clen(sb(old(self).s), old(self).pos as int)
                && chr_ok(sb(old(self).s), old(self).pos as int),
    {
        if self.pos == self.back { return None; }
        let (c, n) = v_chr(self.s, self.pos);
        self.pos = self.pos + n;
        Some(c)
    }
    fn clone(&self) -> (r: Self) ensures r == *self { VChars { s: self.s, pos: self.pos, back: self.back } }
    fn as_str(&self) -> (r: &'a str)
        requires self.full()
        ensures sb(r) == sb(self.s).subrange(self.pos as int, self.back as int)
    { v_str_slice(self.s, self.pos, self.back) }
    fn rev(self) -> (r: VRev<'a>) requires self.wf() ensures r.c == self { VRev { c: self } }
    /// The first character for which `f` holds; the text before it is consumed.
    fn find<F: Fn(&char) -> bool>(&mut self, f: F) -> (r: Option<char>)
        requires
            old(self).full(), forall|c: char| call_requires(f, (&c,)),
        ensures
            final(self).full(), final(self).same(old(self)), final(self).pos >= old(self).pos,
            r is None ==> final(self).pos == final(self).back && all_give(f, sb(old(self).s), old(self).pos as int, old(self).back as int, false),
            r is Some ==> exists|k: int| old(self).pos <= k < old(self).back && #[trigger] bnd(sb(old(self).s), k) && chr_ok(sb(old(self).s), k)
                && r->0 == chr(sb(old(self).s), k) && final(self).pos == k + clen(sb(old(self).s), k)
                && call_ensures(f, (&r->0,), true) && all_give(f, sb(old(self).s), old(self).pos as int, k, false),
    {
        loop
            invariant
                self.full(), self.same(old(self)), self.pos >= old(self).pos, forall|c: char| call_requires(f, (&c,)),
                all_give(f, sb(old(self).s), old(self).pos as int, self.pos as int, false),
            decreases self.back - self.pos
        {
            let ghost k = self.pos as int;
            match self.next() {
                None => { return None; }
                Some(c) => { if f(&c) { return Some(c); } }
            }
        }
    }
    fn nth(&mut self, n: usize) -> (r: Option<char>)
        requires old(self).full()
        ensures
            final(self).full(), final(self).same(old(self)),
            // where the characters are ASCII up to there
            (old(self).pos + n <= old(self).back && forall|x: int| old(self).pos <= x < old(self).pos + n ==> #[trigger] sb(old(self).s)[x] < 128) ==> {
                let k = old(self).pos + n;
                &&& k == old(self).back ==> r is None && final(self).pos == k
                &&& k < old(self).back ==> r is Some && bnd(sb(old(self).s), k) && chr_ok(sb(old(self).s), k) && r->0 == chr(sb(old(self).s), k) && final(self).pos == k + clen(sb(old(self).s), k)
            },
    {
        let mut i: usize = 0;
        while i < n
            invariant
                i <= n, self.full(), self.same(old(self)),
                (old(self).pos + n <= old(self).back && forall|x: int| old(self).pos <= x < old(self).pos + n ==> #[trigger] sb(old(self).s)[x] < 128) ==> self.pos == old(self).pos + i,
            decreases n - i
        {
            let ghost p = self.pos as int;
            if self.next().is_none() { return None; }
            i += 1;
        }
        self.next()
    }
    fn take(self, n: usize) -> (r: VTake<'a>) requires self.full() ensures r.c == self, r.left == n { VTake { c: self, left: n } }
    fn take_while<F: Fn(&char) -> bool>(&mut self, f: F) -> (r: VCount)
        requires
            old(self).full(), forall|c: char| call_requires(f, (&c,)),
        ensures
            final(self).full(), final(self).same(old(self)),
            (forall|c: char| (c as u32) >= 128 ==> !call_ensures(f, (&c,), true)) ==> {
                let e = old(self).pos + r.n;
                &&& e <= old(self).back
                &&& all_give(f, sb(old(self).s), old(self).pos as int, e as int, true)
                &&& e < old(self).back ==> bnd(sb(old(self).s), e as int) && chr_ok(sb(old(self).s), e as int) && call_ensures(f, (&chr(sb(old(self).s), e as int),), false)
            },
    {
        let mut n: usize = 0;
        loop
            invariant
                self.full(), self.same(old(self)), forall|c: char| call_requires(f, (&c,)),
                n <= self.pos - old(self).pos, old(self).pos <= self.pos,
                all_give(f, sb(old(self).s), old(self).pos as int, self.pos as int, true),
                (forall|c: char| (c as u32) >= 128 ==> !call_ensures(f, (&c,), true)) ==> self.pos == old(self).pos + n,
            decreases self.back - self.pos
        {
            match self.next() {
                None => { return VCount { n }; }
                Some(c) => { if f(&c) { n += 1; } else { return VCount { n }; } }
            }
        }
    }
}
impl<'a> VTake<'a> {
    fn take_while<F: Fn(&char) -> bool>(self, f: F) -> (r: VCount)
        requires
            self.c.full(), forall|c: char| call_requires(f, (&c,)),
        ensures
            r.n <= self.left,
            (forall|c: char| (c as u32) >= 128 ==> !call_ensures(f, (&c,), true)) ==> {
                let e = self.c.pos + r.n;
                &&& e <= self.c.back
                &&& all_give(f, sb(self.c.s), self.c.pos as int, e as int, true)
                &&& e < self.c.back && r.n < self.left ==> bnd(sb(self.c.s), e as int) && chr_ok(sb(self.c.s), e as int) && call_ensures(f, (&chr(sb(self.c.s), e as int),), false)
            },
    {
        let mut n: usize = 0;
        let mut c = self.c;
        while n < self.left
            invariant
                c.full(), c.same(&self.c), forall|c: char| call_requires(f, (&c,)),
                n <= self.left, self.c.pos <= c.pos,
                all_give(f, sb(self.c.s), self.c.pos as int, c.pos as int, true),
                (forall|c: char| (c as u32) >= 128 ==> !call_ensures(f, (&c,), true)) ==> c.pos == self.c.pos + n,
            decreases self.left - n
        {
            match c.next() {
                None => { return VCount { n }; }
                Some(x) => { if f(&x) { n += 1; } else { return VCount { n }; } }
            }
        }
        VCount { n }
    }
}
impl<'a> VRev<'a> {
    fn next(&mut self) -> (r: Option<char>)
        requires old(self).c.wf()
        ensures
            final(self).c.wf(), final(self).c.s == old(self).c.s, final(self).c.pos == old(self).c.pos,
            r is None <==> old(self).c.pos >= old(self).c.back, r is None ==> final(self).c.back == old(self).c.back,
            r is Some ==> final(self).c.back < old(self).c.back && chr_ok(sb(old(self).c.s), final(self).c.back as int)
                && r->0 == chr(sb(old(self).c.s), final(self).c.back as int) && old(self).c.back == final(self).c.back + clen(sb(old(self).c.s), final(self).c.back as int),
    {
        if self.c.pos >= self.c.back { return None; }
        let (c, n) = v_chr_before(self.c.s, self.c.back);
        proof { lemma_valid(self.c.s); lemma_bnd_before(sb(self.c.s), self.c.pos as int, self.c.back - n, self.c.back as int); }
        self.c.back = self.c.back - n;
        Some(c)
    }
}
/// No boundary lies inside a character.
proof fn lemma_bnd_before(b: Bs, p: int, k: int, e: int)
    requires valid_utf8(b), bnd(b, p), bnd(b, k), chr_ok(b, k), k < e, p < e, e == k + clen(b, k)
    ensures p <= k
{
    if p > k { is_char_boundary_iff_not_is_continuation_byte(b, p); assert(is_continuation_byte(b[p])); }
}

impl<'a> VBytes<'a> {
    fn all<F: Fn(u8) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).wf(), forall|c: u8| call_requires(f, (c,))
        ensures
            r ==> forall|x: int| old(self).pos <= x < old(self).s@.len() ==> call_ensures(f, (#[trigger] old(self).s@[x],), true),
            !r ==> exists|x: int| old(self).pos <= x < old(self).s@.len() && call_ensures(f, (#[trigger] old(self).s@[x],), false),
    {
        loop
            invariant
                self.wf(), self.s == old(self).s, old(self).pos <= self.pos, forall|c: u8| call_requires(f, (c,)),
                forall|x: int| old(self).pos <= x < self.pos ==> call_ensures(f, (#[trigger] old(self).s@[x],), true),
            decreases self.s@.len() - self.pos
        {
            match self.next() {
                None => { return true; }
                Some(c) => { if !f(c) { assert(old(self).s@[self.pos - 1] == c); return false; } }
            }
        }
    }
    fn any<F: Fn(u8) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).wf(), forall|c: u8| call_requires(f, (c,))
        ensures
            !r ==> forall|x: int| old(self).pos <= x < old(self).s@.len() ==> call_ensures(f, (#[trigger] old(self).s@[x],), false),
            r ==> exists|x: int| old(self).pos <= x < old(self).s@.len() && call_ensures(f, (#[trigger] old(self).s@[x],), true),
    {
        loop
            invariant
                self.wf(), self.s == old(self).s, old(self).pos <= self.pos, forall|c: u8| call_requires(f, (c,)),
                forall|x: int| old(self).pos <= x < self.pos ==> call_ensures(f, (#[trigger] old(self).s@[x],), false),
            decreases self.s@.len() - self.pos
        {
            match self.next() {
                None => { return false; }
                Some(c) => { if f(c) { assert(old(self).s@[self.pos - 1] == c); return true; } }
            }
        }
    }
    fn take_while<F: Fn(&u8) -> bool>(&mut self, f: F) -> (r: VCount)
        requires old(self).wf(), forall|c: u8| call_requires(f, (&c,))
        ensures
            old(self).pos + r.n <= old(self).s@.len(),
            forall|x: int| old(self).pos <= x < old(self).pos + r.n ==> call_ensures(f, (&(#[trigger] old(self).s@[x]),), true),
            old(self).pos + r.n < old(self).s@.len() ==> call_ensures(f, (&old(self).s@[old(self).pos + r.n],), false),
    {
        let mut n: usize = 0;
        loop
            invariant
                self.wf(), self.s == old(self).s, self.pos == old(self).pos + n, forall|c: u8| call_requires(f, (&c,)),
                forall|x: int| old(self).pos <= x < self.pos ==> call_ensures(f, (&(#[trigger] old(self).s@[x]),), true),
            decreases self.s@.len() - self.pos
        {
            match self.next() {
                None => { return VCount { n }; }
                Some(c) => { if f(&c) { n += 1; } else { return VCount { n }; } }
            }
        }
    }
}

pub open spec fn lead_ws(b: Bs, i: int) -> int
    decreases b.len() - i
{ if 0 <= i < b.len() && ascii_ws(b[i]) { lead_ws(b, i + 1) } else { i } }
/// End of the text before trailing white space.
pub open spec fn tail(b: Bs, e: int) -> int
    decreases e
{ if 0 < e <= b.len() && ascii_ws(b[e - 1]) { tail(b, e - 1) } else { e } }
pub open spec fn blank(b: Bs) -> bool { lead_ws(b, 0) == b.len() }
pub open spec fn trim(b: Bs) -> Bs { if blank(b) { Seq::empty() } else { b.subrange(lead_ws(b, 0), tail(b, b.len() as int)) } }
proof fn lemma_lead_ws(b: Bs, i: int, k: int)
    requires 0 <= i <= k <= b.len(), forall|x: int| i <= x < k ==> ascii_ws(#[trigger] b[x]), k < b.len() ==> !ascii_ws(b[k])
    ensures lead_ws(b, i) == k
    decreases k - i
{ if i < k { assert(ascii_ws(b[i])); lemma_lead_ws(b, i + 1, k); } }
proof fn lemma_tail(b: Bs, e: int, k: int)
    requires 0 <= k <= e <= b.len(), forall|x: int| k <= x < e ==> ascii_ws(#[trigger] b[x]), k > 0 ==> !ascii_ws(b[k - 1])
    ensures tail(b, e) == k
    decreases e - k
{ if k < e { assert(ascii_ws(b[e - 1])); lemma_tail(b, e - 1, k); } }
proof fn lemma_trim(b: Bs, k: int, e: int)
    requires 0 <= k <= e <= b.len(), forall|x: int| 0 <= x < k ==> ascii_ws(#[trigger] b[x]), forall|x: int| e <= x < b.len() ==> ascii_ws(#[trigger] b[x]),
        k < b.len() ==> !ascii_ws(b[k]), e > k ==> !ascii_ws(b[e - 1]), k == e ==> k == b.len(),
    ensures blank(b) == (k == e), trim(b) == b.subrange(k, e), lead_ws(b, 0) == k
{
    lemma_lead_ws(b, 0, k);
    if k < e { lemma_tail(b, b.len() as int, e); } else { assert(b.subrange(k, e) =~= Seq::<u8>::empty()); }
}
/// The closure tells ASCII white space.
pub open spec fn is_cws<F: Fn(char) -> bool>(f: F) -> bool { forall|c: char, v: bool| call_ensures(f, (c,), v) ==> v == cws(c) }

pub trait VText {
    spec fn tx(&self) -> &str;
    fn v_chars(&self) -> (r: VChars<'_>) ensures r.full(), sb(r.s) == sb(self.tx()), r.pos == 0;
    fn v_trim_start_matches<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| call_requires(f, (c,))
        ensures ({
            let b = sb(self.tx());
            let k = b.len() - sb(r).len();
            &&& 0 <= k <= b.len() && bnd(b, k as int) && sb(r) == b.subrange(k as int, b.len() as int)
            &&& all_give_v(f, b, 0, k as int, true)
            &&& k < b.len() ==> chr_ok(b, k as int) && call_ensures(f, (chr(b, k as int),), false)
            &&& is_cws(f) ==> sb(r) == b.subrange(lead_ws(b, 0), b.len() as int) && k == lead_ws(b, 0)
        });
    fn v_trim_end_matches<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| call_requires(f, (c,))
        ensures ({
            let b = sb(self.tx());
            let k = sb(r).len();
            &&& k <= b.len() && bnd(b, k as int) && sb(r) == b.subrange(0, k as int)
            &&& all_give_v(f, b, k as int, b.len() as int, true)
            &&& k > 0 ==> b[k - 1] < 128 ==> call_ensures(f, (b[k - 1] as char,), false)
        });
    fn v_trim_matches<F: Fn(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| call_requires(f, (c,))
        ensures exists|k: int, e: int| #[trigger] trimmed(f, sb(self.tx()), k, e) && sb(r) == sb(self.tx()).subrange(k, e),
            is_cws(f) ==> sb(r) == trim(sb(self.tx())) && blank(sb(self.tx())) == (sb(r).len() == 0);
}
/// All but `b[k..e]` are characters for which `f` holds.
pub open spec fn trimmed<F: Fn(char) -> bool>(f: F, b: Bs, k: int, e: int) -> bool {
    &&& 0 <= k <= e <= b.len() && bnd(b, k) && bnd(b, e)
    &&& all_give_v(f, b, 0, k, true) && all_give_v(f, b, e, b.len() as int, true)
    &&& k < b.len() ==> chr_ok(b, k) && call_ensures(f, (chr(b, k),), false)
    &&& k == e && k < b.len() ==> call_ensures(f, (chr(b, k),), true)
    &&& e > k && b[e - 1] < 128 ==> call_ensures(f, (b[e - 1] as char,), false)
}
fn v_trim_s<'a, F: Fn(char) -> bool>(s: &'a str, f: &F) -> (k: usize)
    requires forall|c: char| call_requires(*f, (c,))
    ensures
        k <= sb(s).len(), bnd(sb(s), k as int), all_give_v(*f, sb(s), 0, k as int, true),
        k < sb(s).len() ==> chr_ok(sb(s), k as int) && call_ensures(*f, (chr(sb(s), k as int),), false),
{
    let n = s.v_len();
    let mut k: usize = 0;
    proof { lemma_valid(s); }
    while k < n
        invariant
            n == sb(s).len(), k <= n, bnd(sb(s), k as int), all_give_v(*f, sb(s), 0, k as int, true), forall|c: char| call_requires(*f, (c,)),
        ensures
            k < n ==> chr_ok(sb(s), k as int) && call_ensures(*f, (chr(sb(s), k as int),), false),
        decreases n - k
    {
        let (c, m) = v_chr(s, k);
        if !f(c) { break; }
        k = k + m;
    }
    k
}
fn v_trim_e<'a, F: Fn(char) -> bool>(s: &'a str, lo: usize, f: &F) -> (k: usize)
    requires forall|c: char| call_requires(*f, (c,)), bnd(sb(s), lo as int)
    ensures
        lo <= k <= sb(s).len(), bnd(sb(s), k as int), all_give_v(*f, sb(s), k as int, sb(s).len() as int, true),
        k > lo && sb(s)[k - 1] < 128 ==> call_ensures(*f, (sb(s)[k - 1] as char,), false),
        k == lo && lo < sb(s).len() ==> chr_ok(sb(s), lo as int) && call_ensures(*f, (chr(sb(s), lo as int),), true),
{
    let mut k: usize = s.v_len();
    proof { lemma_valid(s); }
    while k > lo
        invariant
            lo <= k <= sb(s).len(), bnd(sb(s), k as int), bnd(sb(s), lo as int), all_give_v(*f, sb(s), k as int, sb(s).len() as int, true), forall|c: char| call_requires(*f, (c,)),
            k == lo && lo < sb(s).len() ==> chr_ok(sb(s), lo as int) && call_ensures(*f, (chr(sb(s), lo as int),), true),
        ensures
            k > lo && sb(s)[k - 1] < 128 ==> call_ensures(*f, (sb(s)[k - 1] as char,), false),
        decreases k
    {
        let (c, m) = v_chr_before(s, k);
        if !f(c) { break; }
        proof { lemma_valid(s); lemma_bnd_before(sb(s), lo as int, k - m, k as int); }
        k = k - m;
    }
    k
}
impl VText for str {
    open spec fn tx(&self) -> &str { self }
    fn v_chars(&self) -> VChars<'_> { proof { lemma_valid(self); } let n = self.v_len(); VChars { s: self, pos: 0, back: n } }
    fn v_trim_start_matches<F: Fn(char) -> bool>(&self, f: F) -> &str {
        let k = v_trim_s(self, &f);
        proof { lemma_valid(self); if is_cws(f) { lemma_lead_ws(sb(self), 0, k as int); } }
        v_str_slice(self, k, self.v_len())
    }
    fn v_trim_end_matches<F: Fn(char) -> bool>(&self, f: F) -> &str {
        proof { lemma_valid(self); }
        let k = v_trim_e(self, 0, &f);
        v_str_slice(self, 0, k)
    }
    fn v_trim_matches<F: Fn(char) -> bool>(&self, f: F) -> &str {
        let k = v_trim_s(self, &f);
        let e = v_trim_e(self, k, &f);
        proof {
            let b = sb(self);
            assert(0 <= k <= e <= b.len() && bnd(b, k as int) && bnd(b, e as int));
            assert(all_give_v(f, b, 0, k as int, true)); assert(all_give_v(f, b, e as int, b.len() as int, true));
            assert(trimmed(f, sb(self.tx()), k as int, e as int));
            if is_cws(f) { lemma_trim(b, k as int, e as int); }
        }
        let r = v_str_slice(self, k, e);
        assert(trimmed(f, sb(self.tx()), k as int, e as int) && sb(r) == sb(self.tx()).subrange(k as int, e as int));
        r
    }
}
@end
