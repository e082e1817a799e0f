// Attribute elements and values.
@include str.vc
@raw
/// Stands for std::borrow::Cow<str>.
pub enum CowStr<'s> { Borrowed(&'s str), Owned(String) }
impl<'s> CowStr<'s> {
    pub open spec fn b(&self) -> Bs { match self { CowStr::Borrowed(s) => sb(s), CowStr::Owned(s) => encode_utf8(s@) } }
}
impl VStr for CowStr<'_> {
    open spec fn bytes_of(&self) -> Bs { self.b() }
    fn v_len(&self) -> usize { self.as_str().v_len() }
    fn v_is_empty(&self) -> bool { self.as_str().v_is_empty() }
    fn v_bytes(&self) -> VBytes<'_> { self.as_str().v_bytes() }
    fn v_slice(&self, a: usize, b: usize) -> &str { v_str_slice(self.as_str(), a, b) }
    fn v_slice_from(&self, a: usize) -> &str { self.as_str().v_slice_from(a) }
    fn v_slice_to(&self, b: usize) -> &str { self.as_str().v_slice_to(b) }
    fn v_starts_with(&self, c: char) -> bool { self.as_str().v_starts_with(c) }
}
impl<'s> CowStr<'s> {
    fn as_str(&self) -> (r: &str) ensures sb(r) == self.b()
    {
        broadcast use group_utf8_lib;
        match self { CowStr::Borrowed(s) => s, CowStr::Owned(s) => s.as_str() }
    }
}
/// format!("{a}{b}")
fn v_concat(a: &str, b: &str) -> (r: String) ensures encode_utf8(r@) == sb(a) + sb(b)
{
    broadcast use group_utf8_lib;
    let mut s = String::new();
    s.push_str(a);
    s.push_str(b);
    proof { encode_utf8_concat(a@, b@); }
    s
}
fn v_push_str(p: &mut String, s: &str) ensures encode_utf8(final(p)@) == encode_utf8(old(p)@) + sb(s)
{
    broadcast use group_utf8_lib;
    p.push_str(s);
    proof { encode_utf8_concat(old(p)@, s@); }
}
fn v_usize_from(b: bool) -> (n: usize) ensures n == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub trait VFromStr<'s>: Sized {
    spec fn vb(&self) -> Bs;
    fn v_from_str(s: &'s str) -> (r: Self) ensures r.vb() == sb(s);
}
impl<'s> VFromStr<'s> for CowStr<'s> {
    open spec fn vb(&self) -> Bs { self.b() }
    fn v_from_str(s: &'s str) -> Self { CowStr::Borrowed(s) }
}
impl<'s> VFromStr<'s> for AttributeValue<'s> {
    closed spec fn vb(&self) -> Bs { self.raw.b() }
    fn v_from_str(s: &'s str) -> Self { AttributeValue { raw: CowStr::Borrowed(s) } }
}
pub trait VInto<T>: Sized {
    spec fn post(self, r: T) -> bool;
    fn v_into(self) -> (r: T) ensures self.post(r);
}
impl<'s, T: VFromStr<'s>> VInto<T> for &'s str {
    open spec fn post(self, r: T) -> bool { r.vb() == sb(self) }
    fn v_into(self) -> T { T::v_from_str(self) }
}
impl<'s> VInto<CowStr<'s>> for String {
    open spec fn post(self, r: CowStr<'s>) -> bool { r.b() == encode_utf8(self@) }
    fn v_into(self) -> CowStr<'s> { CowStr::Owned(self) }
}
@end
@file src/attr.rs
@item struct AttributeValue derive -
@item enum AttributeKind derive -
@item struct Attributes derive -
@item type AttributeElem
@raw
/// Elements as written.
pub enum KV { Class, Id, Pair(Bs), Comment }
pub type El = (KV, Bs);
pub type Els = vstd::seq::Seq<(KV, Bs)>;
spec fn kv(k: AttributeKind<'_>) -> KV {
    match k { AttributeKind::Class => KV::Class, AttributeKind::Id => KV::Id, AttributeKind::Pair { key } => KV::Pair(key.b()), AttributeKind::Comment => KV::Comment }
}
spec fn el(e: AttributeElem<'_>) -> El { (kv(e.0), e.1.raw.b()) }
spec fn els(a: Attributes<'_>) -> Els { Seq::new(a.0@.len(), |i: int| el(a.0@[i])) }

/// Further text of a quoted value is separated by a single space.
spec fn join(a: Bs, b: Bs) -> Bs { if b.len() == 0 { a } else if a.len() == 0 { b } else { a + seq![32u8] + b } }
proof fn lemma_lits() ensures sb(" ") == seq![32u8], sb("") == Seq::<u8>::empty(), sb("\n") == seq![10u8]
{
    broadcast use group_utf8_lib;
    reveal_strlit(" ");
    reveal_strlit("");
    reveal_strlit("\n");
    assert(is_ascii_chars("\n"@));
    let y = encode_utf8("\n"@);
    assert(y =~= seq![10u8]);
    let z = encode_utf8(""@);
    assert(z =~= Seq::<u8>::empty());
    assert(is_ascii_chars(" "@));
    let x = encode_utf8(" "@);
    assert(x =~= seq![32u8]);
}
@end
@fn AttributeValue::extend_raw
    opt m_is_empty m_into
    subst /format!("{prev}{s}")/v_concat(prev, s)/
    subst /prev.push_str(s)/v_push_str(prev, s)/
    ens
        final(self).raw.b() == old(self).raw.b() + sb(s),
@end
@fn AttributeValue::extend
    opt m_is_empty
    ens
        final(self).raw.b() == join(old(self).raw.b(), sb(s)),
    at start
        proof { lemma_lits(); assert(Seq::<u8>::empty() + sb(s) =~= sb(s)); }
@end
