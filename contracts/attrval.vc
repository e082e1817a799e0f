// Attribute values (A03) and lookups (A02).
@include attrtypes.vc
@item struct AttributeValueParts derive -
@raw
/// The text a value stands for.
spec fn unescape(b: Bs) -> Bs
    decreases b.len()
{
    if b.len() == 0 { b }
    else if b.len() > 1 && b[0] == b'\\' && ascii_punct(b[1]) { seq![b[1]] + unescape(b.subrange(2, b.len() as int)) }
    else { seq![b[0]] + unescape(b.subrange(1, b.len() as int)) }
}
spec fn from(b: Bs, i: int) -> Bs { b.subrange(i, b.len() as int) }
spec fn escape_at(b: Bs, i: int) -> bool { 0 <= i && i + 1 < b.len() && b[i] == b'\\' && ascii_punct(b[i + 1]) }

/// Text without escapes before `k` stands for itself.
proof fn lemma_plain(b: Bs, k: int)
    requires 0 <= k <= b.len(), forall|x: int| 0 <= x < k ==> !escape_at(b, x)
    ensures unescape(b) == b.subrange(0, k) + unescape(from(b, k))
    decreases k
{
    if k == 0 {
        assert(from(b, 0) =~= b);
        assert(b.subrange(0, 0) + unescape(from(b, 0)) =~= unescape(b));
    } else {
        assert(!escape_at(b, 0));
        let c = from(b, 1);
        assert forall|x: int| 0 <= x < k - 1 implies !escape_at(c, x) by { assert(!escape_at(b, x + 1)); }
        lemma_plain(c, k - 1);
        assert(from(c, k - 1) =~= from(b, k));
        assert(b.subrange(0, k) =~= seq![b[0]] + c.subrange(0, k - 1));
        assert(unescape(b) == seq![b[0]] + unescape(c));
        assert(seq![b[0]] + (c.subrange(0, k - 1) + unescape(from(b, k))) =~= b.subrange(0, k) + unescape(from(b, k)));
    }
}
/// Iterator over the positions of an ASCII character (stands for str::match_indices).
struct VMatch<'a> { s: &'a str, pos: usize, c: u8 }
impl<'a> VMatch<'a> {
    spec fn wf(&self) -> bool { self.pos <= sb(self.s).len() <= usize::MAX && self.c < 128 }
    fn next(&mut self) -> (r: Option<(usize, &'a str)>)
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).s == old(self).s, final(self).c == old(self).c,
            match r {
                Some((i, _)) => old(self).pos <= i < final(self).pos && final(self).pos == i + 1 && sb(old(self).s)[i as int] == old(self).c
                    && forall|x: int| old(self).pos <= x < i ==> sb(old(self).s)[x] != old(self).c,
                None => final(self).pos == sb(old(self).s).len() && forall|x: int| old(self).pos <= x < sb(old(self).s).len() ==> sb(old(self).s)[x] != old(self).c,
            },
    {
        let b = self.s.as_bytes();
        while self.pos < b.len()
            invariant self.wf(), self.s == old(self).s, self.c == old(self).c, b@ == sb(self.s), old(self).pos <= self.pos,
                forall|x: int| old(self).pos <= x < self.pos ==> b@[x] != self.c,
            decreases b.len() - self.pos,
        {
            if b[self.pos] == self.c {
                let i = self.pos;
                proof { lemma_valid(self.s); lemma_ascii_boundary(sb(self.s), i as int); }
                let t = self.s.v_slice(i, i + 1);
                self.pos += 1;
                return Some((i, t));
            }
            self.pos += 1;
        }
        None
    }
}
trait VMatches { spec fn mb(&self) -> &str; fn v_match_indices(&self, c: char) -> (r: VMatch<'_>) requires (c as u32) < 128 ensures r.wf(), r.pos == 0, r.c == c as u8, sb(r.s) == sb(self.mb()); }
impl VMatches for str {
    spec fn mb(&self) -> &str { self }
    fn v_match_indices(&self, c: char) -> VMatch<'_> { let n = self.v_len(); VMatch { s: self, pos: 0, c: c as u8 } }
}
fn v_take_str<'s>(a: &mut &'s str) -> (r: &'s str)
    ensures r == *old(a), sb(*final(a)).len() == 0,
{
    let r = *a;
    proof { lemma_lits(); }
    *a = "";
    r
}
@end
@fn AttributeValue::parts
    ret r
    subst /&self.raw/self.raw.as_str()/
    ens
        sb(r.ahead) == self.raw.b(),
@end
@fn <AttributeValueParts as Iterator>::next self AttributeValueParts<'s>
    ret r
    opt m_match_indices slice m_is_empty match_guards
    subst /std::mem::take(/v_take_str(/
    ens
        // the parts, put together, are the value without its escaping backslashes
        r is None ==> unescape(sb(old(self).ahead)).len() == 0 && sb(final(self).ahead).len() == 0,
        r is Some ==> unescape(sb(old(self).ahead)) == sb(r->0) + unescape(sb(final(self).ahead)),
        r is Some ==> sb(final(self).ahead).len() < sb(old(self).ahead).len(),
    loop 0
        invariant __it0.wf(), __it0.c == 92, *self == *old(self), sb(__it0.s) == sb(self.ahead),
            forall|x: int| 0 <= x < __it0.pos ==> !escape_at(sb(self.ahead), x),
        ensures
            __it0.pos == sb(self.ahead).len(),
        decreases
            sb(__it0.s).len() - __it0.pos
    at loop 0 start
        proof {
            let b = sb(self.ahead);
            assert forall|x: int| 0 <= x < i implies !escape_at(b, x) by {}
            lemma_plain(b, i as int);
            lemma_valid(self.ahead);
            lemma_ascii_boundary(b, i as int);
            if i + 1 < b.len() && b[i + 1] < 128 { lemma_ascii_boundary(b, i + 1); }
            assert(from(b, i as int)[0] == b[i as int]);
            if i + 1 < b.len() {
                let f = from(b, i as int);
                assert(f[1] == b[i + 1]);
                assert(f.subrange(2, f.len() as int) =~= from(b, i + 2));
                if ascii_punct(b[i + 1]) {
                    assert(unescape(f) == seq![b[i + 1]] + unescape(from(b, i + 2)));
                    let g = from(b, i + 1);
                    assert(g[0] == b[i + 1]);
                    assert(g.subrange(1, g.len() as int) =~= from(b, i + 2));
                    if b[i + 1] != b'\\' { assert(unescape(g) == seq![g[0]] + unescape(from(b, i + 2))); }
                    if b[i + 1] == b'\\' {
                        assert(b.subrange(0, i + 1) =~= b.subrange(0, i as int) + seq![b'\\']);
                        assert(b.subrange(0, i as int) + (seq![b'\\'] + unescape(from(b, i + 2))) =~= b.subrange(0, i + 1) + unescape(from(b, i + 2)));
                    }
                }
            }
        }
    at loop 0 after
        proof {
            let b = sb(self.ahead);
            lemma_lits();
            lemma_plain(b, b.len() as int);
            assert(from(b, b.len() as int) =~= Seq::<u8>::empty());
            assert(b.subrange(0, b.len() as int) =~= b);
            assert(unescape(Seq::<u8>::empty()) == Seq::<u8>::empty());
            assert(b + Seq::<u8>::empty() =~= b);
        }
@end
@item struct AttributePairsIter derive -
@raw
/// The key of an element.
spec fn key_of(k: KV) -> Option<Bs> {
    match k { KV::Class => Some(class_b()), KV::Id => Some(id_b()), KV::Pair(k) => Some(k), KV::Comment => None }
}
spec fn class_b() -> Bs { sb("class") }
spec fn id_b() -> Bs { sb("id") }
spec fn has_key(e: Els, k: Bs) -> bool { exists|i: int| 0 <= i < e.len() && key_of(#[trigger] e[i].0) == Some(k) }
/// All class values joined by single spaces.
spec fn class_value(e: Els) -> Bs
    decreases e.len()
{
    if e.len() == 0 { Seq::empty() }
    else if key_of(e.last().0) == Some(class_b()) { join(class_value(e.drop_last()), e.last().1) }
    else { class_value(e.drop_last()) }
}
/// `i` is the last element with key `k`.
spec fn is_last(e: Els, k: Bs, i: int) -> bool {
    0 <= i < e.len() && key_of(e[i].0) == Some(k) && forall|j: int| i < j < e.len() ==> key_of(#[trigger] e[j].0) != Some(k)
}
/// `i` is the first element with its key.
spec fn is_first(e: Els, i: int) -> bool {
    0 <= i < e.len() && key_of(e[i].0) is Some && forall|j: int| 0 <= j < i ==> key_of(#[trigger] e[j].0) != key_of(e[i].0)
}
/// `v` is the value of the contained key `k`.
spec fn is_value(e: Els, k: Bs, v: Bs) -> bool {
    if k == class_b() { v == class_value(e) } else { exists|i: int| is_last(e, k, i) && #[trigger] e[i].1 == v }
}
proof fn lemma_no_class(e: Els, n: int)
    requires 0 <= n <= e.len(), forall|j: int| 0 <= j < n ==> key_of(#[trigger] e[j].0) != Some(class_b())
    ensures class_value(e.subrange(0, n)).len() == 0
    decreases n
{
    let p = e.subrange(0, n);
    if n > 0 { lemma_no_class(e, n - 1); assert(p.drop_last() =~= e.subrange(0, n - 1)); assert(p.last() == e[n - 1]); }
}
proof fn lemma_class_step(e: Els, n: int)
    requires 0 <= n < e.len()
    ensures
        key_of(e[n].0) == Some(class_b()) ==> class_value(e.subrange(0, n + 1)) == join(class_value(e.subrange(0, n)), e[n].1),
        key_of(e[n].0) != Some(class_b()) ==> class_value(e.subrange(0, n + 1)) == class_value(e.subrange(0, n)),
{
    let p = e.subrange(0, n + 1);
    assert(p.drop_last() =~= e.subrange(0, n));
    assert(p.last() == e[n]);
}
spec fn opt_b(o: Option<&str>) -> Option<Bs> { match o { Some(s) => Some(sb(s)), None => None } }
trait VEq { spec fn eqs(&self, o: &Self) -> bool; fn eq_(&self, o: &Self) -> (r: bool) ensures r == self.eqs(o); }
impl VEq for &str {
    spec fn eqs(&self, o: &Self) -> bool { sb(*self) == sb(*o) }
    fn eq_(&self, o: &Self) -> bool {
        let (a, b) = (self.as_bytes(), o.as_bytes());
        if a.len() != b.len() { return false; }
        let mut i = 0;
        while i < a.len()
            invariant a@ == sb(*self), b@ == sb(*o), a.len() == b.len(), 0 <= i <= a.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j]
            decreases a.len() - i
        {
            if a[i] != b[i] { assert(a@[i as int] != b@[i as int]); assert(sb(*self)[i as int] != sb(*o)[i as int]); return false; }
            i += 1;
        }
        assert(a@ =~= b@);
        true
    }
}
impl VEq for Option<&str> {
    spec fn eqs(&self, o: &Self) -> bool { opt_b(*self) == opt_b(*o) }
    fn eq_(&self, o: &Self) -> bool {
        match (self, o) { (Some(a), Some(b)) => a.eq_(b), (None, None) => true, _ => false }
    }
}
fn v_eq<T: VEq>(a: T, b: T) -> (r: bool) ensures r == a.eqs(&b) { a.eq_(&b) }
trait VAsSlice<T> { spec fn sl(&self) -> Seq<T>; fn as_sl(&self) -> (r: &[T]) ensures r@ == self.sl(); }
impl<T> VAsSlice<T> for Vec<T> { spec fn sl(&self) -> Seq<T> { self@ } fn as_sl(&self) -> &[T] { self.as_slice() } }
impl<T> VAsSlice<T> for &[T] { spec fn sl(&self) -> Seq<T> { self@ } fn as_sl(&self) -> &[T] { self } }
fn v_as_slice<'a, T, S: VAsSlice<T>>(s: &'a S) -> (r: &'a [T]) ensures r@ == s.sl() { s.as_sl() }
trait VSlice<T> {
    spec fn vs(&self) -> Seq<T>;
    fn v_slice_from(&self, a: usize) -> (r: &[T]) requires a <= self.vs().len() ensures r@ == self.vs().subrange(a as int, self.vs().len() as int);
    fn v_slice_to(&self, b: usize) -> (r: &[T]) requires b <= self.vs().len() ensures r@ == self.vs().subrange(0, b as int);
    fn v_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vs().len() > 0 && *x == self.vs()[0], None => self.vs().len() == 0 };
}
impl<T> VSlice<T> for [T] {
    spec fn vs(&self) -> Seq<T> { self@ }
    fn v_slice_from(&self, a: usize) -> &[T] { vstd::slice::slice_subrange(self, a, self.len()) }
    fn v_slice_to(&self, b: usize) -> &[T] { vstd::slice::slice_subrange(self, 0, b) }
    fn v_first(&self) -> Option<&T> { if self.len() > 0 { Some(&self[0]) } else { None } }
}
impl<'s> AttributeValue<'s> {
    /// AttributeValue::default() and clone(), derived in the source
    fn v_new() -> (r: Self) ensures r.raw.b().len() == 0 { proof { lemma_lits(); } AttributeValue { raw: CowStr::Borrowed("") } }
    fn v_clone(&self) -> (r: Self) ensures r.raw.b() == self.raw.b()
    {
        match &self.raw { CowStr::Borrowed(s) => AttributeValue { raw: CowStr::Borrowed(s) }, CowStr::Owned(s) => AttributeValue { raw: CowStr::Owned(s.clone()) } }
    }
}
/// What remains of an iterator over elements is the rest of `s`.
#[verifier::prophetic]
spec fn eit_ok<'s>(it: core::slice::Iter<'_, AttributeElem<'s>>, s: Seq<AttributeElem<'s>>) -> bool {
    &&& it.obeys_prophetic_iter_laws()
    &&& it.decrease() is Some
    &&& it.remaining().len() <= s.len()
    &&& forall|i: int| 0 <= i < it.remaining().len() ==> *(#[trigger] it.remaining()[i]) == s[s.len() - it.remaining().len() + i]
}
@end
@fn AttributeKind::key
    ret r
    subst /key.as_ref()/key.as_str()/
    ens
        opt_b(r) == key_of(kv(*self)),
@end
@fn Attributes::contains_key
    ret r
    opt iter_any eq
    ens
        r == has_key(els(*self), sb(key)),
    loop 0
        invariant_except_break
            __r0 == false,
            forall|i: int| 0 <= i < self.0@.len() - __it0.remaining().len() ==> key_of(#[trigger] els(*self)[i].0) != Some(sb(key)),
        invariant eit_ok(__it0, self.0@),
        ensures
            __r0 == has_key(els(*self), sb(key)),
        decreases __it0.decrease()->0
    at loop 0 start
        proof {
            let i = self.0@.len() - __it0.remaining().len() - 1;
            assert(els(*self)[i] == el(self.0@[i]));
            assert(els(*self)[i].0 == kv(*k));
        }
@end
@fn Attributes::get_value
    ret r
    opt iter_rfind eq opt_map m_clone m_is_empty
    subst /AttributeValue::new()/AttributeValue::v_new()/
    subst /&v.raw/v.raw.as_str()/
    ens
        // the value of a contained key; for classes, there is none if all class values are empty
        match r {
            Some(v) => has_key(els(*self), sb(key)) && is_value(els(*self), sb(key), v.raw.b()),
            None => sb(key) == class_b() && class_value(els(*self)).len() == 0 || !has_key(els(*self), sb(key)),
        },
        r is None && sb(key) == class_b() ==> class_value(els(*self)).len() == 0,
    loop 0
        invariant eit_ok(__it0, self.0@),
            value.raw.b() == class_value(els(*self).subrange(0, self.0@.len() - __it0.remaining().len())),
            value.raw.b().len() > 0 ==> has_key(els(*self), class_b()),
        ensures
            __it0.remaining().len() == 0,
        decreases __it0.decrease()->0
    at loop 0 start
        proof {
            let i = self.0@.len() - __it0.remaining().len() - 1;
            assert(els(*self)[i] == el(self.0@[i]));
            lemma_class_step(els(*self), i);
        }
    loop 1
        invariant_except_break
            __r1 is None,
            forall|i: int| __n1 <= i < self.0@.len() ==> key_of(#[trigger] els(*self)[i].0) != Some(sb(key)),
        invariant __s1@ == self.0@, 0 <= __n1 <= self.0@.len(),
        ensures
            match __r1 { Some(x) => __n1 < self.0@.len() && els(*self)[__n1 as int].1 == x.1.raw.b() && *x == self.0@[__n1 as int] && is_last(els(*self), sb(key), __n1 as int), None => !has_key(els(*self), sb(key)) },
        decreases __n1
    at loop 1 start
        proof { assert(els(*self)[__n1 as int] == el(self.0@[__n1 as int])); }
    at if 0 then
        proof { assert(els(*self).subrange(0, els(*self).len() as int) =~= els(*self)); }
@end
@fn Attributes::unique_pairs
    ret r
    subst /attrs: &self.0/attrs: self.0.as_slice()/
    ens
        r.attrs@ == self.0@, r.pos == 0,
@end
@raw
spec fn els_s(s: Seq<AttributeElem<'_>>) -> Els { Seq::new(s.len(), |i: int| el(s[i])) }
@end
@fn <AttributePairsIter as Iterator>::next self AttributePairsIter<'a, 's>
    ret r
    opt slice m_first eq iter_any iter_rfind m_clone
    subst /&v.raw/v.raw.as_str()/
    subst /self.attrs.v_slice/(*self.attrs).v_slice/
    req
        old(self).pos <= old(self).attrs@.len(),
    ens
        final(self).attrs == old(self).attrs, final(self).pos <= final(self).attrs@.len(),
        match r {
            // the next element that is the first with its key, together with the key's value
            Some((k, v)) => ({
                let e = els_s(old(self).attrs@);
                let p = final(self).pos - 1;
                &&& old(self).pos <= p < e.len()
                &&& is_first(e, p) && key_of(e[p].0) == Some(sb(k))
                &&& is_value(e, sb(k), v.raw.b())
                &&& forall|j: int| old(self).pos <= j < p ==> !#[trigger] is_first(e, j)
            }),
            None => forall|j: int| old(self).pos <= j < old(self).attrs@.len() ==> !#[trigger] is_first(els_s(old(self).attrs@), j),
        },
    loop 0
        invariant
            self.attrs == old(self).attrs, old(self).pos <= self.pos <= self.attrs@.len(),
            forall|j: int| old(self).pos <= j < self.pos ==> !#[trigger] is_first(els_s(self.attrs@), j),
        ensures
            self.pos == self.attrs@.len(),
        decreases self.attrs@.len() - self.pos
    at loop 0 start
        let ghost p = self.pos as int;
        proof {
            assert(els_s(self.attrs@)[p] == el(self.attrs@[p]));
            assert(p < self.attrs@.len() <= usize::MAX) by { assert(self.attrs.len() == self.attrs@.len()); }
        }
    loop 1
        invariant_except_break
            __r1 == false,
            forall|i: int| 0 <= i < p - __it1.remaining().len() ==> key_of(#[trigger] els_s(self.attrs@)[i].0) != Some(sb(key)),
        invariant self.pos == p + 1, 0 <= p < self.attrs@.len(), eit_ok(__it1, self.attrs@.subrange(0, p)),
        ensures
            __r1 == exists|i: int| 0 <= i < p && key_of(#[trigger] els_s(self.attrs@)[i].0) == Some(sb(key)),
        decreases __it1.decrease()->0
    at loop 1 start
        proof {
            let i = p - __it1.remaining().len() - 1;
            assert(els_s(self.attrs@)[i] == el(self.attrs@[i]));
            assert(els_s(self.attrs@)[i].0 == kv(*k));
        }
    loop 2
        invariant self.pos == p + 1, 0 <= p < self.attrs@.len(), eit_ok(__it2, self.attrs@.subrange(p + 1, self.attrs@.len() as int)),
            value.raw.b() == class_value(els_s(self.attrs@).subrange(0, self.attrs@.len() - __it2.remaining().len())),
        ensures
            __it2.remaining().len() == 0,
        decreases __it2.decrease()->0
    at loop 2 start
        proof {
            let i = self.attrs@.len() - __it2.remaining().len() - 1;
            assert(els_s(self.attrs@)[i] == el(self.attrs@[i]));
            lemma_class_step(els_s(self.attrs@), i);
        }
    at loop 2 before
        proof {
            lemma_no_class(els_s(self.attrs@), p);
            lemma_class_step(els_s(self.attrs@), p);
            assert(els_s(self.attrs@).subrange(0, els_s(self.attrs@).len() as int) =~= els_s(self.attrs@));
            assert(join(Seq::empty(), value.raw.b()) =~= value.raw.b());
        }
    loop 3
        invariant_except_break
            __r3 is None,
            forall|i: int| p + 1 + __n3 <= i < self.attrs@.len() ==> key_of(#[trigger] els_s(self.attrs@)[i].0) != Some(sb(key)),
        invariant self.pos == p + 1, 0 <= p < self.attrs@.len(), __s3@ == self.attrs@.subrange(p + 1, self.attrs@.len() as int), 0 <= __n3 <= __s3@.len(),
        ensures
            match __r3 {
                Some(x) => __n3 < __s3@.len() && *x == self.attrs@[p + 1 + __n3] && is_last(els_s(self.attrs@), sb(key), p + 1 + __n3) && els_s(self.attrs@)[p + 1 + __n3].1 == x.1.raw.b(),
                None => forall|i: int| p + 1 <= i < self.attrs@.len() ==> key_of(#[trigger] els_s(self.attrs@)[i].0) != Some(sb(key)),
            },
        decreases __n3
    at loop 3 start
        proof { assert(els_s(self.attrs@)[p + 1 + __n3] == el(self.attrs@[p + 1 + __n3])); }
    at return 2
        proof { assert(is_last(els_s(self.attrs@), sb(key), p)); assert(els_s(self.attrs@)[p].1 == value.raw.b()); }
@end
