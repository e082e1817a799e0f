// The HTML renderer.
@include writer.vc
@file src/lib.rs
@item enum Event derive -
@item enum Container derive -
@item enum Alignment
@item enum SpanLinkType
@item enum LinkType
@item enum ListBulletType
@item enum ListKind
@item enum OrderedListNumbering
@item enum OrderedListStyle
@raw
use OrderedListNumbering::*;
/// HTML-escaped text. Unescaping gives the text back (lemma_unesc).
pub open spec fn esc1(c: u8, q: bool) -> Bs {
    if c == 60 { seq![38u8, 108, 116, 59] }
    else if c == 62 { seq![38u8, 103, 116, 59] }
    else if c == 38 { seq![38u8, 97, 109, 112, 59] }
    else if c == 34 && q { seq![38u8, 113, 117, 111, 116, 59] }
    else { seq![c] }
}
pub open spec fn esc(b: Bs, q: bool) -> Bs decreases b.len() { if b.len() == 0 { b } else { esc(b.drop_last(), q) + esc1(b.last(), q) } }
/// Character references of HTML that the renderer writes in texts.
pub open spec fn unref(b: Bs) -> Option<(u8, int)> {
    if pre(b, seq![38u8, 108, 116, 59]) { Some((60u8, 4)) }
    else if pre(b, seq![38u8, 103, 116, 59]) { Some((62u8, 4)) }
    else if pre(b, seq![38u8, 97, 109, 112, 59]) { Some((38u8, 5)) }
    else if pre(b, seq![38u8, 113, 117, 111, 116, 59]) { Some((34u8, 6)) }
    else { None }
}
pub open spec fn pre(b: Bs, p: Bs) -> bool { b.len() >= p.len() && b.subrange(0, p.len() as int) == p }
/// What a reader of the HTML text sees.
pub open spec fn unesc(b: Bs) -> Bs decreases b.len() {
    if b.len() == 0 { b }
    else { match unref(b) { Some((c, n)) => if 0 < n <= b.len() { seq![c] + unesc(b.subrange(n, b.len() as int)) } else { b }, None => seq![b[0]] + unesc(b.subrange(1, b.len() as int)) } }
}
proof fn lemma_esc_front(b: Bs, q: bool)
    requires b.len() > 0
    ensures esc(b, q) == esc1(b[0], q) + esc(b.subrange(1, b.len() as int), q)
    decreases b.len()
{
    let t = b.subrange(1, b.len() as int);
    if b.len() == 1 {
        assert(b.drop_last() =~= Seq::empty());
        assert(t =~= Seq::empty());
        assert(esc(b, q) =~= esc1(b[0], q) + esc(t, q));
    } else {
        lemma_esc_front(b.drop_last(), q);
        assert(b.drop_last().subrange(1, b.len() - 1) =~= t.drop_last());
        assert(esc(b, q) =~= esc1(b[0], q) + (esc(t.drop_last(), q) + esc1(t.last(), q)));
    }
}
proof fn lemma_unesc(b: Bs, q: bool)
    ensures unesc(esc(b, q)) == b
    decreases b.len()
{
    if b.len() > 0 {
        let t = b.subrange(1, b.len() as int);
        let e = esc(b, q);
        lemma_esc_front(b, q);
        lemma_unesc(t, q);
        let x = esc1(b[0], q);
        assert(e.subrange(0, x.len() as int) =~= x);
        assert(e.subrange(x.len() as int, e.len() as int) =~= esc(t, q));
        assert(seq![b[0]] + t =~= b);
        assert forall|p: Bs| #[trigger] pre(e, p) && p.len() > 0 implies e[0] == p[0] by { assert(e.subrange(0, p.len() as int)[0] == p[0]); }
        if b[0] == 60 { assert(pre(e, x)); }
        else if b[0] == 62 { assert(pre(e, x)); assert(!pre(e, seq![38u8, 108, 116, 59])) by { assert(e[1] == 103); assert(e.subrange(0, 4)[1] == 103); } }
        else if b[0] == 38 { assert(pre(e, x)); assert(!pre(e, seq![38u8, 108, 116, 59])) by { assert(e[1] == 97); assert(e.subrange(0, 4)[1] == 97); } assert(!pre(e, seq![38u8, 103, 116, 59])) by { assert(e.subrange(0, 4)[1] == 97); } }
        else if b[0] == 34 && q { assert(pre(e, x)); assert(e.subrange(0, 4)[1] == 113); assert(e.subrange(0, 5)[1] == 113); }
        else { assert(unref(e) is None); }
    }
}
proof fn lemma_esc_concat(a: Bs, b: Bs, q: bool)
    ensures esc(a + b, q) == esc(a, q) + esc(b, q)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(esc(a, q) + esc(b, q) =~= esc(a, q)); }
    else { lemma_esc_concat(a, b.drop_last(), q); assert((a + b).drop_last() =~= a + b.drop_last()); assert(esc(a + b, q) =~= esc(a, q) + esc(b, q)); }
}
proof fn lemma_esc_none(b: Bs, q: bool)
    requires forall|i: int| 0 <= i < b.len() ==> esc1(#[trigger] b[i], q) == seq![b[i]]
    ensures esc(b, q) == b
    decreases b.len()
{ if b.len() > 0 { lemma_esc_none(b.drop_last(), q); assert(b.drop_last() + seq![b.last()] =~= b); } }
proof fn lemma_scan_esc1(l: Lx, c: u8, q: bool)
    requires l.m is Text && l.n == 0 || l.m is Val && q
    ensures scan(l, esc1(c, q)) == l
{
    let e = esc1(c, q);
    reveal_with_fuel(sc, 2);
    let s1 = step(l, e[0]);
    assert(sc(l, e, 1) == s1);
    if e.len() > 1 {
        assert(sc(l, e, 2) == s1);
        assert(sc(l, e, 3) == step(s1, e[2]));
        if e.len() > 4 { assert(sc(l, e, 4) == s1); }
        if e.len() > 5 { assert(sc(l, e, 5) == s1); }
    }
}
/// Escaped text leaves the scanner where it was: text in text, values in values.
broadcast proof fn lemma_scan_esc(l: Lx, b: Bs, q: bool)
    requires l.m is Text && l.n == 0 || l.m is Val && q
    ensures #[trigger] scan(l, esc(b, q)) == l
    decreases b.len()
{
    if b.len() > 0 {
        lemma_scan_esc(l, b.drop_last(), q);
        lemma_scan_concat(l, esc(b.drop_last(), q), esc1(b.last(), q));
        lemma_scan_esc1(l, b.last(), q);
    }
}
proof fn lemma_esc_empty(b: Bs, q: bool) ensures esc(b.subrange(0, 0), q) == Seq::<u8>::empty(), from(b, 0) == b, forall|x: Bs| #[trigger] (x + esc(b.subrange(0, 0), q)) == x
{ assert(from(b, 0) =~= b); assert forall|x: Bs| #[trigger] (x + esc(b.subrange(0, 0), q)) == x by { assert(x + esc(b.subrange(0, 0), q) =~= x); } }
proof fn lemma_ents()
    ensures sb("&lt;") == seq![38u8, 108, 116, 59], sb("&gt;") == seq![38u8, 103, 116, 59], sb("&amp;") == seq![38u8, 97, 109, 112, 59], sb("&quot;") == seq![38u8, 113, 117, 111, 116, 59]
{
    broadcast use group_utf8_lib;
    reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&amp;"); reveal_strlit("&quot;");
    assert(is_ascii_chars("&lt;"@)); assert(is_ascii_chars("&gt;"@)); assert(is_ascii_chars("&amp;"@)); assert(is_ascii_chars("&quot;"@));
    assert(sb("&lt;") =~= seq![38u8, 108, 116, 59]); assert(sb("&gt;") =~= seq![38u8, 103, 116, 59]);
    assert(sb("&amp;") =~= seq![38u8, 97, 109, 112, 59]); assert(sb("&quot;") =~= seq![38u8, 113, 117, 111, 116, 59]);
}
spec fn opt_c(o: Option<usize>) -> int { match o { Some(i) => i as int, None => -1 } }
@end
@file src/html.rs
@fn write_text
    ret r
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    req
        !old(out).failed(),
    ens
        wrote(r, old(out).out(), final(out).failed(), final(out).out(), esc(sb(s), false)),
@end
@fn write_attr
    ret r
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    req
        !old(out).failed(),
    ens
        wrote(r, old(out).out(), final(out).failed(), final(out).out(), esc(sb(s), true)),
@end
@fn write_escape
    ret r
    opt lits str_find slice
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    req
        !old(out).failed(),
    ens
        wrote(r, old(out).out(), final(out).failed(), final(out).out(), esc(sb(s), escape_quotes)),
    at start
        let ghost all = sb(s);
        let ghost mut done = 0int;
        proof { lemma_esc_empty(all, escape_quotes); lemma_valid(s); }
    loop 0
        invariant
            bnd(sb(s), 0), 0 <= done <= all.len(), sb(s) == from(all, done), !out.failed(),
            out.out() == old(out).out() + esc(all.subrange(0, done), escape_quotes),
        ensures
            forall|j: int| 0 <= j < sb(s).len() ==> esc1(#[trigger] sb(s)[j], escape_quotes) == seq![sb(s)[j]],
        decreases sb(s).len()
    at loop 0 start
        proof {
            let d = done + i + 1;
            let mid = sb(s).subrange(0, i as int);
            assert(mid =~= all.subrange(done, done + i));
            lemma_esc_none(mid, escape_quotes);
            lemma_esc_concat(all.subrange(0, done), mid, escape_quotes);
            assert(all.subrange(0, done) + mid =~= all.subrange(0, done + i));
            assert(all.subrange(0, d).drop_last() =~= all.subrange(0, done + i));
            assert(all.subrange(0, d).last() == sb(s)[i as int]);
            assert(old(out).out() + esc(all.subrange(0, done), escape_quotes) + mid + esc1(sb(s)[i as int], escape_quotes)
                =~= old(out).out() + esc(all.subrange(0, d), escape_quotes));
            assert(from(sb(s), i + 1) =~= from(all, d));
        }
    at loop 0 end
        proof { done = done + i + 1; lemma_valid(s); }
    at loop 0 after
        proof {
            lemma_esc_none(sb(s), escape_quotes);
            lemma_esc_concat(all.subrange(0, done), sb(s), escape_quotes);
            assert(all.subrange(0, done) + sb(s) =~= all);
            assert(old(out).out() + esc(all.subrange(0, done), escape_quotes) + sb(s) =~= old(out).out() + esc(all, escape_quotes));
        }
    loop 1
        invariant_except_break
            __r1 is None,
        invariant
            __s1 == s, bnd(sb(s), __n1 as int), __n1 <= sb(s).len(),
            forall|j: int| 0 <= j < __n1 ==> esc1(#[trigger] sb(s)[j], escape_quotes) == seq![sb(s)[j]],
        ensures
            match __r1 {
                Some(i) => i < sb(s).len() && i < usize::MAX && bnd(sb(s), i as int) && bnd(sb(s), i + 1)
                    && sb(ent) == esc1(sb(s)[i as int], escape_quotes)
                    && forall|j: int| 0 <= j < i ==> esc1(#[trigger] sb(s)[j], escape_quotes) == seq![sb(s)[j]],
                None => forall|j: int| 0 <= j < sb(s).len() ==> esc1(#[trigger] sb(s)[j], escape_quotes) == seq![sb(s)[j]],
            },
        decreases sb(s).len() - __n1
    at loop 1 start
        proof {
            lemma_ents();
            let n = encode_utf8(seq![__c1]).len();
            if (__c1 as u32) < 128 {
                lemma_ascii_char(__c1);
                assert(sb(s).subrange(__n1 as int, __n1 + n)[0] == __c1 as u8);
            }
        }
@end
@file src/lib.rs
@raw
spec fn is_container(c: Container<'_>) -> bool {
    c is Blockquote || c is List || c is ListItem || c is TaskListItem || c is DescriptionList || c is DescriptionDetails
        || c is Footnote || c is Table || c is TableRow || c is Section || c is Div
}
@end
@fn Container::is_block
    ret r
    ens
        is_container(*self) ==> r,
@end
@fn Container::is_block_container
    ret r
    ens
        r == is_container(*self),
@end
@file src/html.rs
@item struct Indentation derive -
@item enum Raw derive -
@raw
/// Stands for std's HashMap / BTreeMap: pairs with distinct keys.
pub struct Map<K, V> { pub e: Vec<(K, V)> }
pub trait VKey { spec fn kb(&self) -> Bs; fn v_same(&self, o: &Self) -> (r: bool) ensures r == (self.kb() == o.kb()); }
impl VKey for CowStr<'_> {
    open spec fn kb(&self) -> Bs { self.b() }
    fn v_same(&self, o: &Self) -> bool { v_eq(self.as_str(), o.as_str()) }
}
fn v_same(a: &CowStr<'_>, b: &CowStr<'_>) -> (r: bool) ensures r == (a.b() == b.b()) { a.v_same(b) }
impl<K: VKey, V> Map<K, V> {
    pub open spec fn ents(&self) -> Seq<(Bs, V)> { Seq::new(self.e@.len(), |i: int| (self.e@[i].0.kb(), self.e@[i].1)) }
    fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            match r {
                Some(v) => exists|i: int| 0 <= i < old(self).ents().len() && #[trigger] old(self).ents()[i] == (k.kb(), v) && final(self).ents() == old(self).ents().remove(i),
                None => final(self).ents() == old(self).ents() && forall|i: int| 0 <= i < old(self).ents().len() ==> (#[trigger] old(self).ents()[i]).0 != k.kb(),
            },
    {
        let mut i = 0;
        while i < self.e.len()
            invariant *self == *old(self), 0 <= i <= self.e@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] old(self).ents()[j]).0 != k.kb()
            decreases self.e.len() - i
        {
            if self.e[i].0.v_same(k) {
                let x = self.e.remove(i);
                proof {
                    assert(old(self).ents()[i as int] == (k.kb(), x.1));
                    assert(self.ents() =~= old(self).ents().remove(i as int));
                }
                return Some(x.1);
            }
            assert(old(self).ents()[i as int].0 == self.e@[i as int].0.kb());
            i += 1;
        }
        None
    }
    fn insert(&mut self, k: K, v: V)
        ensures final(self).ents().len() > 0, final(self).ents().last() == (k.kb(), v),
            final(self).ents().drop_last() == old(self).ents()
            || exists|i: int| 0 <= i < old(self).ents().len() && (#[trigger] old(self).ents()[i]).0 == k.kb() && final(self).ents().drop_last() == old(self).ents().remove(i),
    {
        let _ = self.remove(&k);
        let ghost mid = self.ents();
        self.e.push((k, v));
        proof { assert(self.ents().drop_last() =~= mid); }
    }
}
spec fn total(m: Seq<(Bs, Vec<Event<'_>>)>) -> nat decreases m.len() { if m.len() == 0 { 0 } else { total(m.drop_last()) + m.last().1@.len() } }
proof fn lemma_total_remove(m: Seq<(Bs, Vec<Event<'_>>)>, i: int)
    requires 0 <= i < m.len()
    ensures total(m.remove(i)) + m[i].1@.len() == total(m)
    decreases m.len()
{
    if i < m.len() - 1 {
        lemma_total_remove(m.drop_last(), i);
        assert(m.remove(i).drop_last() =~= m.drop_last().remove(i));
        assert(m.remove(i).last() == m.last());
    } else { assert(m.remove(i) =~= m.drop_last()); }
}
@end
@item struct Footnotes derive -
@raw
trait VVec<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn v_get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.vv().len() && *x == self.vv()[i as int], None => i >= self.vv().len() };
    fn v_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vv().len() > 0 && *x == self.vv().last(), None => self.vv().len() == 0 };
    fn v_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => old(self).vv().len() > 0 && *x == old(self).vv().last() && final(self).vv() == old(self).vv().update(old(self).vv().len() - 1, *final(x)),
            None => old(self).vv().len() == 0 && *final(self) == *old(self),
        };
}
impl<T> VVec<T> for Vec<T> {
    spec fn vv(&self) -> Seq<T> { self@ }
    fn v_get(&self, i: usize) -> Option<&T> { if i < self.len() { Some(&self[i]) } else { None } }
    fn v_last(&self) -> Option<&T> { let n = self.len(); if n > 0 { Some(&self[n - 1]) } else { None } }
    fn v_last_mut(&mut self) -> Option<&mut T> { let n = self.len(); if n > 0 { Some(&mut self[n - 1]) } else { None } }
}
/// What remains of a slice iterator is the rest of `s`.
#[verifier::prophetic]
spec fn git_ok<T>(it: core::slice::Iter<'_, T>, s: Seq<T>) -> bool {
    &&& it.obeys_prophetic_iter_laws()
    &&& it.decrease() is Some
    &&& it.remaining().len() <= s.len()
    &&& forall|i: int| 0 <= i < it.remaining().len() ==> *(#[trigger] it.remaining()[i]) == s[s.len() - it.remaining().len() + i]
}
spec fn labels(r: Seq<CowStr<'_>>) -> Seq<Bs> { Seq::new(r.len(), |i: int| r[i].b()) }
spec fn distinct(r: Seq<Bs>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i] != r[j] }
impl<'s> Footnotes<'s> {
    spec fn refs(&self) -> Seq<Bs> { labels(self.references@) }
    /// References are numbered once each, in order; those up to `number` have been emitted.
    spec fn wf(&self) -> bool { distinct(self.refs()) && self.number <= self.references@.len() }
}
@end
@fn Footnotes::reference_encountered
    ret r
    ens
        r == (self.refs().len() > 0),
@end
@fn Footnotes::in_epilogue
    ret r
    ens
        r == (self.number > 0),
@end
@fn Footnotes::reference
    ret r
    opt iter_position
    subst /*t == label/v_same(t, &label)/
    req
        old(self).wf(),
    ens
        final(self).wf(),
        *final(self) == (Footnotes { references: final(self).references, ..*old(self) }),
        // the number of a label is its position among the labels in the order of their first reference
        1 <= r <= final(self).refs().len(), final(self).refs()[r - 1] == label.b(),
        old(self).refs().contains(label.b()) ==> final(self).references == old(self).references,
        !old(self).refs().contains(label.b()) ==> final(self).refs() == old(self).refs().push(label.b()) && r == old(self).refs().len() + 1,
    loop 0
        invariant_except_break
            __r0 is None, __n0 == self.refs().len() - __it0.remaining().len(),
            forall|i: int| 0 <= i < __n0 ==> (#[trigger] self.refs()[i]) != label.b(),
        invariant *self == *old(self), git_ok(__it0, self.references@), self.references@.len() <= usize::MAX,
        ensures
            match __r0 { Some(i) => i < self.refs().len() && self.refs()[i as int] == label.b(), None => !self.refs().contains(label.b()) },
        decreases __it0.decrease()->0
    at loop 0 start
        proof { assert(self.refs()[__n0 as int] == t.b()); }
    at loop 0 before
        let ghost lb = label.b();
        proof { assert(self.references.len() == self.references@.len()); }
    at call push after
        proof {
            assert(self.refs() =~= old(self).refs().push(lb));
            assert forall|i: int, j: int| 0 <= i < j < self.refs().len() implies self.refs()[i] != self.refs()[j] by { assert(!old(self).refs().contains(lb)); }
        }
@end
@fn Footnotes::start
    ens
        *final(self) == (Footnotes { open: final(self).open, ..*old(self) }),
        final(self).open@ == old(self).open@.push((label, events)),
@end
@fn Footnotes::end
    req
        old(self).open@.len() > 0,
    ens
        *final(self) == (Footnotes { open: final(self).open, events: final(self).events, ..*old(self) }),
        final(self).open@ == old(self).open@.drop_last(),
        final(self).events.ents().len() > 0, final(self).events.ents().last() == (old(self).open@.last().0.b(), old(self).open@.last().1),
        final(self).events.ents().drop_last() == old(self).events.ents()
            || exists|i: int| 0 <= i < old(self).events.ents().len() && (#[trigger] old(self).events.ents()[i]).0 == old(self).open@.last().0.b() && final(self).events.ents().drop_last() == old(self).events.ents().remove(i),
@end
@fn Footnotes::current
    ret r
    opt opt_map m_last_mut
    ens
        match r {
            None => old(self).open@.len() == 0 && *final(self) == *old(self),
            Some(e) => old(self).open@.len() > 0 && *e == old(self).open@.last().1
                && final(self).open@ == old(self).open@.update(old(self).open@.len() - 1, (old(self).open@.last().0, *final(e)))
                && *final(self) == (Footnotes { open: final(self).open, ..*old(self) }),
        },
@end
@fn <Footnotes as Iterator>::next
    ret r
    opt opt_map m_get
    req
        old(self).wf(),
    ens
        final(self).wf(),
        *final(self) == (Footnotes { number: final(self).number, events: final(self).events, ..*old(self) }),
        match r {
            // each reference once, in order
            Some((n, evs)) => n == old(self).number + 1 && final(self).number == n && n <= old(self).refs().len()
                && match evs {
                    Some(v) => exists|i: int| 0 <= i < old(self).events.ents().len() && #[trigger] old(self).events.ents()[i] == (old(self).refs()[n - 1], v) && final(self).events.ents() == old(self).events.ents().remove(i),
                    None => final(self).events.ents() == old(self).events.ents() && forall|i: int| 0 <= i < old(self).events.ents().len() ==> (#[trigger] old(self).events.ents()[i]).0 != old(self).refs()[n - 1],
                },
            None => *final(self) == *old(self) && old(self).number == old(self).refs().len(),
        },
    at start
        proof { assert(self.references.len() == self.references@.len()); }
@end

@raw
impl VStr for String {
    open spec fn bytes_of(&self) -> Bs { encode_utf8(self@) }
    fn v_len(&self) -> usize { broadcast use group_utf8_lib; self.as_str().v_len() }
    fn v_is_empty(&self) -> bool { broadcast use group_utf8_lib; self.as_str().v_is_empty() }
    fn v_bytes(&self) -> VBytes<'_> { broadcast use group_utf8_lib; self.as_str().v_bytes() }
    fn v_slice(&self, a: usize, b: usize) -> &str { broadcast use group_utf8_lib; v_str_slice(self.as_str(), a, b) }
    fn v_slice_from(&self, a: usize) -> &str { broadcast use group_utf8_lib; self.as_str().v_slice_from(a) }
    fn v_slice_to(&self, b: usize) -> &str { broadcast use group_utf8_lib; self.as_str().v_slice_to(b) }
    fn v_starts_with(&self, c: char) -> bool { broadcast use group_utf8_lib; self.as_str().v_starts_with(c) }
}
impl VInto<isize> for bool {
    open spec fn post(self, r: isize) -> bool { r == (if self { 1int } else { 0int }) }
    fn v_into(self) -> isize { if self { 1 } else { 0 } }
}
/// Clone as derived: an equal value.
impl<'s> Event<'s> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'s> Container<'s> { #[verifier::external_body] fn v_clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// Events by position (stands for the iterator over an optional vector).
struct VEvents<'s> { v: Vec<Event<'s>>, pos: usize }
impl<'s> VEvents<'s> {
    fn next(&mut self) -> (r: Option<&Event<'s>>)
        requires old(self).pos <= old(self).v@.len()
        ensures final(self).v == old(self).v, final(self).pos <= final(self).v@.len(),
            match r {
                Some(e) => old(self).pos < old(self).v@.len() && *e == old(self).v@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                None => old(self).pos == old(self).v@.len() && final(self).pos == old(self).pos,
            },
    {
        if self.pos < self.v.len() { self.pos += 1; Some(&self.v[self.pos - 1]) } else { None }
    }
}
fn v_events<'s>(o: Option<Vec<Event<'s>>>) -> (r: VEvents<'s>)
    ensures r.pos == 0, r.v@ == (match o { Some(v) => v@, None => Seq::empty() })
{ match o { Some(v) => VEvents { v, pos: 0 }, None => VEvents { v: Vec::new(), pos: 0 } } }

// ---- what the renderer writes for an event, as seen by the scanner
/// Name of the (outer) element of a container.
spec fn tag(c: Container<'_>) -> int {
    match c {
        Container::Blockquote  => 0x626c6f636b71756f7465,
        Container::ListItem  => 0x6c69,
        Container::TaskListItem { .. } => 0x6c69,
        Container::DescriptionList  => 0x646c,
        Container::DescriptionDetails  => 0x6464,
        Container::Table  => 0x7461626c65,
        Container::TableRow { .. } => 0x7472,
        Container::Section { .. } => 0x73656374696f6e,
        Container::Div { .. } => 0x646976,
        Container::Caption  => 0x63617074696f6e,
        Container::DescriptionTerm  => 0x6474,
        Container::Span  => 0x7370616e,
        Container::Math { .. } => 0x7370616e,
        Container::Link (..) => 0x61,
        Container::Image (..) => 0x696d67,
        Container::Verbatim  => 0x636f6465,
        Container::Subscript  => 0x737562,
        Container::Superscript  => 0x737570,
        Container::Insert  => 0x696e73,
        Container::Delete  => 0x64656c,
        Container::Strong  => 0x7374726f6e67,
        Container::Emphasis  => 0x656d,
        Container::Mark  => 0x6d61726b,
        Container::CodeBlock { .. } => 0x707265,
        Container::Paragraph  => 0x70,
        Container::List { kind, .. } => if kind is Ordered { 0x6f6c } else { 0x756c },
        Container::Heading { level, .. } => nm(0x68, dec(level as nat)),
        Container::TableCell { head, .. } => if head { 0x7468 } else { 0x7464 },
        _ => 0,
    }
}
/// Containers with elements of their own.
spec fn shown(c: Container<'_>, tight: bool) -> bool {
    !(c is Document || c is Footnote || c is RawBlock || c is RawInline || c is LinkDefinition || c is Image || c is Paragraph && tight)
}
spec fn elems(c: Container<'_>, tight: bool) -> Seq<int> {
    if !shown(c, tight) { Seq::empty() }
    else if c is CodeBlock { seq![0x707265int, 0x636f6465int] }
    else { seq![tag(c)] }
}
spec fn img_() -> int { 0x696d67 }
spec fn p_() -> int { 0x70 }
pub ghost struct A { pub lx: Lx, pub img: int, pub tight: Seq<bool>, pub raw: int, pub ign: bool, pub opn: int, pub epi: bool, pub dep: int, pub ind: bool }
spec fn in_tight(a: A) -> bool { a.tight.len() > 0 && a.tight.last() }
spec fn text(st: Seq<int>) -> Lx { lx(M::Text, 0, st) }
spec fn ready(a: A) -> bool {
    &&& a.img >= 0 && a.opn >= 0 && (a.ind ==> 0 <= a.dep <= 0x4000_0000_0000_0000)
    &&& if a.img == 0 { a.lx == text(a.lx.st) } else { a.lx == lx(M::Val, img_(), a.lx.st) }
}
spec fn attrs_ok(a: Attributes<'_>) -> bool { forall|i: int| 0 <= i < els(a).len() ==> (match #[trigger] els(a)[i].0 { KV::Pair(k) => plain(k), _ => true }) }
/// What is required of events: containers are closed in the reverse order of opening, attribute keys, classes of divs and names of
/// symbols are plain, raw HTML is complete.
spec fn ev_ok(a: A, e: Event<'_>) -> bool {
    a.opn > 0 || match e {
        Event::Start(c, attrs) => a.ign || {
            &&& attrs_ok(attrs)
            &&& c is Div ==> plain(c->Div_class.b())
            &&& c is Image ==> a.img < 0xffff_ffff
            &&& is_container(c) && a.ind ==> a.dep < 0x4000_0000_0000_0000
        },
        Event::End(c) => c is LinkDefinition || a.ign || {
            &&& !(c is Footnote)
            &&& is_container(c) && a.ind ==> a.dep > 0
            &&& c is Image ==> a.img > 0
            &&& c is List && a.img == 0 ==> a.tight.len() > 0
            &&& a.img == 0 ==> ends(a.lx.st, elems(c, in_tight(a)))
            &&& c is Document ==> a.tight.len() == 0 && a.img == 0 && a.raw == 0 && !a.epi && (a.ind ==> a.dep < 0x1000_0000_0000_0000)
        },
        Event::Str(s) => a.raw == 1 ==> scan(a.lx, s.b()) == a.lx,
        Event::Symbol(s) => plain(s.b()),
        Event::ThematicBreak(attrs) => a.img == 0 && attrs_ok(attrs) || a.ign,
        _ => true,
    }
}
spec fn ends(st: Seq<int>, e: Seq<int>) -> bool { st.len() >= e.len() && st.subrange(st.len() - e.len(), st.len() as int) == e }
spec fn ev_next(a: A, e: Event<'_>) -> A {
    if e is Start && e->Start_0 is Footnote { A { opn: a.opn + 1, ..a } }
    else if a.opn > 0 { if e is End && e->End_0 is Footnote { A { opn: a.opn - 1, ..a } } else { a } }
    else if e is Start && e->Start_0 is LinkDefinition { A { ign: true, ..a } }
    else if e is End && e->End_0 is LinkDefinition { A { ign: false, ..a } }
    else if a.ign { a }
    else { match e {
        Event::Start(c, _) => {
            let a = A { dep: if a.ind && is_container(c) { a.dep + 1 } else { a.dep }, ..a };
            if c is Image { A { img: a.img + 1, lx: lx(M::Val, img_(), a.lx.st), ..a } }
            else if a.img > 0 { a }
            else { A {
                tight: if c is List { a.tight.push(c->List_tight) } else { a.tight },
                raw: match c { Container::RawBlock { format } => raw_of(format), Container::RawInline { format } => raw_of(format), _ => a.raw },
                lx: text(a.lx.st + elems(c, in_tight(a))), ..a
            } }
        },
        Event::End(c) => {
            let a = A { dep: if a.ind && is_container(c) { a.dep - 1 } else { a.dep }, ..a };
            if c is Image { A { img: a.img - 1, lx: if a.img == 1 { text(a.lx.st) } else { a.lx }, ..a } }
            else if a.img > 0 { a }
            else { A {
                tight: if c is List { a.tight.drop_last() } else { a.tight },
                raw: if c is RawBlock || c is RawInline { 0 } else { a.raw },
                lx: if c is Paragraph && a.epi { a.lx } else { text(a.lx.st.subrange(0, a.lx.st.len() - elems(c, in_tight(a)).len())) }, ..a
            } }
        },
        _ => a,
    } }
}
spec fn raw_of(f: CowStr<'_>) -> int { if f.b() == sb("html") { 1 } else { 2 } }
/// The events of a footnote, rendered in the epilogue; a paragraph is left open until the next event.
spec fn run(v: Seq<Event<'_>>, i: int, a: A, u: bool) -> Option<(A, bool)>
    decreases v.len() - i
{
    if i >= v.len() || i < 0 { Some((a, u)) }
    else if v[i] is Blankline || v[i] is Escape { run(v, i + 1, a, u) }
    else {
        let b = if u { A { lx: text(a.lx.st.drop_last()), ..a } } else { a };
        if (u ==> a.img == 0 && a.lx.st.len() > 0 && a.lx.st.last() == p_()) && inner(v[i]) && ev_ok(b, v[i]) {
            run(v, i + 1, ev_next(b, v[i]), v[i] is End && v[i]->End_0 is Paragraph && !in_tight(ev_next(b, v[i])))
        } else { None }
    }
}
/// No documents and footnotes within footnotes.
spec fn inner(e: Event<'_>) -> bool {
    &&& e is Start ==> !(e->Start_0 is Document) && !(e->Start_0 is Footnote)
    &&& e is End ==> !(e->End_0 is Document) && !(e->End_0 is Footnote)
}
spec fn std(a: A) -> bool {
    a.lx == text(a.lx.st) && a.img == 0 && a.tight.len() == 0 && a.raw == 0 && !a.ign && a.opn == 0 && a.epi && (a.ind ==> 0 <= a.dep < 0x1000_0000_0000_0000)
}
spec fn fn_ok(v: Seq<Event<'_>>) -> bool {
    forall|a: A| std(a) ==> match #[trigger] run(v, 0, a, false) {
        Some((z, u)) => z == (if u { A { lx: text(a.lx.st.push(p_())), ..a } } else { a }),
        None => false,
    }
}
spec fn fns_ok(m: Seq<(Bs, Vec<Event<'_>>)>) -> bool { forall|i: int| 0 <= i < m.len() ==> fn_ok((#[trigger] m[i]).1@) }

/// `b` repeated.
spec fn reps(b: Bs, n: nat) -> Bs decreases n { if n == 0 { Seq::empty() } else { reps(b, (n - 1) as nat) + b } }
proof fn lemma_reps(b: Bs, n: nat)
    requires plain(b)
    ensures plain(reps(b, n))
    decreases n
{ if n > 0 { lemma_reps(b, (n - 1) as nat); } }
/// What separates blocks: a line break (before all but the first) and the indentation, nothing at all if minified.
spec fn brk(ind: Option<Indentation>, first: bool, dep: nat) -> Bs {
    match ind { Some(i) => (if first { Seq::empty() } else { seq![10u8] }) + reps(encode_utf8(i.string@), dep), None => Seq::empty() }
}
broadcast proof fn lemma_brk(ind: Option<Indentation>, first: bool, dep: nat)
    requires ind is Some ==> plain(encode_utf8(ind->0.string@))
    ensures plain(#[trigger] brk(ind, first, dep))
{ if let Some(i) = ind { lemma_reps(encode_utf8(i.string@), dep); } }
proof fn lemma_reps_empty(b: Bs, n: nat) requires b.len() == 0 ensures reps(b, n).len() == 0 decreases n { if n > 0 { lemma_reps_empty(b, (n - 1) as nat); } }
@end
@item struct Renderer derive -
@raw
proof fn lemma_keys() ensures plain(class_b()), plain(id_b())
{
    broadcast use group_utf8_lib;
    reveal_strlit("class"); reveal_strlit("id");
    assert(is_ascii_chars("class"@)); assert(is_ascii_chars("id"@));
    assert(sb("class") =~= seq![99u8, 108, 97, 115, 115]); assert(sb("id") =~= seq![105u8, 100]);
}
/// Neither within a footnote nor within a link definition.
spec fn live(r: &Renderer<'_>) -> bool { r.footnotes.open@.len() == 0 && !r.ignore }
spec fn cls_base(c: Container<'_>) -> Bs {
    match c {
        Container::List { kind: ListKind::Task(_), .. } => sb("task-list"),
        Container::Math { display } => if display { sb("math display") } else { sb("math inline") },
        _ => Seq::empty(),
    }
}
proof fn lemma_cls_base(c: Container<'_>) ensures cls_base(c).len() > 0 <==> (c is List && c->List_kind is Task || c is Math)
{
    broadcast use group_utf8_lib;
    reveal_strlit("task-list"); reveal_strlit("math inline"); reveal_strlit("math display");
    assert(is_ascii_chars("task-list"@)); assert(is_ascii_chars("math inline"@)); assert(is_ascii_chars("math display"@));
    assert(sb("task-list").len() == 9); assert(sb("math inline").len() == 11); assert(sb("math display").len() == 12);
}
/// The classes of an element that come from its kind; after others if `first`.
spec fn cls(c: Container<'_>, first: bool) -> Bs {
    let own = if c is Div { c->Div_class.b() } else { cls_base(c) };
    if own.len() > 0 { (if first { seq![32u8] } else { Seq::empty() }) + own } else { Seq::empty() }
}
impl<'s> Renderer<'s> {
    spec fn raw_n(&self) -> int { match self.raw { Raw::None => 0, Raw::Html => 1, Raw::Other => 2 } }
    spec fn ab(&self, out: Bs) -> A {
        A { lx: scan(text(Seq::empty()), out), img: self.img_alt_text as int, tight: self.list_tightness@, raw: self.raw_n(), ign: self.ignore,
            opn: self.footnotes.open@.len() as int, epi: self.footnotes.number > 0, dep: self.depth as int, ind: self.indent is Some }
    }
    spec fn wf(&self) -> bool {
        &&& self.footnotes.wf() && fns_ok(self.footnotes.events.ents())
        &&& self.indent is Some ==> plain(encode_utf8(self.indent->0.string@)) && self.depth <= 0x4000_0000_0000_0000
    }
    /// Remaining work of the epilogue.
    spec fn todo(&self) -> int { self.footnotes.refs().len() - self.footnotes.number + total(self.footnotes.events.ents()) }
}
@end
@fn write_class
    ret r
    opt lits m_is_empty
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    subst /out.write_str(class)/out.write_str(class.as_str())/
    req
        !old(out).failed(),
        c is Div ==> plain(c->Div_class.b()),
    ens
        wrote(r, old(out).out(), final(out).failed(), final(out).out(), cls(*c, first_written)),
        r is Ok && lex(old(out)).m is Val ==> lex(final(out)) == lex(old(out)),
    at start
        broadcast use group_html;
        let ghost old_first = first_written;
        proof { lemma_ascii_char(' '); assert forall|b: Bs| #[trigger] (b + Seq::<u8>::empty()) == b by { assert(b + Seq::<u8>::empty() =~= b); } }
    at end
        proof {
            let f = old_first;
            lemma_cls_base(*c);
            if f && cls_base(*c).len() > 0 { assert(cls(*c, f) == seq![32u8] + cls_base(*c)); assert(final(out).out() =~= old(out).out() + seq![32u8] + cls_base(*c)); }
            assert(final(out).out() =~= old(out).out() + cls(*c, f));
        }
@end
@raw
fn v_footnotes_default<'s>() -> (r: Footnotes<'s>)
    ensures r.open@.len() == 0, r.references@.len() == 0, r.number == 0, r.events.ents().len() == 0
{ Footnotes { open: Vec::new(), references: Vec::new(), number: 0, events: Map { e: Vec::new() } } }
@end
@fn Renderer::new
    ret r
    subst /Raw::default()/Raw::None/
    subst /Footnotes::default()/v_footnotes_default()/
    req
        indent is Some ==> plain(encode_utf8(indent->0.string@)) && indent->0.initial_level < 0x1000_0000_0000_0000,
    ens
        r.wf(), r.ab(Seq::empty()) == (A { lx: text(Seq::empty()), img: 0, tight: Seq::empty(), raw: 0, ign: false, opn: 0, epi: false, dep: if indent is Some { indent->0.initial_level as int } else { 0 }, ind: indent is Some }),
        ready(r.ab(Seq::empty())),
    at end
        proof { assert(labels(Seq::<CowStr<'_>>::empty()).len() == 0); }
@end
@fn Renderer::indent
    ret r
    opt m_is_empty
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    subst /&indent.string/indent.string.as_str()/
    req
        !old(out).failed(),
    ens
        wrote(r, old(out).out(), final(out).failed(), final(out).out(), brk(self.indent, true, self.depth as nat)),
    at start
        proof { assert(old(out).out() + Seq::<u8>::empty() =~= old(out).out()); if let Some(ref i) = self.indent { if encode_utf8(i.string@).len() == 0 { lemma_reps_empty(encode_utf8(i.string@), self.depth as nat); assert(old(out).out() + brk(self.indent, true, self.depth as nat) =~= old(out).out()); } } broadcast use group_utf8_lib; }
    loop 0
        invariant !out.failed(), 0 <= __x0 <= __e0, __e0 == self.depth, self.indent == Some(*indent),
            out.out() == old(out).out() + reps(encode_utf8(indent.string@), __x0 as nat),
        decreases __e0 - __x0
    at loop 0 end
        proof {
            broadcast use group_utf8_lib;
            let b = encode_utf8(indent.string@);
            assert(old(out).out() + reps(b, (__x0 - 1) as nat) + b =~= old(out).out() + reps(b, __x0 as nat));
        }
    at loop 0 after
        proof { assert(brk(self.indent, true, self.depth as nat) =~= reps(encode_utf8(indent.string@), self.depth as nat)); }
@end
@fn Renderer::block
    ret r
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    req
        !old(out).failed(), old(self).wf(),
        depth_change == 0 || depth_change == 1 || depth_change == -1,
        depth_change == 1 && old(self).indent is Some ==> old(self).depth < 0x4000_0000_0000_0000,
        depth_change == -1 && old(self).indent is Some ==> old(self).depth > 0,
    ens
        *final(self) == (Renderer { depth: final(self).depth, ..*old(self) }),
        final(out).failed() == r is Err,
        r is Ok ==> final(self).depth == (if old(self).indent is Some { old(self).depth + depth_change } else { old(self).depth as int }),
        // children are indented deeper than the start and end of their container
        r is Ok ==> final(out).out() == old(out).out() + brk(old(self).indent, old(self).first_line, (if depth_change < 0 { old(self).depth - 1 } else { old(self).depth as int }) as nat),
        r is Ok ==> final(self).wf(),
        r is Ok && (lex(old(out)).m is Text || lex(old(out)).m is Val) ==> lex(final(out)) == lex(old(out)),
    at start
        broadcast use group_html, lemma_brk;
        proof { lemma_ascii_char('\n'); assert(old(out).out() + Seq::<u8>::empty() =~= old(out).out()); }
    at end
        proof { assert(out.out() =~= old(out).out() + brk(old(self).indent, old(self).first_line, (if depth_change < 0 { old(self).depth - 1 } else { old(self).depth as int }) as nat)); }
@end
@raw
broadcast proof fn lemma_push_pop(st: Seq<int>, x: int) ensures #[trigger] st.push(x).drop_last() == st { assert(st.push(x).drop_last() =~= st); }
/// Elements added to and removed from the stack, one by one.
proof fn lemma_stk(st: Seq<int>, e: Seq<int>)
    requires e.len() <= 2
    ensures
        e.len() == 0 ==> st + e == st && st.subrange(0, st.len() as int) == st,
        e.len() == 1 ==> st + e == st.push(e[0]) && (ends(st, e) ==> st.len() > 0 && st.last() == e[0] && st.subrange(0, st.len() - 1) == st.drop_last()),
        e.len() == 2 ==> st + e == st.push(e[0]).push(e[1]) && (ends(st, e) ==> st.len() > 1 && st[st.len() - 1] == e[1] && st[st.len() - 2] == e[0] && st.subrange(0, st.len() - 2) == st.drop_last().drop_last()),
{
    if e.len() == 0 { assert(st + e =~= st); assert(st.subrange(0, st.len() as int) =~= st); }
    if e.len() == 1 { assert(st + e =~= st.push(e[0])); if ends(st, e) { assert(st.subrange(st.len() - 1, st.len() as int)[0] == st.last()); assert(st.subrange(0, st.len() - 1) =~= st.drop_last()); } }
    if e.len() == 2 {
        assert(st + e =~= st.push(e[0]).push(e[1]));
        if ends(st, e) {
            let t = st.subrange(st.len() - 2, st.len() as int);
            assert(t[0] == st[st.len() - 2] && t[1] == st[st.len() - 1]);
            assert(st.subrange(0, st.len() - 2) =~= st.drop_last().drop_last());
        }
    }
}
proof fn lemma_fns_ok(m0: Seq<(Bs, Vec<Event<'_>>)>, m1: Seq<(Bs, Vec<Event<'_>>)>)
    requires
        fns_ok(m0), m1.len() > 0, fn_ok(m1.last().1@),
        m1.drop_last() == m0 || exists|i: int| 0 <= i < m0.len() && m1.drop_last() == #[trigger] m0.remove(i),
    ensures fns_ok(m1)
{
    assert forall|i: int| 0 <= i < m1.len() implies fn_ok((#[trigger] m1[i]).1@) by {
        if i < m1.len() - 1 {
            assert(m1[i] == m1.drop_last()[i]);
            if m1.drop_last() == m0 { assert(fn_ok(m0[i].1@)); }
            else {
                let k = choose|k: int| 0 <= k < m0.len() && m1.drop_last() == #[trigger] m0.remove(k);
                let r = m0.subrange(0, k) + m0.subrange(k + 1, m0.len() as int);
                assert(m0.remove(k) =~= r);
                assert(r[i] == (if i < k { m0[i] } else { m0[i + 1] }));
                assert(fn_ok((if i < k { m0[i] } else { m0[i + 1] }).1@));
            }
        }
    }
}
@end
@file src/html.rs
@fn Renderer::render_event
    ret r
    case early only None: !live(old(self)) || e is Start && (e->Start_0 is Footnote || e->Start_0 is LinkDefinition) || e is End && (e->End_0 is Footnote || e->End_0 is LinkDefinition)
    case start_blockquote only Start,Blockquote,ListItem,DescriptionList: live(old(self)) && e is Start && (e->Start_0 is Blockquote || e->Start_0 is ListItem || e->Start_0 is DescriptionList)
    case start_descriptiondetails only Start,DescriptionDetails,Table,TableRow: live(old(self)) && e is Start && (e->Start_0 is DescriptionDetails || e->Start_0 is Table || e->Start_0 is TableRow)
    case start_section only Start,Section,Heading: live(old(self)) && e is Start && (e->Start_0 is Section || e->Start_0 is Heading)
    case start_div only Start,Div,Math: live(old(self)) && e is Start && (e->Start_0 is Div || e->Start_0 is Math)
    case start_list only Start,List: live(old(self)) && e is Start && (e->Start_0 is List)
    case start_paragraph only Start,Paragraph: live(old(self)) && e is Start && (e->Start_0 is Paragraph)
    case start_caption only Start,Caption,DescriptionTerm,Span: live(old(self)) && e is Start && (e->Start_0 is Caption || e->Start_0 is DescriptionTerm || e->Start_0 is Span)
    case start_tablecell only Start,TableCell: live(old(self)) && e is Start && (e->Start_0 is TableCell)
    case start_codeblock only Start,CodeBlock: live(old(self)) && e is Start && (e->Start_0 is CodeBlock)
    case start_link only Start,Link: live(old(self)) && e is Start && (e->Start_0 is Link)
    case start_image only Start,Image: live(old(self)) && e is Start && (e->Start_0 is Image)
    case start_verbatim only Start,Verbatim,Subscript,Superscript: live(old(self)) && e is Start && (e->Start_0 is Verbatim || e->Start_0 is Subscript || e->Start_0 is Superscript)
    case start_insert only Start,Insert,Delete,Strong: live(old(self)) && e is Start && (e->Start_0 is Insert || e->Start_0 is Delete || e->Start_0 is Strong)
    case start_emphasis only Start,Emphasis,Mark: live(old(self)) && e is Start && (e->Start_0 is Emphasis || e->Start_0 is Mark)
    case start_tasklistitem only Start,TaskListItem: live(old(self)) && e is Start && (e->Start_0 is TaskListItem)
    case start_document only Start,Document,RawBlock,RawInline: live(old(self)) && e is Start && (e->Start_0 is Document || e->Start_0 is RawBlock || e->Start_0 is RawInline)
    case end_blockquote only End,Blockquote,ListItem,TaskListItem,DescriptionList,DescriptionDetails,Table: live(old(self)) && e is End && (e->End_0 is Blockquote || e->End_0 is ListItem || e->End_0 is TaskListItem || e->End_0 is DescriptionList || e->End_0 is DescriptionDetails || e->End_0 is Table)
    case end_tablerow only End,TableRow,Section,Div,Paragraph: live(old(self)) && e is End && (e->End_0 is TableRow || e->End_0 is Section || e->End_0 is Div || e->End_0 is Paragraph)
    case end_list only End,List: live(old(self)) && e is End && (e->End_0 is List)
    case end_heading only End,Heading,TableCell,Caption,DescriptionTerm: live(old(self)) && e is End && (e->End_0 is Heading || e->End_0 is TableCell || e->End_0 is Caption || e->End_0 is DescriptionTerm)
    case end_codeblock only End,CodeBlock,Span,Link,Math: live(old(self)) && e is End && (e->End_0 is CodeBlock || e->End_0 is Span || e->End_0 is Link || e->End_0 is Math)
    case end_image only End,Image,Document: live(old(self)) && e is End && (e->End_0 is Image || e->End_0 is Document)
    case end_verbatim only End,Verbatim,Subscript,Superscript,Insert,Delete,Strong: live(old(self)) && e is End && (e->End_0 is Verbatim || e->End_0 is Subscript || e->End_0 is Superscript || e->End_0 is Insert || e->End_0 is Delete || e->End_0 is Strong)
    case end_emphasis only End,Emphasis,Mark,RawBlock,RawInline: live(old(self)) && e is End && (e->End_0 is Emphasis || e->End_0 is Mark || e->End_0 is RawBlock || e->End_0 is RawInline)
    case str only Str: live(old(self)) && (e is Str)
    case footnotereference only FootnoteReference,Symbol: live(old(self)) && (e is FootnoteReference || e is Symbol)
    case leftsinglequote only LeftSingleQuote,RightSingleQuote,LeftDoubleQuote,RightDoubleQuote,Ellipsis,EnDash,EmDash,NonBreakingSpace: live(old(self)) && (e is LeftSingleQuote || e is RightSingleQuote || e is LeftDoubleQuote || e is RightDoubleQuote || e is Ellipsis || e is EnDash || e is EmDash || e is NonBreakingSpace)
    case hardbreak only Hardbreak,Softbreak,Escape,Blankline,Attributes: live(old(self)) && (e is Hardbreak || e is Softbreak || e is Escape || e is Blankline || e is Attributes)
    case thematicbreak only ThematicBreak: live(old(self)) && (e is ThematicBreak)
    opt lits write match_guards matches m_is_empty m_clone m_last m_into iter_try_for_each
    attr #[verifier::rlimit(200)]
    attr #[verifier::spinoff_prover]
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    subst /write_attr(dst, out)/write_attr(dst.as_str(), out)/
    subst /write_attr(id, out)/write_attr(id.as_str(), out)/
    subst /write_attr(&language, out)/write_attr(language.as_str(), out)/
    subst /write_attr(&src, out)/write_attr(src.as_str(), out)/
    subst /write_attr(&s, out)/write_attr(s.as_str(), out)/
    subst /write_text(&s, out)/write_text(s.as_str(), out)/
    subst /out.write_str(&s)/out.write_str(s.as_str())/
    subst /format == "html"/v_eq(format.as_str(), "html")/
    req
        !old(out).failed(), old(self).wf(),
        ready(old(self).ab(old(out).out())), ev_ok(old(self).ab(old(out).out()), e),
        e is End && e->End_0 is Footnote && old(self).footnotes.open@.len() > 0 ==> fn_ok(old(self).footnotes.open@.last().1@),
    ens
        final(out).failed() == r is Err,
        r is Ok ==> final(self).wf(),
        r is Ok && old(self).footnotes.open@.len() == 0 && inner(e) ==> final(self).footnotes == (Footnotes { references: final(self).footnotes.references, ..old(self).footnotes })
            && final(self).footnotes.refs().len() <= old(self).footnotes.refs().len() + 1,
        r is Ok && e is End && e->End_0 is Document && live(old(self)) ==> lex(final(out)) == lex(old(out)),
        r is Ok && !(e is End && e->End_0 is Document) ==> final(self).ab(final(out).out()) == ev_next(old(self).ab(old(out).out()), e),
    dec
        old(self).todo(), (if e is End && e->End_0 is Document { 2int } else { 0int })
    at start
        broadcast use group_html, lemma_brk, lemma_scan_esc, lemma_dec_digits, lemma_push_pop;
        let ghost a0 = self.ab(out.out());
        proof {
            let t = in_tight(a0);
            if e is Start { lemma_stk(a0.lx.st, elems(e->Start_0, t)); } else if e is End { lemma_stk(a0.lx.st, elems(e->End_0, t)); }
        }
    at return 1
        proof {
            assert(self.footnotes.refs() == old(self).footnotes.refs());
            if e is End && e->End_0 is Footnote { lemma_fns_ok(old(self).footnotes.events.ents(), self.footnotes.events.ents()); }
        }
    at loop 0 before
        let ghost l0 = lex(out);
    loop 0
        invariant
            __it0.attrs@ == attrs.0@, __it0.pos <= __it0.attrs@.len(), attrs_ok(attrs), !out.failed(), c is Div ==> plain(c->Div_class.b()),
            lex(out).m is Name || lex(out).m is In, lex(out).n == l0.n, lex(out).st == l0.st,
        decreases __it0.attrs@.len() - __it0.pos
    at loop 0 start
        /*lits*/
        broadcast use group_html, lemma_scan_esc;
        proof { assert(els_s(attrs.0@) =~= els(attrs)); lemma_keys(); }
        let ghost l1 = lx(M::Val, l0.n, l0.st);
    loop 1
        invariant_except_break
            __r1 is Ok, lex(out) == l1, !out.failed(),
        invariant l1.m is Val,
        ensures
            out.failed() == __r1 is Err, __r1 is Ok ==> lex(out) == l1,
        decreases sb(__it1.ahead).len()
    at loop 1 start
        /*lits*/
        broadcast use group_html, lemma_scan_esc;
    at loop 2 before
        let ghost l2 = lex(out);
    loop 2
        invariant
            __it2.attrs@ == attrs.0@, __it2.pos <= __it2.attrs@.len(), attrs_ok(attrs), !out.failed(),
            lex(out).m is Name || lex(out).m is In, lex(out).n == l2.n, lex(out).st == l2.st,
        decreases __it2.attrs@.len() - __it2.pos
    at loop 2 start
        /*lits*/
        broadcast use group_html, lemma_scan_esc;
        proof { assert(els_s(attrs.0@) =~= els(attrs)); lemma_keys(); }
        let ghost l3 = lx(M::Val, l2.n, l2.st);
    loop 3
        invariant_except_break
            __r3 is Ok, lex(out) == l3, !out.failed(),
        invariant l3.m is Val,
        ensures
            out.failed() == __r3 is Err, __r3 is Ok ==> lex(out) == l3,
        decreases sb(__it3.ahead).len()
    at loop 3 start
        /*lits*/
        broadcast use group_html, lemma_scan_esc;
@end
@raw
/// Between events the scanner is in a text, or in the value of the alternative text of an image.
proof fn lemma_ready(a: A, e: Event<'_>)
    requires ready(a), ev_ok(a, e), inner(e)
    ensures ready(ev_next(a, e))
{}
proof fn lemma_fns_removed(m: Seq<(Bs, Vec<Event<'_>>)>, i: int)
    requires fns_ok(m), 0 <= i < m.len()
    ensures fns_ok(m.remove(i)), fn_ok(m[i].1@)
{
    assert forall|k: int| 0 <= k < m.remove(i).len() implies fn_ok((#[trigger] m.remove(i)[k]).1@) by { assert(m.remove(i)[k] == (if k < i { m[k] } else { m[k + 1] })); }
}
spec fn doc_end(a: A) -> bool {
    a.lx == text(a.lx.st) && a.img == 0 && a.tight.len() == 0 && a.raw == 0 && !a.ign && a.opn == 0 && !a.epi && (a.ind ==> 0 <= a.dep < 0x1000_0000_0000_0000)
}
spec fn sect_() -> int { 0x73656374696f6e }
spec fn ol_() -> int { 0x6f6c }
spec fn li_() -> int { 0x6c69 }
spec fn with_st(a: A, st: Seq<int>, epi: bool) -> A { A { lx: text(st), epi, ..a } }
@end
@fn Renderer::render_epilogue
    ret r
    opt lits write matches m_last m_clone
    attr #[verifier::rlimit(100)]
    attr #[verifier::spinoff_prover]
    subst /std::fmt::Write/VWrite/
    subst /std::fmt::Result/VResult/
    subst /events.into_iter().flatten()/v_events(events)/
    req
        !old(out).failed(), old(self).wf(), doc_end(old(self).ab(old(out).out())),
    ens
        final(out).failed() == r is Err,
        // the epilogue is complete: all elements are closed
        r is Ok ==> final(self).wf() && lex(final(out)) == lex(old(out)),
    at start
        /*lits*/
        broadcast use group_html, lemma_brk, lemma_dec_digits, lemma_push_pop;
        let ghost a0 = self.ab(out.out());
        let ghost s2 = a0.lx.st.push(sect_()).push(ol_());
    at loop 0 before
        let ghost mut m0 = self.footnotes.events.ents();
    at if 3 thenend
        proof { assert(self.ab(out.out()) == with_st(a1, a1.lx.st.push(p_()), true)); }
    at loop 0 end
        proof { assert(self.ab(out.out()) == with_st(a0, s2, true)); m0 = self.footnotes.events.ents(); }
    loop 0
        invariant
            !out.failed(), self.wf(), doc_end(a0), s2 == a0.lx.st.push(sect_()).push(ol_()),
            self.ab(out.out()) == with_st(a0, s2, self.footnotes.number > 0),
            m0 == self.footnotes.events.ents(),
        decreases self.todo()
    at loop 0 start
        /*lits*/
        broadcast use group_html, lemma_brk, lemma_dec_digits, lemma_push_pop;
        let ghost v = (if events is Some { events->0@ } else { Seq::empty() });
        let ghost a1 = with_st(a0, s2.push(li_()), true);
        let ghost f1 = self.footnotes;
        proof {
            if events is Some {
                assert(fn_ok(v));
                let i = choose|i: int| 0 <= i < m0.len() && #[trigger] m0[i] == (self.footnotes.refs()[number - 1], events->0) && self.footnotes.events.ents() == m0.remove(i);
                lemma_total_remove(m0, i);
                assert(total(self.footnotes.events.ents()) + v.len() == total(m0));
            }
            assert(std(a1));
            assert(match run(v, 0, a1, false) { Some((z, u)) => z == (if u { A { lx: text(a1.lx.st.push(p_())), ..a1 } } else { a1 }), None => false });
        }
    loop 1
        invariant
            !out.failed(), self.wf(), doc_end(a0), s2 == a0.lx.st.push(sect_()).push(ol_()), a1 == with_st(a0, s2.push(li_()), true),
            __it1.v@ == v, __it1.pos <= v.len(), ready(self.ab(out.out())),
            run(v, __it1.pos as int, self.ab(out.out()), unclosed_para) == run(v, 0, a1, false),
            run(v, 0, a1, false) is Some,
            f1.open@.len() == 0, self.footnotes == (Footnotes { references: self.footnotes.references, ..f1 }), self.footnotes.refs().len() <= f1.refs().len() + __it1.pos,
        ensures
            __it1.pos == v.len(),
        decreases v.len() - __it1.pos
    at loop 1 start
        /*lits*/
        broadcast use group_html, lemma_brk, lemma_dec_digits, lemma_push_pop;
    at loop 1 after
        proof { assert(self.ab(out.out()) == (if unclosed_para { A { lx: text(a1.lx.st.push(p_())), ..a1 } } else { a1 })); }
@end
