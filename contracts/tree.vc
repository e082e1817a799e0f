// The tree of blocks: which events the block parser produces.
@include leaf.vc stub
@file src/block.rs
@item enum EventKind derive Clone,Copy
@item struct Event derive -
@item enum Node derive Clone,Copy
@item struct OpenList derive -
@item struct TreeParser derive -
@raw
global size_of usize == 8;
type Sp = std::ops::Range<usize>;
type Evs<'s> = vstd::seq::Seq<Event<'s>>;
type Stk = vstd::seq::Seq<usize>;
pub assume_specification<Idx: Clone>[ <core::ops::Range<Idx> as Clone>::clone ](r: &core::ops::Range<Idx>) -> (s: core::ops::Range<Idx>) ensures s == *r;
impl<'s> Event<'s> {
    /// The derived clone (assumed).
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
fn v_usize(d: u16) -> (r: usize) ensures r == d { d as usize }
/// Depth of an open list; documents with 65536 open containers are not considered.
#[verifier::external_body]
fn v_depth(n: usize) -> (d: u16) ensures d == n { n.try_into().unwrap() }
/// level.try_into().unwrap_or(u16::MAX)
fn v_u16_or_max(n: usize) -> (r: u16) ensures r == lev(n as int) { if n <= 0xffff { n as u16 } else { 0xffff } }
spec fn lev(n: int) -> int { if n <= 0xffff { n } else { 0xffff } }

// ---- spans
spec fn rng_ok(b: Bs, r: Sp) -> bool { r.start <= r.end <= b.len() && bnd(b, r.start as int) && bnd(b, r.end as int) }
spec fn inside(a: Sp, b: Sp) -> bool { b.start <= a.start <= a.end <= b.end }
spec fn lines_ok(b: Bs, ls: Seq<Sp>) -> bool { forall|i: int| 0 <= i < ls.len() ==> rng_ok(b, #[trigger] ls[i]) }
/// Each line is a part of what it was.
spec fn shrunk(a: Seq<Sp>, b: Seq<Sp>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> inside(#[trigger] b[i], a[i]) }
/// Bytes of all lines.
spec fn total(ls: Seq<Sp>) -> int
    decreases ls.len()
{ if ls.len() == 0 { 0 } else { total(ls.drop_last()) + (ls.last().end - ls.last().start) } }
spec fn part(b: Bs, r: Sp) -> Bs { b.subrange(r.start as int, r.end as int) }

/// A boundary of a part is one of the whole.
proof fn lemma_part(b: Bs, r: Sp, i: int)
    requires valid_utf8(b), valid_utf8(part(b, r)), rng_ok(b, r), bnd(part(b, r), i)
    ensures bnd(b, r.start + i)
{
    let p = part(b, r);
    if i < p.len() { is_char_boundary_iff_not_is_continuation_byte(p, i); is_char_boundary_iff_not_is_continuation_byte(b, r.start + i); assert(p[i] == b[r.start + i]); } else { assert(r.start + i == r.end); }
}
proof fn lemma_total(ls: Seq<Sp>)
    requires forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).start <= ls[i].end
    ensures 0 <= total(ls)
    decreases ls.len()
{ if ls.len() > 0 { assert(ls.last() == ls[ls.len() - 1]); lemma_total(ls.drop_last()); } }
/// Parts of lines are not longer; strictly shorter if one of them is.
proof fn lemma_total_shrunk(a: Seq<Sp>, b: Seq<Sp>, k: int)
    requires shrunk(a, b), 0 <= k <= a.len()
    ensures total(b) <= total(a), k < a.len() && b[k].end - b[k].start < a[k].end - a[k].start ==> total(b) < total(a)
    decreases a.len()
{
    if a.len() > 0 {
        assert(inside(b.last(), a.last())) by { assert(b.last() == b[b.len() - 1]); }
        assert(shrunk(a.drop_last(), b.drop_last())) by { assert forall|i: int| 0 <= i < a.len() - 1 implies inside(#[trigger] b.drop_last()[i], a.drop_last()[i]) by { assert(inside(b[i], a[i])); } }
        lemma_total_shrunk(a.drop_last(), b.drop_last(), if k < a.len() - 1 { k } else { a.len() - 1 });
    }
}
proof fn lemma_total_sub(a: Seq<Sp>, i: int, j: int)
    requires forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).start <= a[k].end, 0 <= i <= j <= a.len()
    ensures total(a.subrange(i, j)) <= total(a), i > 0 && a[0].start < a[0].end ==> total(a.subrange(i, j)) < total(a)
    decreases a.len()
{
    let d = a.drop_last();
    if a.len() == 0 { assert(a.subrange(i, j) =~= a); }
    else if j < a.len() {
        assert(a.last() == a[a.len() - 1]);
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).start <= d[k].end by { assert(d[k] == a[k]); }
        lemma_total_sub(d, i, j);
        assert(a.subrange(i, j) =~= d.subrange(i, j));
        if d.len() == 0 { lemma_total(a); assert(total(d) == 0); assert(a.subrange(i, j) =~= Seq::<Sp>::empty()); }
    } else if i == j { lemma_total(a); assert(a.subrange(i, j) =~= Seq::<Sp>::empty()); if a[0].start < a[0].end { lemma_total(d); lemma_total_pos(a); } }
    else {
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).start <= d[k].end by { assert(d[k] == a[k]); }
        lemma_total_sub(d, i, j - 1);
        let s = a.subrange(i, j);
        assert(s.drop_last() =~= d.subrange(i, j - 1));
        assert(s.last() == a.last());
    }
}
proof fn lemma_total_pos(a: Seq<Sp>)
    requires forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).start <= a[k].end, a.len() > 0, a[0].start < a[0].end
    ensures total(a) > 0
    decreases a.len()
{
    let d = a.drop_last();
    assert(a.last() == a[a.len() - 1]);
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).start <= d[k].end by { assert(d[k] == a[k]); }
    if d.len() > 0 { lemma_total_pos(d); } else { assert(total(d) == 0); }
}

// ---- the tree
/// Kind of list: tasks, descriptions or other.
spec fn class(t: ListType) -> int { match t { ListType::Task(_) => 1, ListType::Description => 2, _ => 0 } }
spec fn item_class(k: ListItemKind) -> int { match k { ListItemKind::Task { .. } => 1, ListItemKind::Description => 2, ListItemKind::List => 0 } }
spec fn enter_of(e: Event) -> Option<Node> { match e.kind { EventKind::Enter(n) => Some(n), _ => None } }
spec fn top<'s>(evs: Evs<'s>, o: Stk) -> Option<Node<'s>> { if o.len() == 0 { None } else { enter_of(evs[o.last() as int]) } }
/// Level of the heading of the section entered at `i`; -1 if there is none.
spec fn sec_level(evs: Evs, i: int) -> int {
    if 0 <= i + 1 < evs.len() { match evs[i + 1].kind { EventKind::Enter(Node::Leaf(Leaf::Heading { level, .. })) => level as int, _ => -1 } } else { -1 }
}
/// What contains any blocks.
spec fn is_blk(c: Container) -> bool { match c { Container::List { .. } | Container::Table | Container::TableRow { .. } => false, _ => true } }
spec fn is_sec(n: Option<Node>) -> bool { match n { Some(Node::Container(Container::Section { .. })) => true, _ => false } }
spec fn is_list(n: Option<Node>) -> bool { match n { Some(Node::Container(Container::List { .. })) => true, _ => false } }
spec fn docsec(n: Option<Node>) -> bool { match n { Some(Node::Container(Container::Section { .. })) => true, Some(Node::Container(Container::Document)) => true, _ => false } }
/// Nothing has happened in the innermost open section or list.
spec fn fresh(evs: Evs, o: Stk, i: int) -> bool { o.len() > 0 && o.last() == i - 1 && (is_sec(top(evs, o)) || is_list(top(evs, o))) }
/// The content model: what may be entered, as the event at `i`, where the nodes entered at `o` are open.
spec fn enter_ok(evs: Evs, o: Stk, i: int, n: Node) -> bool {
    match top(evs, o) {
        None => o.len() == 0 && n == Node::Container(Container::Document),
        Some(Node::Leaf(_)) => false,
        Some(Node::Container(p)) => match p {
            Container::List { ty, .. } => match n {
                Node::Container(Container::ListItem(k)) => item_class(k) == class(ty),
                Node::Leaf(Leaf::DescriptionTerm) => class(ty) == 2,
                _ => false,
            },
            Container::Table => match n { Node::Leaf(Leaf::Caption) => true, Node::Container(Container::TableRow { .. }) => true, _ => false },
            Container::TableRow { .. } => match n { Node::Leaf(Leaf::TableCell(_)) => true, _ => false },
            _ => match n {
                Node::Leaf(Leaf::Heading { level, has_section, pos }) => match p {
                    // a heading outside of other blocks starts a section of its own, inside the sections of lower levels
                    Container::Section { pos: q } => has_section && q == pos && o.last() == i - 1 && o.len() >= 2 && ({
                        let q = o[o.len() - 2] as int;
                        match enter_of(evs[q]) {
                            Some(Node::Container(Container::Document)) => true,
                            Some(Node::Container(Container::Section { .. })) => 0 <= sec_level(evs, q) && (sec_level(evs, q) < level || level == 0xffff),
                            _ => false,
                        }
                    }),
                    Container::Document => false,
                    _ => !has_section,
                },
                Node::Leaf(Leaf::Paragraph) | Node::Leaf(Leaf::LinkDefinition { .. }) | Node::Leaf(Leaf::CodeBlock { .. }) => !fresh(evs, o, i),
                Node::Container(Container::Blockquote) | Node::Container(Container::Div { .. }) | Node::Container(Container::List { .. })
                | Node::Container(Container::Footnote { .. }) | Node::Container(Container::Table) => !fresh(evs, o, i),
                Node::Container(Container::Section { .. }) => docsec(top(evs, o)) && !fresh(evs, o, i),
                _ => false,
            },
        },
    }
}
spec fn atom_ok(evs: Evs, o: Stk, i: int, a: Atom) -> bool {
    match top(evs, o) {
        Some(Node::Container(c)) => (is_blk(c) || is_list(top(evs, o)) && a == Atom::Blankline) && !fresh(evs, o, i),
        _ => false,
    }
}
/// The open nodes after the event at `i`; None if it has no place there.
spec fn step(evs: Evs, i: int, o: Stk) -> Option<Stk> {
    match evs[i].kind {
        EventKind::Enter(n) => if enter_ok(evs, o, i, n) { Some(o.push(i as usize)) } else { None },
        EventKind::Exit(n) => if top(evs, o) == Some(n) && !fresh(evs, o, i) { Some(o.drop_last()) } else { None },
        EventKind::Inline => match top(evs, o) { Some(Node::Leaf(_)) => Some(o), _ => None },
        EventKind::Atom(a) => if atom_ok(evs, o, i, a) { Some(o) } else { None },
        EventKind::Stale => Some(o),
    }
}
/// The nodes open after the first `n` events, by the positions of the events that enter them; None if the
/// events are no well-formed part of a tree.
spec fn stk(evs: Evs, n: int) -> Option<Stk>
    decreases n
{
    if n <= 0 { Some(Seq::empty()) } else { match stk(evs, n - 1) { None => None, Some(o) => step(evs, n - 1, o) } }
}
spec fn ent(evs: Evs, i: int) -> bool { 0 <= i < evs.len() && evs[i].kind is Enter }

/// Open nodes are entered one after the other.
proof fn lemma_stk(evs: Evs, n: int)
    requires 0 <= n <= evs.len() <= usize::MAX, stk(evs, n) is Some
    ensures
        forall|k: int| 0 <= k < stk(evs, n)->0.len() ==> (#[trigger] stk(evs, n)->0[k]) < n && evs[stk(evs, n)->0[k] as int].kind is Enter,
        forall|j: int, k: int| 0 <= j < k < stk(evs, n)->0.len() ==> (#[trigger] stk(evs, n)->0[j]) < (#[trigger] stk(evs, n)->0[k]),
    decreases n
{ if n > 0 { lemma_stk(evs, n - 1); } }
proof fn lemma_some(evs: Evs, m: int, n: int)
    requires 0 <= m <= n, stk(evs, n) is Some
    ensures stk(evs, m) is Some
    decreases n - m
{ if m < n { lemma_some(evs, m, n - 1); } }
/// Only the kinds of the first `n` events count.
proof fn lemma_prefix(a: Evs, b: Evs, n: int)
    requires 0 <= n <= a.len() <= usize::MAX, n <= b.len(), forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).kind == b[i].kind
    ensures stk(a, n) == stk(b, n)
    decreases n
{
    if n > 0 {
        lemma_prefix(a, b, n - 1);
        if stk(a, n - 1) is Some {
            let o = stk(a, n - 1)->0;
            lemma_stk(a, n - 1);
            lemma_step(a, b, n - 1, o);
        }
    }
}
/// A step depends on the event, the open nodes and their next events.
proof fn lemma_step(a: Evs, b: Evs, i: int, o: Stk)
    requires
        0 <= i < a.len() <= usize::MAX, i < b.len(), a[i].kind == b[i].kind, forall|k: int| 0 <= k < o.len() ==> (#[trigger] o[k]) < i && a[o[k] as int].kind == b[o[k] as int].kind,
        o.len() >= 2 ==> o[o.len() - 2] < o.last() && a[o[o.len() - 2] + 1].kind == b[o[o.len() - 2] + 1].kind,
    ensures step(a, i, o) == step(b, i, o)
{
    if o.len() > 0 { assert(o.last() == o[o.len() - 1]); }
    assert(top(a, o) == top(b, o));
    if o.len() >= 2 { let q = o[o.len() - 2] as int; assert(a[q].kind == b[q].kind); assert(sec_level(a, q) == sec_level(b, q)); }
}
/// When a node was entered the nodes around it were open.
proof fn lemma_open_at(evs: Evs, n: int, k: int)
    requires 0 <= n <= evs.len() <= usize::MAX, stk(evs, n) is Some, 0 <= k < stk(evs, n)->0.len()
    ensures stk(evs, stk(evs, n)->0[k] as int) == Some(stk(evs, n)->0.take(k))
    decreases n
{
    let o = stk(evs, n)->0;
    let p = stk(evs, n - 1)->0;
    if k < p.len() && p[k] == o[k] && o.take(k) == p.take(k) { lemma_open_at(evs, n - 1, k); }
    else {
        assert(o == p || o == p.push((n - 1) as usize) || p.len() > 0 && o == p.drop_last());
        if k < p.len() { assert(o.take(k) =~= p.take(k)); assert(p[k] == o[k]); }
        assert(o == p.push((n - 1) as usize) && k == p.len());
        assert(o.take(k) =~= p);
    }
}
/// ... and have been since.
proof fn lemma_mid(evs: Evs, m: int, n: int, k: int)
    requires 0 <= m <= n <= evs.len() <= usize::MAX, stk(evs, n) is Some, 0 <= k < stk(evs, n)->0.len(), stk(evs, n)->0[k] < m
    ensures stk(evs, m) is Some, k < stk(evs, m)->0.len(), stk(evs, m)->0.take(k + 1) == stk(evs, n)->0.take(k + 1), stk(evs, m)->0[k] == stk(evs, n)->0[k]
    decreases n - m
{
    if m < n {
        let o = stk(evs, n)->0;
        let p = stk(evs, n - 1)->0;
        assert(stk(evs, n - 1) is Some);
        assert(o == p || o == p.push((n - 1) as usize) || p.len() > 0 && o == p.drop_last());
        assert(k < p.len());
        assert(p[k] == o[k]);
        assert(p.take(k + 1) =~= o.take(k + 1));
        lemma_mid(evs, m, n - 1, k);
    }
}
spec fn same_kind(a: EventKind, b: EventKind) -> bool {
    a == b || match (a, b) {
        (EventKind::Enter(Node::Container(Container::List { ty: t, .. })), EventKind::Enter(Node::Container(Container::List { ty: u, .. }))) => class(t) == class(u),
        _ => false,
    }
}
/// An open list may change its type within its class, and its tightness.
proof fn lemma_retype(a: Evs, b: Evs, n: int, t: int, k: int)
    requires
        0 <= n <= a.len() <= usize::MAX, a.len() == b.len(), stk(a, n) is Some, 0 <= k < stk(a, n)->0.len(), stk(a, n)->0[k] == t, same_kind(a[t].kind, b[t].kind),
        forall|i: int| 0 <= i < n && i != t ==> (#[trigger] a[i]).kind == b[i].kind,
    ensures stk(b, n) == stk(a, n)
{
    lemma_stk(a, n);
    lemma_open_at(a, n, k);
    lemma_prefix(a, b, t);
    if a[t].kind == b[t].kind { assert forall|i: int| 0 <= i < n implies (#[trigger] a[i]).kind == b[i].kind by {} lemma_prefix(a, b, n); }
    else { lemma_retype_(a, b, n, n, t, k); }
}
proof fn lemma_retype_(a: Evs, b: Evs, m: int, n: int, t: int, k: int)
    requires
        t <= m <= n <= a.len() <= usize::MAX, a.len() == b.len(), stk(a, n) is Some, 0 <= k < stk(a, n)->0.len(), stk(a, n)->0[k] == t, same_kind(a[t].kind, b[t].kind), a[t].kind != b[t].kind,
        0 <= t < n, stk(a, t) == stk(b, t),
        forall|i: int| 0 <= i < n && i != t ==> (#[trigger] a[i]).kind == b[i].kind,
    ensures stk(b, m) == stk(a, m)
    decreases m - t
{
    if m > t {
        lemma_retype_(a, b, m - 1, n, t, k);
        lemma_some(a, m, n);
        lemma_some(a, m - 1, n);
        let i = m - 1;
        let o = stk(a, i)->0;
        let p = stk(a, m)->0;
        lemma_stk(a, m - 1);
        lemma_stk(a, m);
        lemma_mid(a, m, n, k);
        if o.len() > 0 { assert(o.last() == o[o.len() - 1]); }
        // the list itself is not left
        if a[i].kind is Exit { if o.last() == t { assert(p == o.drop_last()); assert(p[k] == t && o[k] == t && o[o.len() - 1] == t && k < o.len() - 1); } }
        if o.len() >= 2 {
            let q = o[o.len() - 2] as int;
            assert(q < o.last());
            if q + 1 != t { assert(sec_level(a, q) == sec_level(b, q)); }
            assert(sec_level(a, q) == sec_level(b, q));
        }
        assert(is_sec(top(a, o)) == is_sec(top(b, o)) && is_list(top(a, o)) == is_list(top(b, o)) && docsec(top(a, o)) == docsec(top(b, o)));
        assert(i == t ==> a[t].kind is Enter);
        if i == t { assert(forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]) < t); }
        assert(step(a, i, o) == step(b, i, o));
    }
}
/// Atoms change nothing.
proof fn lemma_atoms(evs: Evs, a: int, n: int)
    requires
        0 <= a <= n <= evs.len() <= usize::MAX, stk(evs, a) is Some, forall|i: int| a <= i < n ==> (#[trigger] evs[i]).kind is Atom,
        match top(evs, stk(evs, a)->0) { Some(Node::Container(c)) => is_blk(c), _ => false }, !fresh(evs, stk(evs, a)->0, a), 
    ensures stk(evs, n) == stk(evs, a)
    decreases n - a
{
    if a < n {
        lemma_atoms(evs, a, n - 1);
        lemma_stk(evs, a);
        let o = stk(evs, a)->0;
        assert(o.last() == o[o.len() - 1]);
        assert(evs[n - 1].kind is Atom);
        assert(!fresh(evs, o, n - 1)) by { if n - 1 > a { assert(o.last() < a); } }
    }
}
/// A leaf that is no longer open has been left, after inline text only.
proof fn lemma_leaf_end(evs: Evs, i: int, m: int, n: int) -> (x: int)
    requires
        0 <= i < m <= n <= evs.len() <= usize::MAX, stk(evs, n) is Some, evs[i].kind matches EventKind::Enter(Node::Leaf(_)),
    ensures
        x == m && stk(evs, m) == Some(stk(evs, i)->0.push(i as usize)) && (forall|j: int| i < j < m ==> (#[trigger] evs[j]).kind is Inline || evs[j].kind is Stale)
        || i < x < m && evs[x].kind == EventKind::Exit(evs[i].kind->Enter_0) && (forall|j: int| i < j < x ==> (#[trigger] evs[j]).kind is Inline || evs[j].kind is Stale) && stk(evs, x + 1) == stk(evs, i) && stk(evs, x) == Some(stk(evs, i)->0.push(i as usize)),
    decreases m
{
    lemma_some(evs, m, n);
    lemma_some(evs, m - 1, n);
    lemma_some(evs, i, n);
    if m == i + 1 { m }
    else {
        let y = lemma_leaf_end(evs, i, m - 1, n);
        if y < m - 1 { y } else {
            let o = stk(evs, i)->0.push(i as usize);
            assert(o.last() == i);
            if evs[m - 1].kind is Exit { assert(o.drop_last() =~= stk(evs, i)->0); m - 1 } else { m }
        }
    }
}

/// The events of a description item: its first paragraph becomes the term in front of the item.
spec fn rotated(a: Evs, b: Evs, s: int, x: int, fd: int) -> bool {
    &&& a.len() == b.len() && 2 <= s && s + 1 < x < fd <= a.len()
    &&& a[s - 2].kind == EventKind::Enter(Node::Leaf(Leaf::DescriptionTerm)) && a[s - 1].kind == EventKind::Exit(Node::Leaf(Leaf::DescriptionTerm))
    &&& a[s].kind matches EventKind::Enter(Node::Container(Container::ListItem(k)))
    &&& a[s + 1].kind == EventKind::Enter(Node::Leaf(Leaf::Paragraph)) && a[x].kind == EventKind::Exit(Node::Leaf(Leaf::Paragraph))
    &&& forall|i: int| s + 1 < i < x ==> (#[trigger] a[i]).kind is Inline || a[i].kind is Stale
    &&& forall|i: int| x < i < fd ==> (#[trigger] a[i]).kind == EventKind::Atom(Atom::Blankline)
    &&& forall|i: int| 0 <= i < s - 2 || fd <= i < a.len() ==> (#[trigger] b[i]).kind == a[i].kind
    &&& b[s - 2].kind is Stale && b[s - 1].kind is Stale
    &&& b[s].kind == EventKind::Enter(Node::Leaf(Leaf::DescriptionTerm)) && b[x - 1].kind == EventKind::Exit(Node::Leaf(Leaf::DescriptionTerm))
    &&& forall|i: int| s < i < x - 1 || x <= i < fd - 1 ==> (#[trigger] b[i]).kind == a[i + 1].kind
    &&& b[fd - 1].kind == a[s].kind
}
proof fn lemma_rotated_head(a: Evs, b: Evs, s: int, x: int, fd: int, n: int, k: int)
    requires rotated(a, b, s, x, fd), fd <= n <= a.len() <= usize::MAX, stk(a, n) is Some, 0 <= k < stk(a, n)->0.len(), stk(a, n)->0[k] == s
    ensures stk(b, fd) == Some(stk(a, n)->0.take(k).push((fd - 1) as usize)), stk(a, fd) == Some(stk(a, n)->0.take(k).push(s as usize))
{
    let base = stk(a, n)->0.take(k);
    lemma_stk(a, n);
    lemma_open_at(a, n, k);
    assert(stk(a, s) == Some(base));
    lemma_some(a, s - 1, n); lemma_some(a, s - 2, n);
    let d = stk(a, s - 2)->0;
    assert(stk(a, s - 1) == Some(d.push((s - 2) as usize)));
    assert(d.push((s - 2) as usize).drop_last() =~= d);
    assert(stk(a, s) == Some(d));
    lemma_prefix(a, b, s - 2);
    lemma_stk(a, s - 2);
    assert(d.len() > 0 ==> d.last() == d[d.len() - 1]);
    assert(top(a, d) == top(b, d));
    assert(stk(b, s - 1) == Some(base)); assert(stk(b, s) == Some(base));
    // the list is around it
    lemma_some(a, s + 1, n);
    assert(stk(a, s + 1) == Some(base.push(s as usize)));
    assert(stk(b, s + 1) == Some(base.push(s as usize)));
    lemma_rot_inl(b, s, x - 1, base);
    assert(base.push(s as usize).drop_last() =~= base);
    assert(stk(b, x) == Some(base));
    lemma_rot_atoms(b, s, x, fd - 1, base);
    assert(stk(b, fd) == Some(base.push((fd - 1) as usize)));
    // and before
    let y = lemma_leaf_end(a, s + 1, fd, n);
    lemma_some(a, s + 2, n);
    if y == fd { assert(a[x].kind is Inline || a[x].kind is Stale); }
    else { if y < x { assert(a[y].kind is Inline || a[y].kind is Stale); } if x < y { assert(a[x].kind is Inline || a[x].kind is Stale); } }
    assert(stk(a, x + 1) == stk(a, s + 1));
    lemma_rot_atoms2(a, x + 1, fd, n);
}
proof fn lemma_rot_inl(b: Evs, s: int, m: int, base: Stk)
    requires 0 <= s < m <= b.len() <= usize::MAX, stk(b, s + 1) == Some(base.push(s as usize)), b[s].kind is Enter, b[s].kind->Enter_0 is Leaf, forall|i: int| s < i < m ==> (#[trigger] b[i]).kind is Inline || b[i].kind is Stale
    ensures stk(b, m) == stk(b, s + 1)
    decreases m
{ if m > s + 1 { lemma_rot_inl(b, s, m - 1, base); assert(base.push(s as usize).last() == s); } }
proof fn lemma_rot_atoms(b: Evs, s: int, x: int, m: int, base: Stk)
    requires 0 <= s < x <= m <= b.len() <= usize::MAX, stk(b, x) == Some(base), is_list(top(b, base)), base.len() > 0 && base.last() < s, forall|i: int| x <= i < m ==> (#[trigger] b[i]).kind == EventKind::Atom(Atom::Blankline)
    ensures stk(b, m) == Some(base)
    decreases m
{ if m > x { lemma_rot_atoms(b, s, x, m - 1, base); assert(b[m - 1].kind == EventKind::Atom(Atom::Blankline)); } }
proof fn lemma_rot_atoms2(a: Evs, x: int, m: int, n: int)
    requires 0 <= x <= m <= n <= a.len(), stk(a, n) is Some, forall|i: int| x <= i < m ==> (#[trigger] a[i]).kind is Atom
    ensures stk(a, m) == stk(a, x)
    decreases m
{ if m > x { lemma_rot_atoms2(a, x, m - 1, n); lemma_some(a, m, n); assert(a[m - 1].kind is Atom); } }
/// No node but the item was entered in the part that is moved and is still open.
proof fn lemma_rotated_open(a: Evs, b: Evs, s: int, x: int, fd: int, n: int, k: int)
    requires rotated(a, b, s, x, fd), fd <= n <= a.len() <= usize::MAX, stk(a, n) is Some, 0 <= k < stk(a, n)->0.len(), stk(a, n)->0[k] == s
    ensures forall|j: int| 0 <= j < stk(a, n)->0.len() && j != k ==> (#[trigger] stk(a, n)->0[j]) < s - 2 || stk(a, n)->0[j] >= fd
{
    lemma_rotated_head(a, b, s, x, fd, n, k);
    lemma_stk(a, n);
    let o = stk(a, n)->0;
    assert forall|j: int| 0 <= j < o.len() && j != k implies ((#[trigger] o[j]) < s - 2 || o[j] >= fd) by {
        let y = o[j] as int;
        if s - 2 <= y < fd {
            if j < k {
                assert(y < s); assert(a[y].kind is Enter); assert(y == s - 2);
                lemma_mid(a, s, n, j);
                lemma_open_at(a, n, k);
                lemma_some(a, s - 2, n); lemma_some(a, s - 1, n);
                lemma_stk(a, s - 2);
                assert(stk(a, s) == Some(stk(a, s - 2)->0)) by { assert(stk(a, s - 2)->0.push((s - 2) as usize).drop_last() =~= stk(a, s - 2)->0); }
                assert(stk(a, s)->0[j] == s - 2);
            } else {
                assert(o[k] < o[j]);
                lemma_mid(a, fd, n, j);
                assert(stk(a, fd)->0.len() == k + 1);
            }
        }
    }
}
proof fn lemma_rotated(a: Evs, b: Evs, s: int, x: int, fd: int, m: int, n: int, k: int)
    requires rotated(a, b, s, x, fd), fd <= m <= n <= a.len() <= usize::MAX, stk(a, n) is Some, 0 <= k < stk(a, n)->0.len(), stk(a, n)->0[k] == s
    ensures stk(a, m) is Some, k < stk(a, m)->0.len(), stk(b, m) == Some(stk(a, m)->0.update(k, (fd - 1) as usize))
    decreases m
{
    lemma_rotated_head(a, b, s, x, fd, n, k);
    lemma_stk(a, n);
    if m == fd { assert(stk(a, n)->0.take(k).push(s as usize).update(k, (fd - 1) as usize) =~= stk(a, n)->0.take(k).push((fd - 1) as usize)); }
    else {
        lemma_rotated(a, b, s, x, fd, m - 1, n, k);
        lemma_some(a, m, n);
        lemma_mid(a, m, n, k);
        lemma_mid(a, m - 1, n, k);
        let i = m - 1;
        let o = stk(a, i)->0;
        let p = o.update(k, (fd - 1) as usize);
        lemma_stk(a, i);
        assert(o[k] == s);
        assert forall|j: int| 0 <= j < o.len() && j != k implies ((#[trigger] o[j]) < s - 2 || o[j] >= fd) by {
            let y = o[j] as int;
            if s - 2 <= y < fd {
                if j < k {
                    assert(o.take(k + 1)[j] == o[j]); assert(stk(a, n)->0.take(k + 1)[j] == stk(a, n)->0[j]);
                    assert(y < s); assert(a[y].kind is Enter); assert(y == s - 2);
                    lemma_mid(a, s, n, j);
                    lemma_open_at(a, n, k);
                    lemma_some(a, s - 2, n); lemma_some(a, s - 1, n);
                    lemma_stk(a, s - 2);
                    assert(stk(a, s) == Some(stk(a, s - 2)->0)) by { assert(stk(a, s - 2)->0.push((s - 2) as usize).drop_last() =~= stk(a, s - 2)->0); }
                    assert(stk(a, s)->0[j] == s - 2);
                } else {
                    // nothing entered in the paragraph is open
                    assert(o[k] < o[j]);
                    lemma_mid(a, fd, i, j);
                    assert(stk(a, fd)->0.len() == k + 1);
                }
            }
        }
        assert(a[i].kind == b[i].kind);
        assert(top(a, o) == top(b, p)) by { if o.len() > 0 { let j = o.len() - 1; if j == k { assert(b[fd - 1].kind == a[s].kind); } else { assert(o[j] < s - 2 || o[j] >= fd); } } }
        assert(fresh(a, o, i) == fresh(b, p, i)) by { if o.last() == s || p.last() == fd - 1 { let j = o.len() - 1; assert(o[j] == o.last()); if j != k { assert(o[j] < s - 2 || o[j] >= fd); } } }
        if o.len() >= 2 {
            let j = o.len() - 2;
            let q = o[j] as int;
            assert(o[j] < o[j + 1]);
            if j != k {
                assert(p[j] == o[j]);
                assert(q < s - 2 || q >= fd);
                assert(b[q].kind == a[q].kind);
                if q + 1 == s - 2 { assert(sec_level(a, q) == -1); assert(sec_level(b, q) == -1); } else { assert(a[q + 1].kind == b[q + 1].kind); assert(sec_level(a, q) == sec_level(b, q)); }
            } else { assert(p[j] == fd - 1); assert(b[fd - 1].kind == a[s].kind); }
        }
        assert(enter_of(a[i]) == enter_of(b[i]));
        if a[i].kind is Enter {
            let nd = a[i].kind->Enter_0;
            assert(enter_ok(a, o, i, nd));
            assert(enter_ok(b, p, i, nd));
            assert(p.push(i as usize) =~= o.push(i as usize).update(k, (fd - 1) as usize));
        } else if a[i].kind is Exit {
            assert(o.last() != s) by { if o.last() == s { let j = o.len() - 1; assert(o[j] == s); if j != k { assert(o[j] < s - 2 || o[j] >= fd); } assert(stk(a, m)->0.len() == k); } }
            assert(p.drop_last() =~= o.drop_last().update(k, (fd - 1) as usize));
        }
    }
}
@end
@raw
impl<'s> TreeParser<'s> {
    spec fn n(&self) -> int { self.events@.len() as int }
    /// The events so far are the start of a tree, the open nodes are those on the stack.
    spec fn core(&self) -> bool {
        &&& valid_utf8(sb(self.src)) && sb(self.src).len() < 0x7fff_ffff && self.n() < usize::MAX
        &&& stk(self.events@, self.n()) == Some(self.open@)
        &&& forall|i: int| 0 <= i < self.n() ==> rng_ok(sb(self.src), (#[trigger] self.events@[i]).span)
    }
    spec fn top(&self) -> Option<Node<'s>> { top(self.events@, self.open@) }
    /// A list is the innermost open node.
    spec fn has_list(&self) -> bool { self.open_lists@.len() > 0 && self.open_lists@.last().depth == self.open@.len() }
    spec fn base(&self) -> int { self.open@.len() - (if self.has_list() { 1int } else { 0 }) }
    spec fn lbase(&self) -> int { self.open_lists@.len() - (if self.has_list() { 1int } else { 0 }) }
    /// The open list `l` is an open node.
    spec fn list_ok(&self, l: OpenList) -> bool {
        &&& 1 <= l.depth <= self.open@.len() && self.open@[l.depth - 1] == l.event && l.event + 1 < self.n()
        &&& ty_ok(l.ty_start) && ty_ok(l.ty_prev) && class(l.ty_start) == class(l.ty_prev)
        &&& self.events@[l.event as int].kind matches EventKind::Enter(Node::Container(Container::List { ty, .. })) && class(ty) == class(l.ty_start)
    }
    spec fn lists_ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.open_lists@.len() ==> self.list_ok(#[trigger] self.open_lists@[i])
        &&& forall|i: int, j: int| 0 <= i < j < self.open_lists@.len() ==> (#[trigger] self.open_lists@[i]).depth < (#[trigger] self.open_lists@[j]).depth
    }
    /// Between blocks: the innermost open node is a container of blocks, or the list that the next item may continue.
    spec fn inv(&self) -> bool {
        &&& self.core() && self.lists_ok()
        &&& match self.top() { Some(Node::Container(c)) => if self.has_list() { is_list(self.top()) } else { is_blk(c) }, _ => false }
        &&& !fresh(self.events@, self.open@, self.n())
    }
    spec fn same_but_events(&self, o: &Self) -> bool {
        &&& self.src == o.src && self.prev_blankline == o.prev_blankline && self.prev_loose == o.prev_loose && self.attr_start == o.attr_start
        &&& self.open_lists == o.open_lists && self.open_sections == o.open_sections && self.alignments == o.alignments
    }
    /// What was there before is still there, up to `m` open nodes and `lm` open lists.
    spec fn kept(&self, o: &Self, m: int, lm: int) -> bool {
        &&& self.src == o.src && self.open_sections@ == o.open_sections@
        &&& m <= self.open@.len() && m <= o.open@.len() && forall|i: int| 0 <= i < m ==> (#[trigger] self.open@[i]) == o.open@[i]
        &&& lm <= self.open_lists@.len() && lm <= o.open_lists@.len() && forall|i: int| 0 <= i < lm ==> (#[trigger] self.open_lists@[i]) == o.open_lists@[i]
        &&& o.n() <= self.n() && forall|i: int| 0 <= i < o.n() ==> same_kind(#[trigger] o.events@[i].kind, self.events@[i].kind)
    }
    spec fn based(&self, m: int, lm: int) -> bool { self.base() == m && self.lbase() == lm }
    /// Outside of all blocks but sections.
    spec fn outer(&self) -> bool { self.outer0() && self.attr_ok() }
    spec fn attr_ok(&self) -> bool { self.attr_start matches Some(a) ==> !self.has_list() && a < self.n() && forall|i: int| a <= i < self.n() ==> (#[trigger] self.events@[i]).kind is Atom }
    spec fn outer0(&self) -> bool {
        &&& self.base() == self.open_sections@.len() + 1 && self.lbase() == 0
        &&& secs_ok(self.events@, self.open@, self.open_sections@)
    }
}
/// The outermost open nodes are the document and sections of these levels, in increasing order.
spec fn secs_ok(e: Evs, o: Stk, s: Stk) -> bool {
    &&& o.len() > s.len() && o[0] == 0 && enter_of(e[o[0] as int]) == Some(Node::Container(Container::Document))
    &&& forall|k: int| 1 <= k <= s.len() ==> is_sec(enter_of(e[(#[trigger] o[k]) as int])) && sec_level(e, o[k] as int) == lev(s[k - 1] as int)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) < (#[trigger] s[j])
}
proof fn lemma_secs(e0: Evs, o0: Stk, s0: Stk, c: int, f: int, e: Evs, o: Stk, s: Stk, l: usize)
    requires
        secs_ok(e0, o0, s0), 0 <= f <= s0.len(), c <= e0.len(), c <= e.len(), forall|i: int| 0 <= i < c ==> (#[trigger] e0[i]).kind == e[i].kind,
        forall|k: int| 0 <= k <= f ==> (#[trigger] o0[k]) + 1 < c || k == 0 && o0[k] < c, o.len() == f + 2, forall|k: int| 0 <= k <= f ==> (#[trigger] o[k]) == o0[k],
        s == s0.take(f).push(l), f > 0 ==> s0[f - 1] < l, is_sec(enter_of(e[o[f + 1] as int])), sec_level(e, o[f + 1] as int) == lev(l as int),
    ensures secs_ok(e, o, s)
{
    assert(o[0] == o0[0]);
    assert(e0[o0[0] as int].kind == e[o[0] as int].kind);
    assert forall|k: int| 1 <= k <= s.len() implies is_sec(enter_of(e[(#[trigger] o[k]) as int])) && sec_level(e, o[k] as int) == lev(s[k - 1] as int) by {
        if k <= f { assert(o[k] == o0[k]); let p = o0[k] as int; assert(e0[p].kind == e[p].kind); assert(e0[p + 1].kind == e[p + 1].kind); }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]) < (#[trigger] s[j]) by { if j == f { assert(s[i] == s0[i]); if i < f - 1 { assert(s0[i] < s0[f - 1]); } } }
}
/// A vector has fewer than usize::MAX elements (assumed).
#[verifier::external_body]
proof fn axiom_len<T>(v: &Vec<T>) ensures v@.len() < usize::MAX {}
/// Exclusive borrows of parts of slices and vectors (assumed).
#[verifier::external_body]
fn v_mut<T>(s: &mut [T], a: usize, b: usize) -> (r: &mut [T])
    requires a <= b <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, b as int), final(r)@.len() == b - a, final(s)@ == old(s)@.subrange(0, a as int) + final(r)@ + old(s)@.subrange(b as int, old(s)@.len() as int)
{ &mut s[a..b] }
#[verifier::external_body]
fn v_mut_to<T>(s: &mut [T], b: usize) -> (r: &mut [T])
    requires b <= old(s)@.len()
    ensures r@ == old(s)@.subrange(0, b as int), final(r)@.len() == b, final(s)@ == final(r)@ + old(s)@.subrange(b as int, old(s)@.len() as int)
{ &mut s[..b] }
#[verifier::external_body]
fn v_mut_from<T>(s: &mut [T], a: usize) -> (r: &mut [T])
    requires a <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, old(s)@.len() as int), final(r)@.len() == old(s)@.len() - a, final(s)@ == old(s)@.subrange(0, a as int) + final(r)@
{ &mut s[a..] }
#[verifier::external_body]
fn v_vmut_from<T>(s: &mut Vec<T>, a: usize) -> (r: &mut [T])
    requires a <= old(s)@.len()
    ensures r@ == old(s)@.subrange(a as int, old(s)@.len() as int), final(r)@.len() == old(s)@.len() - a, final(s)@ == old(s)@.subrange(0, a as int) + final(r)@
{ &mut s[a..] }
#[verifier::external_body]
fn v_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures
        old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *(r->0) == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r->0)),
{ v.last_mut() }
fn v_first<T>(s: &[T]) -> (r: Option<&T>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r == Some(&s@[0])
{ if s.len() == 0 { None } else { Some(&s[0]) } }
fn v_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
fn v_rng_empty(r: &Sp) -> (b: bool) ensures b == (r.start >= r.end) { r.start >= r.end }
/// drain(a..) whose elements are dropped
fn v_drain_from<T>(v: &mut Vec<T>, a: usize)
    requires a <= old(v)@.len()
    ensures final(v)@ == old(v)@.take(a as int)
{ v.truncate(a); }
fn v_bsub<'a>(src: &'a str, r: Sp) -> (t: &'a [u8])
    requires rng_ok(sb(src), r)
    ensures t@ == part(sb(src), r)
{ v_str_slice(src, r.start, r.end).as_bytes() }
/// Iterator over a slice (stands for std::slice::Iter).
struct VIt<'a, T> { s: &'a [T], pos: usize }
impl<'a, T> VIt<'a, T> {
    spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).s == old(self).s,
            old(self).pos < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).s@.len() ==> r is None && final(self).pos == old(self).pos,
    {
        if self.pos < self.s.len() { let r = &self.s[self.pos]; self.pos = self.pos + 1; Some(r) } else { None }
    }
}
impl<'a, T> VIt<'a, T> {
    fn rev(self) -> (r: VIrev<'a, T>) requires self.pos == 0 ensures r.s == self.s, r.left == self.s@.len() { VIrev { s: self.s, left: self.s.len() } }
}
/// The same from the end on.
struct VIrev<'a, T> { s: &'a [T], left: usize }
impl<'a, T> VIrev<'a, T> {
    fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).left <= old(self).s@.len()
        ensures
            final(self).left <= final(self).s@.len(), final(self).s == old(self).s,
            old(self).left > 0 ==> r == Some(&old(self).s@[old(self).left - 1]) && final(self).left == old(self).left - 1,
            old(self).left == 0 ==> r is None && final(self).left == old(self).left,
    {
        if self.left > 0 { self.left = self.left - 1; let r = &self.s[self.left]; Some(r) } else { None }
    }
}
trait VSeq<T> {
    spec fn els(&self) -> Seq<T>;
    fn v_iter(&self) -> (r: VIt<'_, T>) ensures r.s@ == self.els(), r.pos == 0;
    /// iter_mut() of elements that are only looked at
    fn v_iter_mut(&self) -> (r: VIt<'_, T>) ensures r.s@ == self.els(), r.pos == 0;
    fn v_slice_from(&self, a: usize) -> (r: &[T]) requires a <= self.els().len() ensures r@ == self.els().subrange(a as int, self.els().len() as int);
    fn v_slice_to(&self, b: usize) -> (r: &[T]) requires b <= self.els().len() ensures r@ == self.els().subrange(0, b as int);
}
impl<T> VSeq<T> for [T] {
    spec fn els(&self) -> Seq<T> { self@ }
    fn v_iter(&self) -> VIt<'_, T> { VIt { s: self, pos: 0 } }
    fn v_iter_mut(&self) -> VIt<'_, T> { VIt { s: self, pos: 0 } }
    #[verifier::external_body]
    fn v_slice_from(&self, a: usize) -> &[T] { &self[a..] }
    #[verifier::external_body]
    fn v_slice_to(&self, b: usize) -> &[T] { &self[..b] }
}
impl<T> VSeq<T> for Vec<T> {
    spec fn els(&self) -> Seq<T> { self@ }
    fn v_iter(&self) -> VIt<'_, T> { VIt { s: self.as_slice(), pos: 0 } }
    fn v_iter_mut(&self) -> VIt<'_, T> { VIt { s: self.as_slice(), pos: 0 } }
    #[verifier::external_body]
    fn v_slice_from(&self, a: usize) -> &[T] { &self[a..] }
    #[verifier::external_body]
    fn v_slice_to(&self, b: usize) -> &[T] { &self[..b] }
}
/// A part of the source and where it starts: a pointer into the source is its offset (assumed).
#[derive(Clone, Copy)]
struct VSub<'a> { s: &'a str, off: usize }
/// Boundaries of a part of the source.
spec fn bnds(b: Bs, r: Sp) -> bool { forall|i: int| #[trigger] bnd(part(b, r), i) ==> bnd(b, r.start + i) }
fn v_sub<'a>(src: &'a str, r: Sp) -> (t: &'a str)
    requires rng_ok(sb(src), r)
    ensures sb(t) == part(sb(src), r), valid_utf8(sb(t)), bnds(sb(src), r)
{
    let t = v_str_slice(src, r.start, r.end);
    proof { lemma_valid(t); lemma_valid(src); assert forall|i: int| #[trigger] bnd(part(sb(src), r), i) implies bnd(sb(src), r.start + i) by { lemma_part(sb(src), r, i); } }
    t
}
fn v_psub<'a>(src: &'a str, r: Sp) -> (t: VSub<'a>)
    requires rng_ok(sb(src), r)
    ensures sb(t.s) == part(sb(src), r), t.off == r.start, valid_utf8(sb(t.s)), bnds(sb(src), r)
{ VSub { s: v_sub(src, r.clone()), off: r.start } }
impl<'a> VSub<'a> {
    fn v_trim_start_matches<F: Fn(char) -> bool>(self, f: F) -> (r: VSub<'a>)
        requires forall|c: char| call_requires(f, (c,)), is_cws(f), self.off + sb(self.s).len() <= usize::MAX
        ensures ({ let k = lead_ws(sb(self.s), 0); 0 <= k <= sb(self.s).len() && r.off == self.off + k && sb(r.s) == sb(self.s).subrange(k, sb(self.s).len() as int) && bnd(sb(self.s), k) })
    {
        let t = self.s.v_trim_start_matches(f);
        let k = self.s.v_len() - t.v_len();
        VSub { s: t, off: self.off + k }
    }
    fn v_trim_end_matches<F: Fn(char) -> bool>(self, f: F) -> (r: VSub<'a>)
        requires forall|c: char| call_requires(f, (c,)), is_cws(f)
        ensures ({ let k = sb(r.s).len() as int; k == tail(sb(self.s), sb(self.s).len() as int) && 0 <= k <= sb(self.s).len() && r.off == self.off && sb(r.s) == sb(self.s).subrange(0, k) && bnd(sb(self.s), k) })
    {
        let t = self.s.v_trim_end_matches(f);
        proof {
            let b = sb(self.s);
            let k = sb(t).len() as int;
            assert forall|x: int| k <= x < b.len() implies ascii_ws(#[trigger] b[x]) by {
                assert forall|c: char| (c as u32) >= 128 implies !call_ensures(f, (c,), true) by {}
                assert(b[x] < 128);
                assert(call_ensures(f, (b[x] as char,), true));
            }
            if k > 0 && b[k - 1] < 128 { assert(call_ensures(f, (b[k - 1] as char,), false)); }
            lemma_tail(b, b.len() as int, k);
        }
        VSub { s: t, off: self.off }
    }
    /// (of nothing but white space, the trimmed text is at the start)
    fn v_trim_matches<F: Fn(char) -> bool>(self, f: F) -> (r: VSub<'a>)
        requires forall|c: char| call_requires(f, (c,)), is_cws(f), self.off + sb(self.s).len() <= usize::MAX
        ensures
            sb(r.s) == trim(sb(self.s)), blank(sb(self.s)) == (sb(r.s).len() == 0), r.off == self.off + (if blank(sb(self.s)) { 0 } else { lead_ws(sb(self.s), 0) }),
            0 <= lead_ws(sb(self.s), 0) <= sb(self.s).len(),
    {
        let a = self.s.v_trim_start_matches(&f);
        let t = self.s.v_trim_matches(&f);
        let k = self.s.v_len() - a.v_len();
        if t.v_len() == 0 { VSub { s: t, off: self.off } } else { VSub { s: t, off: self.off + k } }
    }
}
@end
@fn TreeParser::new
    ret r
    req
        sb(src).len() < 0x7fff_ffff,
    ens
        r.src == src, r.core(), r.n() == 0, r.open_lists@.len() == 0, r.open_sections@.len() == 0, r.attr_start is None, r.open@.len() == 0,
    at start
        proof { lemma_valid(src); }
@end
@fn TreeParser::inline
    req
        old(self).core(), rng_ok(sb(old(self).src), span), old(self).top() matches Some(Node::Leaf(_)),
    ens
        final(self).core(), final(self).same_but_events(old(self)), final(self).open == old(self).open,
        final(self).events@ == old(self).events@.push(Event { kind: EventKind::Inline, span }),
    at end
        proof { axiom_len(&self.events); lemma_prefix(old(self).events@, self.events@, old(self).n()); lemma_stk(old(self).events@, old(self).n()); lemma_top(old(self).events@, self.events@, self.open@); }
@end
@raw
proof fn lemma_top(a: Evs, b: Evs, o: Stk)
    requires o.len() > 0 ==> o.last() < a.len() && o.last() < b.len() && a[o.last() as int].kind == b[o.last() as int].kind
    ensures top(a, o) == top(b, o)
{}
/// Adding an event.
proof fn lemma_push(a: Evs, e: Event)
    requires a.len() < usize::MAX, stk(a, a.len() as int) is Some
    ensures
        stk(a.push(e), a.len() as int) == stk(a, a.len() as int),
        stk(a.push(e), a.len() as int + 1) == step(a.push(e), a.len() as int, stk(a, a.len() as int)->0),
        ({ let o = stk(a, a.len() as int)->0; let i = a.len() as int; top(a.push(e), o) == top(a, o) && fresh(a.push(e), o, i) == fresh(a, o, i)
            && (forall|k: int| 0 <= k < o.len() ==> enter_of(a.push(e)[(#[trigger] o[k]) as int]) == enter_of(a[o[k] as int]))
            && forall|n: Node| #[trigger] enter_ok(a.push(e), o, i, n) == enter_ok(a, o, i, n) }),
{
    let b = a.push(e);
    let i = a.len() as int;
    let o = stk(a, i)->0;
    lemma_prefix(a, b, i);
    lemma_stk(a, i);
    lemma_top(a, b, o);
    if o.len() > 0 { assert(o.last() == o[o.len() - 1]); }
    if o.len() >= 2 { let q = o[o.len() - 2] as int; assert(q < o[o.len() - 1]); assert(a[q] == b[q]); assert(sec_level(a, q) == sec_level(b, q)); }
    assert forall|n: Node| #[trigger] enter_ok(b, o, i, n) == enter_ok(a, o, i, n) by {}
}
@end
@fn TreeParser::enter
    ret r
    req
        old(self).core(), rng_ok(sb(old(self).src), span), enter_ok(old(self).events@, old(self).open@, old(self).n(), node),
    ens
        final(self).core(), final(self).same_but_events(old(self)), final(self).open@ == old(self).open@.push(old(self).n() as usize), r == old(self).n(),
        final(self).events@ == old(self).events@.push(Event { kind: EventKind::Enter(node), span }), final(self).top() == Some(node),
    at end
        proof { axiom_len(&self.events); lemma_push(old(self).events@, self.events@.last()); assert(self.events@.last() == self.events@[i as int]); }
@end
@fn TreeParser::exit
    ret r
    req
        old(self).core(), rng_ok(sb(old(self).src), span), old(self).open@.len() > 0, !fresh(old(self).events@, old(self).open@, old(self).n()),
    ens
        final(self).core(), final(self).same_but_events(old(self)), final(self).open@ == old(self).open@.drop_last(), r == old(self).n(),
        old(self).top() is Some, final(self).events@ == old(self).events@.push(Event { kind: EventKind::Exit(old(self).top()->0), span }),
    at start
        proof { lemma_stk(self.events@, self.n()); assert(self.open@.last() == self.open@[self.open@.len() - 1]); }
    at end
        proof { axiom_len(&self.events); lemma_push(old(self).events@, self.events@.last()); assert(self.events@.last() == self.events@[i as int]); }
@end
@fn TreeParser::trim_start
    ret r
    opt src_psub m_trim_start_matches
    subst /s.as_ptr() as usize + s.len() - self.src.as_ptr() as usize/s.off + s.s.v_len()/
    subst /s.as_ptr() as usize - self.src.as_ptr() as usize/s.off/
    closure 0 |c: char| -> (r: bool) ensures r == cws(c)
    req
        rng_ok(sb(self.src), sp), sb(self.src).len() < 0x7fff_ffff,
    ens
        rng_ok(sb(self.src), r), inside(r, sp), r.end == sp.end, r.start == sp.start + lead_ws(part(sb(self.src), sp), 0),
    at end
        proof { assert(bnd(part(sb(self.src), sp), s.off - sp.start)); }
@end
@fn TreeParser::trim_end
    ret r
    opt src_psub m_trim_end_matches
    subst /s.as_ptr() as usize + s.len() - self.src.as_ptr() as usize/s.off + s.s.v_len()/
    subst /s.as_ptr() as usize - self.src.as_ptr() as usize/s.off/
    closure 0 |c: char| -> (r: bool) ensures r == cws(c)
    req
        rng_ok(sb(self.src), sp), sb(self.src).len() < 0x7fff_ffff,
    ens
        rng_ok(sb(self.src), r), inside(r, sp), r.start == sp.start, r.end == sp.start + tail(part(sb(self.src), sp), sp.end - sp.start),
    at end
        proof { assert(bnd(part(sb(self.src), sp), sb(s.s).len() as int)); }
@end
@raw
/// Trimmed at the start and then at the end.
proof fn lemma_part_trim(b: Bs, sp: Sp)
    requires rng_ok(b, sp)
    ensures ({
        let k = lead_ws(part(b, sp), 0);
        let r = ((sp.start + k) as usize)..sp.end;
        let e = tail(part(b, r), r.end - r.start);
        0 <= k <= sp.end - sp.start && 0 <= e <= r.end - r.start && b.subrange(r.start as int, r.start + e) == trim(part(b, sp))
    })
{
    let p = part(b, sp);
    lemma_lead_ws_in(p, 0);
    let k = lead_ws(p, 0);
    let r = ((sp.start + k) as usize)..sp.end;
    let q = part(b, r);
    assert(q =~= p.subrange(k, p.len() as int));
    lemma_tail_in(q, q.len() as int);
    let e = tail(q, q.len() as int);
    if k < p.len() { assert(q[0] == p[k]); assert(e > 0) by { if e == 0 { assert(ascii_ws(q[0])); } } }
    assert forall|x: int| k + e <= x < p.len() implies ascii_ws(#[trigger] p[x]) by { assert(q[x - k] == p[x]); }
    if e > 0 { assert(q[e - 1] == p[k + e - 1]); }
    lemma_trim(p, k, k + e);
    assert(b.subrange(r.start as int, r.start + e) =~= p.subrange(k, k + e));
}
@end
@fn TreeParser::trim
    ret r
    req
        rng_ok(sb(self.src), sp), sb(self.src).len() < 0x7fff_ffff,
    ens
        rng_ok(sb(self.src), r), inside(r, sp), part(sb(self.src), r) == trim(part(sb(self.src), sp)),
    at start
        proof { lemma_part_trim(sb(self.src), sp); }
@end
@fn TreeParser::close_list
    req
        old(self).core(), bnd(sb(old(self).src), pos as int), old(self).list_ok(*list), list.depth == old(self).open@.len(),
        !fresh(old(self).events@, old(self).open@, old(self).n()),
    ens
        final(self).core(), final(self).open@ == old(self).open@.drop_last(), final(self).n() == old(self).n() + 1,
        final(self).src == old(self).src, final(self).prev_blankline == old(self).prev_blankline, final(self).prev_loose == old(self).prev_loose, final(self).attr_start == old(self).attr_start,
        final(self).open_lists == old(self).open_lists, final(self).open_sections == old(self).open_sections, final(self).alignments == old(self).alignments,
        forall|i: int| 0 <= i < old(self).n() ==> same_kind(#[trigger] old(self).events@[i].kind, final(self).events@[i].kind) && old(self).events@[i].span == final(self).events@[i].span && (i != list.event ==> old(self).events@[i].kind == final(self).events@[i].kind),
        final(self).events@.last().kind is Exit,
    at call exit before
        proof {
            let a = old(self).events@;
            lemma_stk(a, old(self).n());
            lemma_retype(a, self.events@, old(self).n(), list.event as int, list.depth - 1);
        }
@end
@raw
/// A stretch of ASCII text from a boundary on ends at a boundary.
proof fn lemma_ascii_run(b: Bs, r: Sp, k: int)
    requires valid_utf8(b), rng_ok(b, r), 0 <= k <= r.end - r.start, forall|i: int| 0 <= i < k ==> #[trigger] part(b, r)[i] < 128
    ensures bnd(b, r.start + k)
{ if k > 0 { assert(part(b, r)[k - 1] < 128); lemma_ascii_boundary(b, r.start + k - 1); } }
/// Nothing but leaving sections happens from `c` on, in front of the attributes that follow.
spec fn closing(e0: Evs, e: Evs, c: int, i: int) -> bool {
    &&& e.len() == e0.len() + i && 0 <= c <= e0.len()
    &&& forall|k: int| 0 <= k < c ==> (#[trigger] e[k]) == e0[k]
    &&& forall|k: int| c + i <= k < e.len() ==> (#[trigger] e[k]) == e0[k - i]
}
/// Atoms changed nothing.
proof fn lemma_attrs(e: Evs, n: int, c: int)
    requires 0 <= c <= n <= e.len() <= usize::MAX, stk(e, n) is Some, forall|i: int| c <= i < n ==> (#[trigger] e[i]).kind is Atom
    ensures stk(e, c) == stk(e, n), c < n ==> !fresh(e, stk(e, n)->0, c)
    decreases n - c
{
    if c < n {
        lemma_some(e, c + 1, n);
        lemma_some(e, c, n);
        assert(e[c].kind is Atom);
        lemma_attrs(e, n, c + 1);
    }
}
proof fn lemma_closing(e0: Evs, e: Evs, e2: Evs, c: int, i: int, o: Stk, x: Event)
    requires
        0 <= i, closing(e0, e, c, i), e.len() < usize::MAX, stk(e, c + i) == Some(o), e2 == e.insert(c + i, x), top(e, o) is Some, x.kind == EventKind::Exit(top(e, o)->0), !fresh(e, o, c + i),
    ensures closing(e0, e2, c, i + 1), stk(e2, c + i + 1) == Some(o.drop_last())
{
    lemma_stk(e, c + i);
    assert(o.last() == o[o.len() - 1]);
    lemma_prefix(e, e2, c + i);
    lemma_top(e, e2, o);
    assert(step(e2, c + i, o) == Some(o.drop_last()));
}
/// A heading in a section of its own.
proof fn lemma_section<'s>(o: &TreeParser<'s>, s: &TreeParser<'s>, l: &TreeParser<'s>, z: &TreeParser<'s>, level: u16, c: int, f: int)
    requires
        o.outer0(), o.core(), !o.has_list(), z.core(), z.open@ == s.open@, z.open_lists == o.open_lists, l.n() == s.n() + 1, z.n() > s.n(), z.open_sections == s.open_sections,
        0 <= f <= o.open_sections@.len(), s.open@.len() == f + 2, s.open@[f + 1] == s.n() - 1, s.open_sections@.len() == f + 1, s.open_sections@ == o.open_sections@.take(f).push(s.open_sections@.last()),
        f > 0 ==> o.open_sections@[f - 1] < s.open_sections@.last(), level == lev(s.open_sections@.last() as int), is_sec(enter_of(s.events@[s.n() - 1])),
        l.events@[s.n()].kind matches EventKind::Enter(Node::Leaf(Leaf::Heading { level: v, .. })) && v == level,
        z.events@[s.n()].kind == l.events@[s.n()].kind,
        c <= o.n() && c < s.n() && forall|i: int| 0 <= i < c ==> (#[trigger] o.events@[i]).kind == s.events@[i].kind,
        forall|i: int| 0 <= i < s.n() ==> (#[trigger] s.events@[i]).kind == z.events@[i].kind,
        forall|k: int| 0 <= k <= f ==> (#[trigger] o.open@[k]) == s.open@[k] && (o.open@[k] + 1 < c || k == 0 && o.open@[k] < c),
    ensures z.outer0(), z.inv()
{
    let i = s.n() - 1;
    assert(s.events@[i].kind == z.events@[i].kind);
    assert(enter_of(z.events@[i]) == enter_of(s.events@[i]));
    assert(sec_level(z.events@, i) == level);
    assert forall|i: int| 0 <= i < c implies (#[trigger] o.events@[i]).kind == z.events@[i].kind by { assert(o.events@[i].kind == s.events@[i].kind); assert(s.events@[i].kind == z.events@[i].kind); }
    lemma_secs(o.events@, o.open@, o.open_sections@, c, f, z.events@, z.open@, z.open_sections@, z.open_sections@.last());
    assert(z.open@.last() == z.open@[f + 1]);
}
@end
@fn TreeParser::parse_leaf
    opt src_sub slice m_iter iter_count iter_rposition iter_for_each fn_min fn_first eq matches m_starts_with bool_ops
    subst /std::ops::Range::is_empty(/v_rng_empty(/
    subst /!l.is_empty()/!v_rng_empty(*l)/
    subst /self.open_sections.drain(first_close..)/v_drain_from(&mut self.open_sections, first_close)/
    subst /l < level/*l < *level/
    subst /spec.v_starts_with(/v_starts_with(*spec, /
    attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
    case section leaf is Heading && leaf->has_section
    case block !(leaf is Heading && leaf->has_section)
    req
        old(self).inv(), !old(self).has_list(), lines_ok(sb(old(self).src), old(lines)@), rng_ok(sb(old(self).src), span_start), rng_ok(sb(old(self).src), span_end),
        match leaf {
            Leaf::Paragraph | Leaf::LinkDefinition { .. } | Leaf::CodeBlock { .. } => !(sk(*k) is Heading),
            Leaf::Heading { level, has_section, pos } => pos == span_start.start as u32 && has_section == docsec(old(self).top()) && (has_section ==> old(self).outer()) && (*k matches Kind::Heading { level: l, .. } && level == lev(l as int)),
            _ => false,
        },
    ens
        final(self).inv(), !final(self).has_list(), final(self).src == old(self).src, final(self).open_lists == old(self).open_lists,
        leaf is Heading && leaf->has_section ==> final(self).outer0(),
        !(leaf is Heading && leaf->has_section) ==> final(self).same_but_events(old(self)) && final(self).open@ == old(self).open@ && old(self).n() + 2 <= final(self).n()
            && forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] old(self).events@[i]).kind == final(self).events@[i].kind,
    loop 0
        invariant
            lines_ok(sb(self.src), lines@), *self == *old(self), self.core(), __n0 <= lines@.len(),
        decreases lines@.len() - __n0,
    loop 1
        invariant_except_break
            __it1.pos == __n1,
        invariant
            __it1.wf(), __n1 <= __it1.s@.len(), __it1.s@ == part(sb(self.src), *line), forall|i: int| 0 <= i < __n1 ==> #[trigger] __it1.s@[i] < 128,
        decreases __it1.s@.len() - __it1.pos,
    loop 2
        invariant
            lines_ok(sb(self.src), lines@), *self == *old(self), self.core(), __n2 <= lines@.len(),
        decreases lines@.len() - __n2,
    loop 3
        invariant
            lines_ok(sb(self.src), lines@), *self == *old(self), self.core(), __n3 <= lines@.len(),
        decreases lines@.len() - __n3,
    loop 4
        invariant_except_break
            __r4 is None,
        invariant
            __n4 <= self.open_sections@.len(), __r4 matches Some(x) ==> x < self.open_sections@.len() && self.open_sections@[x as int] < *level,
        decreases __n4,
    loop 5
        invariant
            __x5 <= __e5, __e5 == old(self).open_sections@.len() - first_close, first_close <= old(self).open_sections@.len(),
            old(self).inv(), !old(self).has_list(), old(self).outer(), rng_ok(sb(old(self).src), span_start),
            self.same_but_events(old(self)), self.open@ == old(self).open@.take(old(self).open@.len() - __x5),
            c0 == (match old(self).attr_start { Some(a) => a as int, None => old(self).n() }), closing(old(self).events@, self.events@, c0, __x5 as int),
            stk(self.events@, c0 + __x5) == Some(self.open@), self.n() < usize::MAX,
            forall|i: int| 0 <= i < self.n() ==> rng_ok(sb(self.src), (#[trigger] self.events@[i]).span),
        decreases __e5 - __x5,
    loop 6
        invariant
            self.core(), __it6.wf(), lines_ok(sb(self.src), __it6.s@), self.same_but_events(&l0), self.open == l0.open, l0.n() <= self.n(), self.top() matches Some(Node::Leaf(_)),
            forall|i: int| 0 <= i < l0.n() ==> (#[trigger] l0.events@[i]).kind == self.events@[i].kind,
        decreases __it6.s@.len() - __it6.pos,
    at loop 0 start
        let ghost l0 = *line;
    at loop 0 end
        proof { lemma_ascii_run(sb(self.src), l0, line.start - l0.start); }
    at start
        let ghost mut c9 = 0int;
        let ghost mut f9 = 0int;
    at loop 5 before
        let ghost c0 = (match self.attr_start { Some(a) => a as int, None => self.n() });
        proof {
            lemma_attrs(self.events@, self.n(), c0);
            assert(self.open@.take(self.open@.len() as int) =~= self.open@);
        }
    at loop 5 start
        let ghost e1 = self.events@;
        proof {
            let p = self.open@.last() as int;
            assert(self.open@.last() == old(self).open@[old(self).open@.len() - __x5]);
            lemma_stk(old(self).events@, old(self).n());
            assert(is_sec(enter_of(old(self).events@[p])) && sec_level(old(self).events@, p) >= 0);
            assert(p + 1 < c0);
            assert(e1[p] == old(self).events@[p]);
        }
    at loop 5 end
        proof {
            lemma_closing(old(self).events@, e1, self.events@, c0, __x5 - 1, old(self).open@.take(old(self).open@.len() - (__x5 - 1)), self.events@[c0 + __x5 - 1]);
            axiom_len(&self.events);
        }
    at call enter 0 before
        let ghost f = first_close as int;
        proof { f9 = f; c9 = c0; }
        proof {
            let e0 = old(self).events@;
            let o0 = old(self).open@;
            lemma_stk(e0, old(self).n());
            lemma_stk(self.events@, c0 + (o0.len() - 1 - f));
            assert(self.open@.len() == f + 1);
            assert forall|k: int| 0 <= k <= f implies (#[trigger] self.open@[k]) == o0[k] && self.events@[o0[k] as int] == e0[o0[k] as int] && o0[k] < c0 && (k > 0 ==> o0[k] + 1 < c0 && sec_level(self.events@, o0[k] as int) == lev(old(self).open_sections@[k - 1] as int)) by {
                let p = o0[k] as int;
                assert(p < c0);
                if k > 0 { assert(is_sec(enter_of(e0[p])) && sec_level(e0, p) >= 0); assert(p + 1 < c0); assert(self.events@[p + 1] == e0[p + 1]); }
            }
            assert(self.open@.last() == self.open@[f]);
            lemma_atoms(self.events@, c0 + (o0.len() - 1 - f), self.n());
        }
    at call enter 0 after
        proof {
            assert(self.open@.last() == self.open@[f + 1]);
        }
    at call enter 1 before
        let ghost s1 = *self;
    at call enter 1 after
        let ghost l0 = *self;
    at end
        proof {
            lemma_stk(s1.events@, s1.n());
            assert(self.open@ =~= s1.open@);
            assert forall|i: int| 0 <= i < s1.n() implies (#[trigger] s1.events@[i]).kind == self.events@[i].kind by { assert(l0.events@[i] == s1.events@[i]); }
            assert(self.open@.last() == self.open@[self.open@.len() - 1]);
            if leaf is Heading && leaf->has_section { lemma_section(old(self), &s1, &l0, self, leaf->level, c9, f9); } else {
                assert(s1 == *old(self));
                assert forall|i: int| 0 <= i < self.open_lists@.len() implies self.list_ok(#[trigger] self.open_lists@[i]) by { assert(s1.list_ok(s1.open_lists@[i])); }
            }
        }
@end
@raw
// ---- the lines of a block
#[verifier::external_body]
fn v_lines_of<'s>(src: &'s str, lines: &[Sp]) -> (r: VLines<'s>)
    requires lines_ok(sb(src), lines@)
    ensures r.rest().len() == lines@.len(), forall|i: int| 0 <= i < lines@.len() ==> sb(#[trigger] r.rest()[i]) == part(sb(src), lines@[i])
{ unimplemented!() }
#[verifier::external_body]
fn v_text_eq(a: &str, b: &str) -> (r: bool) ensures r == (sb(a) == sb(b)) { a == b }
/// Whether the first character is one for which `f` holds.
fn v_starts_f<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| call_requires(f, (c,)), is_cws(f)
    ensures r == (sb(s).len() > 0 && ascii_ws(sb(s)[0]))
{
    let t = s.v_trim_start_matches(f);
    proof { lemma_lead_ws_in(sb(s), 0); }
    t.v_len() < s.v_len()
}
fn v_rng_len(r: &Sp) -> (n: usize) requires r.start <= r.end ensures n == r.end - r.start { r.end - r.start }
proof fn lemma_lead_in(b: Bs, i: int)
    requires 0 <= i <= b.len()
    ensures
        i <= lead(b, i) <= b.len(), forall|x: int| i <= x < lead(b, i) ==> ascii_ws(#[trigger] b[x]) && b[x] != 10,
        lead(b, i) < b.len() ==> !(ascii_ws(b[lead(b, i)]) && b[lead(b, i)] != 10),
    decreases b.len() - i
{ if i < b.len() && ascii_ws(b[i]) && b[i] != 10 { lemma_lead_in(b, i + 1); } }
proof fn lemma_lead_ws_in(b: Bs, i: int)
    requires 0 <= i <= b.len()
    ensures
        i <= lead_ws(b, i) <= b.len(), forall|x: int| i <= x < lead_ws(b, i) ==> ascii_ws(#[trigger] b[x]),
        lead_ws(b, i) < b.len() ==> !ascii_ws(b[lead_ws(b, i)]),
    decreases b.len() - i
{ if i < b.len() && ascii_ws(b[i]) { lemma_lead_ws_in(b, i + 1); } }
proof fn lemma_run_in(b: Bs, c: u8, i: int)
    requires 0 <= i <= b.len()
    ensures i <= run(b, c, i) <= b.len(), forall|x: int| i <= x < run(b, c, i) ==> #[trigger] b[x] == c, run(b, c, i) < b.len() ==> b[run(b, c, i)] != c
    decreases b.len() - i
{ if i < b.len() && b[i] == c { lemma_run_in(b, c, i + 1); } }
proof fn lemma_find_in(b: Bs, c: u8, i: int)
    requires 0 <= i <= b.len()
    ensures i <= find(b, c, i) <= b.len(), find(b, c, i) < b.len() ==> b[find(b, c, i)] == c
    decreases b.len() - i
{ if i < b.len() && b[i] != c { lemma_find_in(b, c, i + 1); } }
proof fn lemma_num_run_in(n: OrderedListNumbering, b: Bs, i: int, lim: int)
    requires 0 <= i
    ensures i <= num_run(n, b, i, lim)
    decreases b.len() - i
{ if i < b.len() && i < lim && num_char(n, b[i]) { lemma_num_run_in(n, b, i + 1, lim); } }
proof fn lemma_tail_in(b: Bs, e: int)
    requires 0 <= e <= b.len()
    ensures 0 <= tail(b, e) <= e, tail(b, e) > 0 ==> !ascii_ws(b[tail(b, e) - 1]), forall|x: int| tail(b, e) <= x < e ==> ascii_ws(#[trigger] b[x])
    decreases e
{ if 0 < e && ascii_ws(b[e - 1]) { lemma_tail_in(b, e - 1); } }
/// What a block's first line says.
spec fn id_ok(b: Bs, s: SK, a: int, e: int) -> bool {
    &&& 0 <= a <= e <= b.len() && bnd(b, a) && bnd(b, e)
    &&& match s {
        SK::Quote | SK::Def { .. } => e >= 1,
        SK::Item { ty, .. } => e >= 1 && (ty is Task ==> a + 5 == e),
        SK::Fence { closed, .. } => e >= 1 && !closed,
        SK::Table { caption, blank } => !caption && !blank && ({ let t = b.subrange(e, b.len() as int); row_shape(trim(t)) && !s_caption(trim(t)) && t.len() > 0 && t[0] == 124 }),
        _ => true,
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
proof fn lemma_ident(b: Bs)
    requires valid_utf8(b)
    ensures ({ let (s, a, e) = ident(b); id_ok(b, s, a, e) })
{
    is_char_boundary_start_end_of_seq(b);
    let k = lead(b, 0);
    lemma_lead_in(b, 0);
    if k > 0 { assert(ascii_ws(b[k - 1])); lemma_ascii_boundary(b, k - 1); }
    if k < b.len() {
        let t = b.subrange(k, b.len() as int);
        let n = t.len() as int;
        let lt = tail(t, n);
        lemma_tail_in(t, n);
        let c = t[0];
        assert forall|x: int| 0 <= x < n implies #[trigger] t[x] == b[k + x] by {}
        assert forall|i: int| 0 <= i < n && #[trigger] t[i] < 128 implies bnd(b, k + i + 1) by { lemma_ascii_boundary(b, k + i); }
        lemma_run_in(t, 35, 0);
        lemma_find_in(t, 93, 1);
        if ident_t(t, k) is Some {
            if c == 10 { assert(t[0] < 128); }
            else if c == 35 { let l = run(t, 35, 0); if ends(t, l) { if l > 0 { assert(t[l - 1] == 35); } } }
            else if c == 62 { if ends(t, 1) { assert(t[0] < 128); } }
            else if c == 123 {}
            else if c == 124 {
                if table_row(t.subrange(0, lt)) {
                    lemma_lead_ws(t, 0, 0);
                    assert(trim(t) == t.subrange(0, lt));
                    assert(t.subrange(0, lt)[0] == 124);
                }
            }
            else if c == 91 { let l = find(t, 93, 1); if l + 1 < n && t[l + 1] == 58 { assert(t[l + 1] < 128); } }
            else if (c == 45 || c == 42) && s_break(t) { if lt > 0 { assert(t[lt - 1] < 128); } }
            else if c == 45 || c == 42 || c == 43 { assert(t[0] < 128); if n >= 5 && t[4] == 93 { assert(t[4] < 128); } }
            else if c == 58 && ends(t, 1) { assert(t[0] < 128); }
            else if c == 96 || c == 58 || c == 126 {}
            else {
                let p = if t[0] == 40 { 1int } else { 0 };
                if p < n && num_class(t[p]) is Some {
                    let m = num_class(t[p])->0;
                    let e = num_run(m, t, p + 1, p + num_max(m));
                    lemma_num_run_in(m, t, p + 1, p + num_max(m));
                    if e < n { assert(t[e] < 128 || !(t[e] == 41 || t[e] == 46)); }
                }
            }
        }
    }
}
spec fn same_block(a: SK, b: SK) -> bool {
    match (a, b) {
        (SK::Blank, SK::Blank) | (SK::Attrs, SK::Attrs) | (SK::Break, SK::Break) | (SK::Para, SK::Para) | (SK::Quote, SK::Quote) | (SK::Table { .. }, SK::Table { .. }) => true,
        (SK::Heading(l), SK::Heading(m)) => l == m,
        (SK::Fence { indent, len, kind, spec_, .. }, SK::Fence { indent: i, len: l, kind: k, spec_: s, .. }) => indent == i && len == l && kind == k && spec_ == s,
        (SK::Def { indent, foot, label, .. }, SK::Def { indent: i, foot: f, label: l, .. }) => indent == i && foot == f && label == l,
        (SK::Item { indent, ty, .. }, SK::Item { indent: i, ty: t, .. }) => indent == i && ty == t,
        _ => false,
    }
}
spec fn closed(s: SK) -> bool { s matches SK::Fence { closed, .. } && closed }
spec fn captioned(s: SK) -> bool { s matches SK::Table { caption, .. } && caption }
/// What holds of the lines after a block's first, before a caption.
spec fn next_ok(s: SK, b: Bs) -> bool {
    match s {
        SK::Heading(l) => ident(b).0 is Para || ident(b).0 == SK::Heading(l),
        SK::Table { .. } => blank(b) || s_caption(trim(b)) || row_shape(trim(b)),
        _ => true,
    }
}
spec fn no_caption(ls: Seq<&str>, n: int) -> bool { forall|j: int| 0 <= j < n ==> !s_caption(trim(sb(#[trigger] ls[j]))) }
proof fn lemma_cont(s: SK, ls: Seq<&str>)
    ensures
        ({ let (z, n) = cont_run(s, ls); same_block(s, z) && 0 <= n <= ls.len() && (closed(z) && !closed(s) ==> n >= 1)
            && forall|i: int| 0 <= i < n && (s is Table ==> !captioned(s) && no_caption(ls, i)) ==> next_ok(s, sb(#[trigger] ls[i])) }),
    decreases ls.len()
{
    if ls.len() > 0 {
        let (t, c) = cont(s, sb(ls[0]));
        assert(same_block(s, t));
        if c {
            let rest = ls.subrange(1, ls.len() as int);
            lemma_cont(t, rest);
            let n = cont_run(s, ls).1;
            assert forall|i: int| 0 <= i < n && (s is Table ==> !captioned(s) && no_caption(ls, i)) implies next_ok(s, sb(#[trigger] ls[i])) by {
                if i > 0 {
                    assert(ls[i] == rest[i - 1]);
                    if s is Table {
                        assert(!s_caption(trim(sb(ls[0]))));
                        assert(!captioned(t));
                        assert forall|j: int| 0 <= j < i - 1 implies !s_caption(trim(sb(#[trigger] rest[j]))) by { assert(rest[j] == ls[j + 1]); }
                    }
                    assert(next_ok(t, sb(rest[i - 1])));
                }
            }
        }
    }
}
/// A line that continues a heading and has a marker has the marker of the heading.
proof fn lemma_heading_line(b: Bs, l: int, w: int, h: int)
    requires
        ident(b).0 is Para || ident(b).0 == SK::Heading(l), 0 <= w && 0 <= h && w + h < b.len(), forall|x: int| 0 <= x < w ==> ascii_ws(#[trigger] b[x]), !ascii_ws(b[w]) || h == 0,
        forall|x: int| w <= x < w + h ==> #[trigger] b[x] == 35, b[w + h] != 35, ascii_ws(b[w + h]), w == 0 || h > 0 || !ascii_ws(b[w]), h > 0 || !ascii_ws(b[w]),
    ensures h == l
{
    let k = lead(b, 0);
    lemma_lead_in(b, 0);
    if k < b.len() {
        let t = b.subrange(k, b.len() as int);
        assert(t[0] == b[k]);
        if b[k] != 10 {
            assert(!ascii_ws(b[k]));
            assert(k >= w);
            if k > w { assert(ascii_ws(b[w])); }
            assert(k == w);
            assert(t[h] == b[w + h]);
            assert forall|x: int| 0 <= x < h implies #[trigger] t[x] == 35 by { assert(t[x] == b[w + x]); }
            lemma_run(t, 35, 0, h);
            assert(b[w] == 35);
        }
    }
}
@end
@raw
// ---- steps from block to block
proof fn lemma_kept<'s>(a: &TreeParser<'s>, b: &TreeParser<'s>, c: &TreeParser<'s>, m: int, lm: int)
    requires b.kept(a, m, lm), c.kept(b, m, lm)
    ensures c.kept(a, m, lm)
{
    assert forall|i: int| 0 <= i < m implies (#[trigger] c.open@[i]) == a.open@[i] by { assert(b.open@[i] == a.open@[i]); }
    assert forall|i: int| 0 <= i < lm implies (#[trigger] c.open_lists@[i]) == a.open_lists@[i] by { assert(b.open_lists@[i] == a.open_lists@[i]); }
    assert forall|i: int| 0 <= i < a.n() implies same_kind(#[trigger] a.events@[i].kind, c.events@[i].kind) by { assert(same_kind(a.events@[i].kind, b.events@[i].kind)); assert(same_kind(b.events@[i].kind, c.events@[i].kind)); }
}
/// A list is open inside of some container of blocks.
proof fn lemma_list_parent(evs: Evs, n: int, k: int)
    requires 0 <= n <= evs.len() <= usize::MAX, stk(evs, n) is Some, 0 <= k < stk(evs, n)->0.len(), is_list(enter_of(evs[stk(evs, n)->0[k] as int]))
    ensures k >= 1, enter_of(evs[stk(evs, n)->0[k - 1] as int]) matches Some(Node::Container(c)) && is_blk(c)
{
    let o = stk(evs, n)->0;
    lemma_stk(evs, n);
    lemma_open_at(evs, n, k);
    let i = o[k] as int;
    lemma_some(evs, i + 1, n);
    assert(step(evs, i, o.take(k)) is Some);
    if k >= 1 { assert(o.take(k).last() == o[k - 1]); }
}
/// Other than the tightness of an open list nothing is changed.
proof fn lemma_flags<'s>(o: &TreeParser<'s>, z: &TreeParser<'s>, j: int)
    requires
        o.inv(), -1 <= j < o.open_lists@.len(), z.src == o.src, z.attr_start == o.attr_start, z.open_lists == o.open_lists, z.open_sections == o.open_sections, z.open == o.open,
        z.n() == o.n(), forall|i: int| 0 <= i < o.n() ==> (#[trigger] z.events@[i]).span == o.events@[i].span,
        forall|i: int| 0 <= i < o.n() && (j >= 0 ==> i != o.open_lists@[j].event) ==> (#[trigger] z.events@[i]).kind == o.events@[i].kind,
        j >= 0 ==> same_kind(o.events@[o.open_lists@[j].event as int].kind, z.events@[o.open_lists@[j].event as int].kind),
    ensures
        z.inv(), z.kept(o, o.base(), o.lbase()), z.base() == o.base(), z.lbase() == o.lbase(), z.has_list() == o.has_list(), o.outer() ==> z.outer(),
        forall|k: int| 0 <= k < o.open@.len() ==> same_kind(o.events@[(#[trigger] o.open@[k]) as int].kind, z.events@[o.open@[k] as int].kind),
{
    lemma_stk(o.events@, o.n());
    if j >= 0 { assert(o.list_ok(o.open_lists@[j])); lemma_retype(o.events@, z.events@, o.n(), o.open_lists@[j].event as int, o.open_lists@[j].depth - 1); } else { lemma_prefix(o.events@, z.events@, o.n()); }
    assert forall|i: int| 0 <= i < o.n() implies same_kind(#[trigger] o.events@[i].kind, z.events@[i].kind) by { assert(z.events@[i].kind == o.events@[i].kind || j >= 0 && i == o.open_lists@[j].event); }
    assert forall|i: int| 0 <= i < z.n() implies rng_ok(sb(z.src), (#[trigger] z.events@[i]).span) by { assert(rng_ok(sb(o.src), o.events@[i].span)); }
    lemma_same(o, z);
    if o.outer() {
        lemma_outer(o, z);
        if o.attr_start is Some { assert forall|i: int| o.attr_start->0 <= i < o.n() implies (#[trigger] z.events@[i]).kind is Atom by { assert(o.events@[i].kind is Atom); assert(same_kind(o.events@[i].kind, z.events@[i].kind)); } }
    }
}
/// The open lists are still what they were.
proof fn lemma_same<'s>(o: &TreeParser<'s>, z: &TreeParser<'s>)
    requires
        o.inv(), z.core(), z.open_lists == o.open_lists, z.open == o.open, o.n() <= z.n(), forall|i: int| 0 <= i < o.n() ==> same_kind(#[trigger] o.events@[i].kind, z.events@[i].kind),
    ensures z.inv()
{
    lemma_stk(o.events@, o.n());
    assert(o.open@.last() == o.open@[o.open@.len() - 1]);
    assert forall|i: int| 0 <= i < z.open_lists@.len() implies z.list_ok(#[trigger] z.open_lists@[i]) by {
        let l = o.open_lists@[i];
        assert(o.list_ok(l));
        assert(same_kind(o.events@[l.event as int].kind, z.events@[l.event as int].kind));
    }
    let p = o.open@.last() as int;
    assert(same_kind(o.events@[p].kind, z.events@[p].kind));
}
/// The sections around a block are still open.
proof fn lemma_outer<'s>(o: &TreeParser<'s>, z: &TreeParser<'s>)
    requires o.outer0(), o.core(), z.kept(o, o.base(), o.lbase()), z.based(o.base(), o.lbase())
    ensures z.outer0()
{
    let (a, b) = (o.events@, z.events@);
    lemma_stk(a, o.n());
    assert(z.open@[0] == o.open@[0]);
    assert(same_kind(a[o.open@[0] as int].kind, b[o.open@[0] as int].kind));
    assert forall|k: int| 1 <= k <= z.open_sections@.len() implies is_sec(enter_of(b[(#[trigger] z.open@[k]) as int])) && sec_level(b, z.open@[k] as int) == lev(z.open_sections@[k - 1] as int) by {
        assert(z.open@[k] == o.open@[k]);
        let p = o.open@[k] as int;
        assert(is_sec(enter_of(a[p])) && sec_level(a, p) >= 0);
        assert(same_kind(a[p].kind, b[p].kind));
        assert(same_kind(a[p + 1].kind, b[p + 1].kind));
    }
}
spec fn sk_container(s: SK, c: Container) -> bool {
    match s {
        SK::Quote => c == Container::Blockquote,
        SK::Item { ty, .. } => ty_ok(ty) && (c matches Container::ListItem(k) && item_class(k) == class(ty)),
        SK::Def { foot, .. } => foot && c is Footnote,
        SK::Fence { .. } => c is Div,
        _ => false,
    }
}
/// The node that the next block is in.
impl<'s> TreeParser<'s> {
    spec fn around(&self) -> Option<Node<'s>> { enter_of(self.events@[self.open@[self.base() - 1] as int]) }
}
/// What may be in a table: rows, and blank lines, up to a caption.
spec fn tab_ok(b: Bs, ls: Seq<Sp>) -> bool {
    forall|i: int| 0 <= i < ls.len() && (forall|j: int| 0 <= j < i ==> !s_caption(trim(part(b, #[trigger] ls[j])))) ==> ({ let t = trim(part(b, #[trigger] ls[i])); blank(part(b, ls[i])) || s_caption(t) || row_shape(t) })
}
// ---- tables
/// Bytes being tokenized (contract proved in the unit `lex`): tokens are not empty and lie one after the other.
struct VBLexer<'a> { src: &'a [u8], pos: usize, verbatim: bool }
#[verifier::external_body]
fn v_blexer<'a>(src: &'a [u8]) -> (r: VBLexer<'a>) ensures r.src@ == src@, r.pos == 0, !r.verbatim { unimplemented!() }
impl<'a> VBLexer<'a> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Token>)
        requires old(self).pos <= old(self).src@.len()
        ensures
            final(self).verbatim == old(self).verbatim, final(self).src@ == old(self).src@, final(self).pos <= final(self).src@.len(),
            r is None ==> final(self).pos == old(self).pos && final(self).pos == final(self).src@.len(),
            r matches Some(t) ==> t.len >= 1 && final(self).pos == old(self).pos + t.len && (t.kind == LKind::Sym(Symbol::Pipe) ==> t.len == 1 && old(self).src@[old(self).pos as int] == 124),
    { unimplemented!() }
}
impl<'a> VBytes<'a> {
    fn v_skip(self, n: usize) -> (r: VBytes<'a>)
        requires self.wf()
        ensures r.wf(), r.s@ == self.s@, r.pos == (if n <= self.s@.len() - self.pos { self.pos + n } else { self.s@.len() as int })
    { VBytes { s: self.s, pos: if n <= self.s.len() - self.pos { self.pos + n } else { self.s.len() } } }
    fn v_take(self, n: usize) -> (r: VBytes<'a>)
        requires self.wf(), n <= self.s@.len() - self.pos
        ensures r.wf(), r.s@ == self.s@.subrange(0, self.pos + n), r.pos == self.pos
    { let l = self.s.len(); VBytes { s: v_bytes_to(self.s, self.pos + n), pos: self.pos } }
}
#[verifier::external_body]
fn v_bytes_to(s: &[u8], n: usize) -> (r: &[u8]) requires n <= s@.len() ensures r@ == s@.subrange(0, n as int) { &s[..n] }
trait VGet<T> {
    spec fn gs(&self) -> Seq<T>;
    fn v_get(&self, i: usize) -> (r: Option<&T>) ensures r == (if i < self.gs().len() { Some(&self.gs()[i as int]) } else { None::<&T> });
}
impl<T> VGet<T> for Vec<T> {
    spec fn gs(&self) -> Seq<T> { self@ }
    fn v_get(&self, i: usize) -> Option<&T> { if i < self.len() { Some(&self[i]) } else { None } }
}
trait VCopied<T> {
    spec fn cs(&self) -> Option<T>;
    fn v_copied(self) -> (r: Option<T>) ensures r == self.cs();
}
impl<T: Copy> VCopied<T> for Option<&T> {
    spec fn cs(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    fn v_copied(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
}
/// A cell of a separator row: hyphens, with a colon on either side or both.
spec fn sep_cell(b: Bs) -> bool {
    let l = b.len() as int;
    let a = if l > 0 && b[0] == 58 { 1int } else { 0 };
    let e = if l > 0 && b[l - 1] == 58 { l - 1 } else { l };
    a < e && forall|i: int| a <= i < e ==> #[trigger] b[i] == 45
}
/// The alignment that it says.
spec fn sep_align(b: Bs) -> Alignment {
    if b[0] == 58 { if b.last() == 58 { Alignment::Center } else { Alignment::Left } } else if b.last() == 58 { Alignment::Right } else { Alignment::Unspecified }
}
spec fn col(al: Seq<Alignment>, k: int) -> Alignment { if k < al.len() { al[k] } else { Alignment::Unspecified } }
proof fn lemma_sep(b: Bs)
    requires b.len() >= 3
    ensures sep_cell(b) == ((b[0] == 45 || b[0] == 58) && (b.last() == 45 || b.last() == 58) && forall|i: int| 1 <= i < b.len() - 1 ==> #[trigger] b[i] == 45)
{}
proof fn lemma_sep_short(b: Bs)
    requires b.len() <= 2
    ensures
        b.len() == 0 ==> !sep_cell(b), b.len() == 1 ==> sep_cell(b) == (b == seq![45u8]),
        b.len() == 2 ==> sep_cell(b) == (b == seq![58u8, 45u8] || b == seq![45u8, 45u8] || b == seq![45u8, 58u8]),
{
    if b.len() == 1 { assert(b =~= seq![b[0]]); if sep_cell(b) { assert(b[0] == 45); } }
    if b.len() == 2 {
        assert(b =~= seq![b[0], b[1]]);
        if sep_cell(b) { if b[0] == 58 { assert(b[1] != 58 ==> b[1] == 45); } else { assert(b[0] == 45); assert(b[1] != 58 ==> b[1] == 45); } }
        if b == seq![58u8, 45u8] { assert(b[0] == 58 && b[1] == 45); }
        if b == seq![45u8, 45u8] { assert(b[0] == 45 && b[1] == 45); }
        if b == seq![45u8, 58u8] { assert(b[0] == 45 && b[1] == 58); }
    }
}
spec fn cell_of(k: EventKind) -> Option<Alignment> { match k { EventKind::Enter(Node::Leaf(Leaf::TableCell(a))) => Some(a), EventKind::Exit(Node::Leaf(Leaf::TableCell(a))) => Some(a), _ => None } }
/// The cells of a row, of three events each, aligned as their columns.
spec fn cell_at(e: Evs, a: int, i: int, al: Seq<Alignment>) -> bool {
    let m = (i - a) % 3;
    let c = Node::Leaf(Leaf::TableCell(col(al, (i - a) / 3)));
    if m == 0 { e[i].kind == EventKind::Enter(c) } else if m == 1 { e[i].kind is Inline } else { e[i].kind == EventKind::Exit(c) }
}
spec fn cells(e: Evs, a: int, n: int, al: Seq<Alignment>) -> bool { 0 <= a <= n <= e.len() && (n - a) % 3 == 0 && forall|i: int| a <= i < n ==> #[trigger] cell_at(e, a, i, al) }
proof fn lemma_cells(e: Evs, a: int, n: int, o: Stk, al: Seq<Alignment>)
    requires cells(e, a, n, al), n <= usize::MAX, stk(e, a) == Some(o), top(e, o) matches Some(Node::Container(Container::TableRow { .. })), o.len() > 0 && o.last() < a
    ensures stk(e, n) == Some(o)
    decreases n - a
{
    if n > a {
        let m = n - 3;
        assert(cell_at(e, a, m, al)); assert(cell_at(e, a, m + 1, al)); assert(cell_at(e, a, m + 2, al));
        assert((m - a) / 3 == (m + 2 - a) / 3);
        assert(cells(e, a, m, al)) by { assert forall|i: int| a <= i < m implies #[trigger] cell_at(e, a, i, al) by {} }
        lemma_cells(e, a, m, o, al);
        let p = o.push(m as usize);
        assert(p.last() == m && p.drop_last() =~= o);
        assert(stk(e, m + 1) == Some(p));
        assert(stk(e, m + 2) == Some(p));
        assert(stk(e, m + 3) == Some(o));
    }
}
/// One more cell.
proof fn lemma_cell_added(e: Evs, z: Evs, a: int, al: Seq<Alignment>)
    requires
        cells(e, a, e.len() as int, al), z.len() == e.len() + 3, forall|i: int| 0 <= i < e.len() ==> (#[trigger] z[i]) == e[i],
        z[e.len() as int].kind == EventKind::Enter(Node::Leaf(Leaf::TableCell(col(al, (e.len() - a) / 3)))), z[e.len() as int + 1].kind is Inline,
        z[e.len() as int + 2].kind == EventKind::Exit(Node::Leaf(Leaf::TableCell(col(al, (e.len() - a) / 3)))),
    ensures cells(z, a, z.len() as int, al)
{
    assert forall|i: int| a <= i < z.len() implies #[trigger] cell_at(z, a, i, al) by {
        if i < e.len() { assert(cell_at(e, a, i, al)); }
    }
}
/// A row entered at `a` and left at `b`.
spec fn row_at(e: Evs, a: int, b: int, al: Seq<Alignment>) -> bool {
    &&& 0 <= a < b < e.len() && cells(e, a + 1, b, al)
    &&& e[a].kind matches EventKind::Enter(Node::Container(Container::TableRow { head })) && e[b].kind == EventKind::Exit(Node::Container(Container::TableRow { head }))
}
proof fn lemma_row(e: Evs, a: int, b: int, o: Stk, al: Seq<Alignment>)
    requires row_at(e, a, b, al), b < usize::MAX, stk(e, a) == Some(o), top(e, o) == Some(Node::Container(Container::Table)), e.len() <= usize::MAX,
    ensures stk(e, b + 1) == Some(o)
{
    let p = o.push(a as usize);
    lemma_stk(e, a);
    assert(p.last() == a && p.drop_last() =~= o);
    assert(stk(e, a + 1) == Some(p));
    lemma_cells(e, a + 1, b, p, al);
}
/// The first `n` events `y` after the entry of a row, once `x`, with new alignments.
spec fn realigned(x: Evs, y: Evs, n: int, al: Seq<Alignment>) -> bool {
    &&& x.len() == y.len()
    &&& forall|i: int| 0 <= i < x.len() ==> (#[trigger] y[i]).span == x[i].span && (i >= n || i == x.len() - 1 ==> y[i].kind == x[i].kind) && (i < n && i < x.len() - 1 ==> cell_at(y, 0, i, al))
}
/// A row becomes the head row.
proof fn lemma_head_row(e: Evs, z: Evs, a: int, b: int, o: Stk, old_al: Seq<Alignment>, al: Seq<Alignment>)
    requires
        row_at(e, a, b, old_al), b < usize::MAX, e.len() == b + 1, stk(e, a) == Some(o), top(e, o) == Some(Node::Container(Container::Table)), z.len() == e.len(),
        forall|i: int| 0 <= i < a ==> (#[trigger] z[i]).kind == e[i].kind,
        z[a].kind == EventKind::Enter(Node::Container(Container::TableRow { head: true })), z[b].kind == EventKind::Exit(Node::Container(Container::TableRow { head: true })),
        forall|i: int| 0 <= i < b - a - 1 ==> #[trigger] cell_at(z.skip(a + 1), 0, i, al),
    ensures row_at(z, a, b, al), stk(z, b + 1) == Some(o), stk(z, a) == Some(o), top(z, o) == top(e, o)
{
    lemma_prefix(e, z, a);
    lemma_stk(e, a);
    if o.len() > 0 { assert(o.last() == o[o.len() - 1]); }
    assert forall|i: int| a + 1 <= i < b implies #[trigger] cell_at(z, a + 1, i, al) by {
        assert(cell_at(z.skip(a + 1), 0, i - a - 1, al));
    }
    lemma_row(z, a, b, o, al);
}
impl VEq for &str {
    spec fn eqs(&self, o: &Self) -> bool { sb(*self) == sb(*o) }
    fn eq_(&self, o: &Self) -> bool {
        let r = **self == **o;
        proof { lemma_str_eq(*self, *o); }
        r
    }
}
proof fn lemma_seps() ensures sb("-") == seq![45u8], sb(":-") == seq![58u8, 45u8], sb("--") == seq![45u8, 45u8], sb("-:") == seq![45u8, 58u8]
{
    broadcast use group_utf8_lib;
    reveal_strlit("-"); reveal_strlit(":-"); reveal_strlit("--"); reveal_strlit("-:");
    assert(is_ascii_chars("-"@)); assert(is_ascii_chars(":-"@)); assert(is_ascii_chars("--"@)); assert(is_ascii_chars("-:"@));
    assert(sb("-") =~= seq![45u8]); assert(sb(":-") =~= seq![58u8, 45u8]); assert(sb("--") =~= seq![45u8, 45u8]); assert(sb("-:") =~= seq![45u8, 58u8]);
}
/// The lines before the first one with a circumflex.
proof fn lemma_before_caption(b: Bs, lz: Seq<Sp>, k: int)
    requires tab_ok(b, lz), 0 <= k <= lz.len(), forall|j: int| 0 <= j < k ==> !caretted(part(b, #[trigger] lz[j]))
    ensures
        forall|j: int| 0 <= j < k ==> blank(part(b, #[trigger] lz[j])) || row_shape(trim(part(b, lz[j]))),
        k < lz.len() ==> ({ let t = trim(part(b, lz[k])); blank(part(b, lz[k])) || s_caption(t) || row_shape(t) }),
        forall|j: int| 0 <= j < k ==> !s_caption(trim(part(b, #[trigger] lz[j]))),
    decreases k
{
    if k > 0 { lemma_before_caption(b, lz, k - 1); lemma_table_line(part(b, lz[k - 1])); }
}
spec fn caretted(b: Bs) -> bool { let k = lead_ws(b, 0); k < b.len() && b[k] == 94 }
/// A line with a circumflex first is a caption, another one a row or blank.
proof fn lemma_table_line(b: Bs)
    requires blank(b) || s_caption(trim(b)) || row_shape(trim(b))
    ensures
        !caretted(b) ==> !s_caption(trim(b)) && (blank(b) || row_shape(trim(b))),
        caretted(b) ==> ({ let k = lead_ws(b, 0); s_caption(trim(b)) && 0 <= k && k + 2 <= b.len() && b[k] == 94 && b[k + 1] == 32 }),
{
    lemma_lead_ws_in(b, 0);
    lemma_tail_in(b, b.len() as int);
    let k = lead_ws(b, 0);
    if !blank(b) {
        let e = tail(b, b.len() as int);
        assert(e > k) by { if e <= k { assert(ascii_ws(b[k])); } }
        assert(trim(b)[0] == b[k]);
        if trim(b).len() >= 2 { assert(trim(b)[1] == b[k + 1]); }
    }
}
impl<'s> TreeParser<'s> {
    /// In the table that has been entered after `o`.
    spec fn in_table(&self, o: &Self) -> bool {
        &&& self.core() && self.src == o.src && self.open_lists == o.open_lists && self.open_sections == o.open_sections && self.attr_start == o.attr_start
        &&& self.open@ == o.open@.push(o.n() as usize) && o.n() < self.n() && self.events@[o.n()].kind == EventKind::Enter(Node::Container(Container::Table))
        &&& forall|i: int| 0 <= i < o.n() ==> (#[trigger] o.events@[i]).kind == self.events@[i].kind
    }
    /// In the row that has been entered after `w`.
    spec fn in_row(&self, w: &Self) -> bool {
        &&& self.core() && self.src == w.src && self.open_lists == w.open_lists && self.open_sections == w.open_sections && self.attr_start == w.attr_start && self.alignments == w.alignments
        &&& self.open@ == w.open@.push(w.n() as usize) && w.n() < self.n() && self.events@[w.n()].kind == EventKind::Enter(Node::Container(Container::TableRow { head: false }))
        &&& forall|i: int| 0 <= i < w.n() ==> (#[trigger] w.events@[i]) == self.events@[i]
        &&& cells(self.events@, w.n() + 1, self.n(), w.alignments@)
    }
}
/// A line of a table that is not blank starts with a pipe.
proof fn lemma_row_line(b: Bs, l: Bs, row: Sp)
    requires valid_utf8(b), rng_ok(b, row), part(b, row) == trim(l), row.start < row.end, blank(l) || row_shape(trim(l))
    ensures rng_ok(b, row.start..((row.start + 1) as usize)), rng_ok(b, ((row.start + 1) as usize)..row.end)
{
    assert(part(b, row).len() == row.end - row.start);
    assert(!blank(l));
    assert(trim(l)[0] == 124);
    assert(part(b, row)[0] == b[row.start as int]);
    lemma_ascii_boundary(b, row.start as int);
}
/// Text after the marker of a caption.
proof fn lemma_caption_line(b: Bs, l: Sp, r: Sp)
    requires valid_utf8(b), rng_ok(b, l), r.end == l.end, r.start == l.start + lead_ws(part(b, l), 0), caretted(part(b, l)), blank(part(b, l)) || s_caption(trim(part(b, l))) || row_shape(trim(part(b, l)))
    ensures rng_ok(b, ((r.start + 2) as usize)..r.end), r.start + 2 <= usize::MAX
{
    lemma_table_line(part(b, l));
    let p = part(b, l);
    let k = lead_ws(p, 0);
    assert(p[k + 1] == b[r.start + 1]);
    lemma_ascii_boundary(b, r.start + 1);
}
proof fn lemma_cells_skip(e: Evs, a: int, n: int, al: Seq<Alignment>)
    requires cells(e, a, n, al)
    ensures cells(e.skip(a), 0, n - a, al)
{
    assert forall|i: int| 0 <= i < n - a implies #[trigger] cell_at(e.skip(a), 0, i, al) by { assert(cell_at(e, a, i + a, al)); }
}
/// The alignments of the cells `e` of a separator row, up to the event `n`.
spec fn seps_read(b: Bs, e: Evs, n: int, al: Seq<Alignment>) -> bool {
    al.len() == (n + 1) / 3 && forall|k: int| 0 <= k < al.len() ==> #[trigger] al[k] == sep_align(part(b, e[3 * k + 1].span))
}
@end
@fn TreeParser::parse_table
    attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
    opt src_sub slice m_iter iter_position iter_all iter_extend iter_for_each eq matches bool_ops m_trim_start_matches m_starts_with m_get m_copied m_bytes m_skip m_take mut_alts
    subst /lex::Kind/LKind/
    subst /lex::Sequence/Sequence/
    subst /lex::Symbol/Symbol/
    subst /lex::Token/Token/
    subst /lex::Lexer::new(/v_blexer(/
    subst /cell.len()/cell.v_len()/
    subst /row.is_empty()/v_rng_empty(&row)/
    subst /let mut last_row_event = None;/let mut last_row_event: Option<(usize, usize)> = None;/
    subst /self.events.drain(row_event_enter..)/v_drain_from(&mut self.events, row_event_enter)/
    req
        old(self).inv(), !old(self).has_list(), lines_ok(sb(old(self).src), old(lines)@), rng_ok(sb(old(self).src), span_start), rng_ok(sb(old(self).src), span_end), tab_ok(sb(old(self).src), old(lines)@),
    ens
        final(self).inv(), !final(self).has_list(), final(self).src == old(self).src, final(self).open_lists == old(self).open_lists, final(self).open_sections == old(self).open_sections,
        final(self).open@ == old(self).open@, old(self).n() + 2 <= final(self).n(), forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] old(self).events@[i]).kind == final(self).events@[i].kind,
    closure 1 |c: char| -> (r: bool) ensures r == cws(c)
    loop 0
        invariant_except_break
            __it0.pos == __n0, __r0 is None,
        invariant
            __it0.wf(), __it0.s@ == lines@, __n0 <= lines@.len(), lines@ == lz, lines_ok(b, lz), b == sb(self.src), forall|i: int| 0 <= i < __n0 ==> !caretted(part(b, #[trigger] lz[i])),
        ensures
            __r0 is None ==> __n0 == lz.len(), __r0 matches Some(k) ==> k == __n0 && k < lz.len() && caretted(part(b, lz[k as int])),
        decreases __it0.s@.len() - __it0.pos,
    loop 1
        invariant
            __it1.wf(), lines_ok(b, __it1.s@), b == sb(self.src), self.core(), self.src == t1.src, self.open_lists == t1.open_lists, self.open_sections == t1.open_sections, self.attr_start == t1.attr_start,
            self.open@ == t1.open@.push(t1.n() as usize), t1.n() < self.n(), self.events@[t1.n()].kind == EventKind::Enter(Node::Leaf(Leaf::Caption)), forall|i: int| 0 <= i < t1.n() ==> (#[trigger] t1.events@[i]) == self.events@[i],
        decreases __it1.s@.len() - __it1.pos,
    loop 2
        invariant
            __it2.wf(), __it2.s@.len() <= lz.len(), forall|i: int| 0 <= i < __it2.s@.len() ==> (#[trigger] __it2.s@[i]) == lz[i], lines_ok(b, lz), b == sb(self.src),
            forall|j: int| 0 <= j < __it2.s@.len() ==> blank(part(b, #[trigger] lz[j])) || row_shape(trim(part(b, lz[j]))),
            self.in_table(old(self)),
            last_row_event matches Some(x) ==> self.n() == x.1 + 1 && row_at(self.events@, x.0 as int, x.1 as int, self.alignments@) && stk(self.events@, x.0 as int) == Some(self.open@) && old(self).n() < x.0,
        decreases __it2.s@.len() - __it2.pos,
    loop 3
        invariant
            b == sb(self.src), valid_utf8(b), self.in_row(&w), rng_ok(b, rem), lex.src@ == part(b, rem), lex.pos <= lex.src@.len(), pos == rem.start + lex.pos, rem.start <= cell_start <= pos, bnd(b, cell_start as int),
            3 * column_index == self.n() - w.n() - 1,
            separator_row ==> forall|i: int| w.n() < i < self.n() && (#[trigger] self.events@[i]).kind is Inline ==> sep_cell(part(b, self.events@[i].span)),
            !separator_row ==> exists|i: int| w.n() < i < self.n() && (#[trigger] self.events@[i]).kind is Inline && !sep_cell(part(b, self.events@[i].span)),
        ensures
            pos == rem.end,
        decreases lex.src@.len() - lex.pos,
    loop 4
        invariant_except_break
            __r4,
        invariant
            __it4.wf(), b4.len() >= 3, __it4.s@ == b4.subrange(0, b4.len() - 1), 1 <= __it4.pos, forall|i: int| 1 <= i < __it4.pos && (i + 1 < __it4.pos || __r4) ==> #[trigger] b4[i] == 45,
        ensures
            __r4 == (forall|i: int| 1 <= i < b4.len() - 1 ==> #[trigger] b4[i] == 45),
        decreases __it4.s@.len() - __it4.pos,
    loop 5
        invariant
            __it5.wf(), __it5.s@ == e5, b == sb(self.src), valid_utf8(b), cells(e5, 0, e5.len() as int, al5), forall|i: int| 0 <= i < e5.len() ==> rng_ok(b, (#[trigger] e5[i]).span),
            forall|i: int| 0 <= i < e5.len() && (#[trigger] e5[i]).kind is Inline ==> sep_cell(part(b, e5[i].span)),
            seps_read(b, e5, __it5.pos as int, self.alignments@),
        decreases __it5.s@.len() - __it5.pos,
    loop 6
        invariant
            __n6 <= __s6@.len(), __s6@.len() == s6.len(), s6.len() >= 1, __n6 <= s6.len() - 1 ==> __w6 == (__n6 % 3 != 0) && __m6 == __n6 / 3, __n6 == s6.len() ==> __m6 <= __n6,
            realigned(s6, __s6@, __n6 as int, self.alignments@), cells(s6, 0, s6.len() - 1, al6), s6.last().kind is Exit && cell_of(s6.last().kind) is None,
        decreases __s6@.len() - __n6,
    at end
        proof {
            assert(self.open@ =~= t0.open@);
            lemma_stk(t0.events@, t0.n());
            if t0.open@.len() > 0 { assert(t0.open@.last() == t0.open@[t0.open@.len() - 1]); }
            lemma_top(t0.events@, self.events@, self.open@);
            assert forall|i: int| 0 <= i < self.open_lists@.len() implies self.list_ok(#[trigger] self.open_lists@[i]) by { assert(t0.list_ok(t0.open_lists@[i])); }
        }
    at start
        let ghost t0 = *self;
        let ghost lz = lines@;
        let ghost b = sb(self.src);
        proof { lemma_valid(self.src); lemma_seps(); }
    at let caption_line before
        let ghost t1 = *self;
        proof { assert(self.in_table(old(self))); }
    at let row_event_enter before
        let ghost w = *self;
        proof { lemma_row_line(b, part(b, lz[__it2.pos - 1]), row); }
    at assign lines[caption_line] before
        proof { lemma_before_caption(b, lz, caption_line as int); }
    at assign lines[caption_line] after
        proof { lemma_caption_line(b, lz[caption_line as int], lines@[caption_line as int]); }
    at assign lines[lines.len()-1] before
        proof { assert(lines_ok(b, lines@)); }
    at assign lines[lines.len()-1] after
        proof { assert(lines_ok(b, lines@)); }
    at let caption_line after
        proof {
            assert(self.open@ =~= t1.open@);
            assert(self.in_table(old(self)));
            lemma_before_caption(b, lz, caption_line as int);
        }
    at let span before
        let ghost q1 = *self;
        proof { assert(part(b, rem)[pos - rem.start] == b[pos as int]); lemma_ascii_boundary(b, pos as int); }
    at let cell 0 after
        let ghost b4 = sb(cell);
    at let separator_cell after
        proof { lemma_seps(); if b4.len() >= 3 { lemma_sep(b4); } else { lemma_sep_short(b4); } assert(separator_cell == sep_cell(b4)); }
    at assign cell_start before
        proof {
            lemma_cell_added(q1.events@, self.events@, w.n() + 1, w.alignments@);
            assert(self.events@[q1.n() + 1].kind is Inline);
            if !separator_row && separator_cell {
                let i = choose|i: int| w.n() < i < q1.n() && (#[trigger] q1.events@[i]).kind is Inline && !sep_cell(part(b, q1.events@[i].span));
                assert(self.events@[i] == q1.events@[i]);
            }
            assert(self.open@ =~= q1.open@);
        }
    at if 3 then
        let ghost t3 = *self;
        let ghost e5 = self.events@.skip(row_event_enter + 1);
        let ghost al5 = self.alignments@;
        proof { lemma_cells_skip(self.events@, w.n() + 1, self.n(), al5); }
    at loop 5 start
        proof { assert(cell_at(e5, 0, __it5.pos - 1, al5)); }
    at if 4 before
        proof { assert(self.events@ =~= w.events@); assert(self.open@ =~= w.open@); }
    at if 4 then
        let ghost t4 = *self;
        let ghost s6 = self.events@.skip(head_row_enter + 1);
        let ghost al6 = al5;
        proof { lemma_cells_skip(self.events@, head_row_enter + 1, head_row_exit as int, al5); }
    at loop 6 start
        let ghost y6 = __s6@;
        let ghost k6 = __n6 as int;
        let ghost m6 = __m6 as int;
        proof { assert(y6[k6].kind == s6[k6].kind); if k6 < s6.len() - 1 { assert(cell_at(s6, 0, k6, al6)); } else { assert(s6.last() == s6[k6]); } }
    at loop 6 end
        proof {
            assert(forall|i: int| 0 <= i < y6.len() && i != k6 ==> #[trigger] __s6@[i] == y6[i]);
            assert(__s6@[k6].span == y6[k6].span);
            if k6 < s6.len() - 1 { assert(cell_at(__s6@, 0, k6, self.alignments@)); }
            assert forall|i: int| 0 <= i < __n6 && i < s6.len() - 1 implies #[trigger] cell_at(__s6@, 0, i, self.alignments@) by { if i < k6 { assert(cell_at(y6, 0, i, self.alignments@)) by { assert(y6[i].span == s6[i].span); } } }
        }
    at if 4 thenend
        proof {
            let a = head_row_enter as int;
            let z = self.events@;
            assert forall|i: int| 0 <= i < head_row_exit - a - 1 implies #[trigger] cell_at(z.skip(a + 1), 0, i, self.alignments@) by {}
            lemma_head_row(t4.events@, z, a, head_row_exit as int, t4.open@, al5, self.alignments@);
        }
    at if 3 else
        let ghost t3 = *self;
    at let row_event_exit after
        proof {
            assert(self.open@ =~= w.open@);
            lemma_prefix(w.events@, self.events@, w.n());
            assert forall|i: int| w.n() + 1 <= i < t3.n() implies #[trigger] cell_at(self.events@, w.n() + 1, i, w.alignments@) by { assert(cell_at(t3.events@, w.n() + 1, i, w.alignments@)); }
            assert(row_at(self.events@, row_event_enter as int, row_event_exit as int, w.alignments@));
        }
@end
@raw
proof fn lemma_kept_less<'s>(a: &TreeParser<'s>, b: &TreeParser<'s>, m: int, lm: int, m2: int, lm2: int)
    requires b.kept(a, m, lm), m2 <= m, lm2 <= lm
    ensures b.kept(a, m2, lm2)
{}
/// A container has just been entered.
spec fn inside_ok<'s>(o: &TreeParser<'s>, b: &TreeParser<'s>, c: Container<'s>, item: bool) -> bool {
    let q = if item { 1int } else { 0 };
    &&& b.inv() && b.kept(o, o.base(), o.lbase()) && !b.has_list()
    &&& b.open@.len() == o.base() + 1 + q && b.open_lists@.len() == o.lbase() + q && b.open@.last() == b.n() - 1
    &&& enter_of(b.events@.last()) == Some(Node::Container(c))
    &&& item ==> b.open_lists@.last().depth == o.base() + 1
}
/// The first paragraph of a description has become its term.
proof fn lemma_rot_inv<'s>(a: &TreeParser<'s>, b: &TreeParser<'s>, s: int, x: int, fd: int, k: int)
    requires
        a.inv(), rotated(a.events@, b.events@, s, x, fd), 0 <= k < a.open@.len(), a.open@[k] == s, b.open@ == a.open@.update(k, (fd - 1) as usize), b.src == a.src, b.open_lists == a.open_lists,
        forall|i: int| 0 <= i < b.n() ==> rng_ok(sb(b.src), (#[trigger] b.events@[i]).span), b.n() == a.n(),
    ensures b.inv(), b.has_list() == a.has_list()
{
    lemma_rotated(a.events@, b.events@, s, x, fd, a.n(), a.n(), k);
    lemma_stk(a.events@, a.n());
    lemma_rotated_open(a.events@, b.events@, s, x, fd, a.n(), k);
    assert(a.open@.last() == a.open@[a.open@.len() - 1]);
    assert(b.open@.last() == b.open@[b.open@.len() - 1]);
    assert forall|i: int| 0 <= i < b.open_lists@.len() implies b.list_ok(#[trigger] b.open_lists@[i]) by {
        let l = a.open_lists@[i];
        assert(a.list_ok(l));
        assert(l.depth - 1 != k);
        assert(b.open@[l.depth - 1] == l.event);
        assert(b.events@[l.event as int].kind == a.events@[l.event as int].kind);
    }
}
/// A list at the end of a container, and the container, are left.
proof fn lemma_leave<'s>(o: &TreeParser<'s>, b: &TreeParser<'s>, p: &TreeParser<'s>, z: &TreeParser<'s>, c: Container<'s>, item: bool)
    requires
        o.inv(), inside_ok(o, b, c, item), o.has_list() ==> item, p.inv(), p.based(b.open@.len() as int, b.open_lists@.len() as int),
        forall|i: int| 0 <= i < b.open@.len() - 1 ==> (#[trigger] p.open@[i]) == b.open@[i], forall|i: int| 0 <= i < b.open_lists@.len() ==> (#[trigger] p.open_lists@[i]) == b.open_lists@[i],
        p.open_sections@ == o.open_sections@, z.open_sections@ == p.open_sections@, p.src == o.src, z.src == p.src,
        forall|i: int| 0 <= i < o.n() ==> same_kind(#[trigger] o.events@[i].kind, p.events@[i].kind), o.n() <= p.n(), p.n() < z.n(),
        forall|i: int| 0 <= i < p.n() ==> same_kind(#[trigger] p.events@[i].kind, z.events@[i].kind),
        z.core(), z.open@ == p.open@.take(b.open@.len() - 1), z.open_lists@ == p.open_lists@.take(b.open_lists@.len() as int),
    ensures
        z.inv(), z.kept(o, o.base(), o.lbase()), z.based(o.base(), o.lbase()), z.has_list() == item,
{
    lemma_stk(p.events@, p.n());
    assert forall|i: int| 0 <= i < z.open_lists@.len() implies z.list_ok(#[trigger] z.open_lists@[i]) && z.open_lists@[i].depth <= z.open@.len() by {
        let l = p.open_lists@[i];
        assert(p.list_ok(l));
        assert(b.list_ok(b.open_lists@[i]));
        assert(b.open_lists@[i] == l);
        if i < b.open_lists@.len() - 1 { assert(b.open_lists@[i].depth < b.open_lists@[b.open_lists@.len() - 1].depth); }
        assert(b.list_ok(b.open_lists@[b.open_lists@.len() - 1]));
        assert(l.depth < b.open@.len());
        assert(z.open@[l.depth - 1] == l.event);
        assert(same_kind(p.events@[l.event as int].kind, z.events@[l.event as int].kind));
    }
    assert forall|i: int| 0 <= i < o.n() implies same_kind(#[trigger] o.events@[i].kind, z.events@[i].kind) by { assert(same_kind(o.events@[i].kind, p.events@[i].kind)); assert(same_kind(p.events@[i].kind, z.events@[i].kind)); }
    assert forall|i: int| 0 <= i < o.base() implies (#[trigger] z.open@[i]) == o.open@[i] by { assert(p.open@[i] == b.open@[i]); assert(b.open@[i] == o.open@[i]); }
    assert forall|i: int| 0 <= i < o.lbase() implies (#[trigger] z.open_lists@[i]) == o.open_lists@[i] by { assert(p.open_lists@[i] == b.open_lists@[i]); assert(b.open_lists@[i] == o.open_lists@[i]); }
    if item {
        let l = z.open_lists@[z.open_lists@.len() - 1];
        assert(l == b.open_lists@.last());
        assert(z.open@.last() == z.open@[z.open@.len() - 1]);
        assert(z.list_ok(l));
    } else {
        if o.open_lists@.len() > 0 { assert(o.open_lists@.last() == o.open_lists@[o.open_lists@.len() - 1]); assert(o.list_ok(o.open_lists@[o.open_lists@.len() - 1])); }
        assert(o.open@.last() == o.open@[o.open@.len() - 1]);
        assert(z.open@.last() == z.open@[z.open@.len() - 1]);
        let t = o.open@.last() as int;
        lemma_stk(o.events@, o.n());
        assert(same_kind(o.events@[t].kind, z.events@[t].kind));
    }
    lemma_stk(z.events@, z.n());
}
proof fn lemma_gt() ensures sb(">") == seq![62u8]
{
    broadcast use group_utf8_lib;
    reveal_strlit(">");
    assert(is_ascii_chars(">"@));
    assert(sb(">") =~= seq![62u8]);
}
proof fn lemma_text_start(s: &str)
    ensures sb(s).len() > 0 && sb(s)[0] < 128 ==> bnd(sb(s), 1)
{ lemma_valid(s); if sb(s).len() > 0 && sb(s)[0] < 128 { lemma_ascii_boundary(sb(s), 0); } }
spec fn par_end(e: Event) -> bool { e.kind == EventKind::Exit(Node::Leaf(Leaf::Paragraph)) }
/// The paragraph that a description starts with is complete.
proof fn lemma_term<'s>(b: &TreeParser<'s>, c: &TreeParser<'s>) -> (x: int)
    requires
        b.inv(), c.inv(), c.kept(b, b.open@.len() as int, b.open_lists@.len() as int), b.open@.len() > 0, b.open@.last() == b.n() - 1, b.n() >= 3, b.n() < c.n(), c.n() < usize::MAX,
        c.events@[b.n()].kind == EventKind::Enter(Node::Leaf(Leaf::Paragraph)),
    ensures
        b.n() < x < c.n(), par_end(c.events@[x]), forall|i: int| b.n() < i < x ==> (#[trigger] c.events@[i]).kind is Inline || c.events@[i].kind is Stale,
        same_kind(b.events@[b.n() - 3].kind, c.events@[b.n() - 3].kind), same_kind(b.events@[b.n() - 2].kind, c.events@[b.n() - 2].kind), same_kind(b.events@[b.n() - 1].kind, c.events@[b.n() - 1].kind),
{
    let n = c.n();
    lemma_stk(c.events@, n);
    let x = lemma_leaf_end(c.events@, b.n(), n, n);
    assert(c.open@.last() == c.open@[c.open@.len() - 1]);
    x
}
/// The first end of a paragraph is the end of the first paragraph.
proof fn lemma_first_end(c: Evs, m: Evs, e: int, x: int, y: int)
    requires
        0 <= e < x < c.len(), par_end(c[x]), forall|i: int| e < i < x ==> (#[trigger] c[i]).kind is Inline || c[i].kind is Stale, m.len() == c.len(), m =~= c.update(e, m[e]),
        e < y < m.len(), par_end(m.subrange(e + 1, m.len() as int)[y - e - 1]), forall|i: int| 0 <= i < y - e - 1 ==> !par_end(#[trigger] m.subrange(e + 1, m.len() as int)[i]),
    ensures y == x
{
    assert(m[y] == m.subrange(e + 1, m.len() as int)[y - e - 1]);
    assert(m[x] == c[x] && m[y] == c[y]);
    if x < y { assert(!par_end(m.subrange(e + 1, m.len() as int)[x - e - 1])); }
}
/// The term has been told from the details.
spec fn pre_rot(a: Evs, m: Evs, s: int, x: int) -> bool {
    &&& a.len() == m.len() && 2 <= s && s + 1 < x < a.len()
    &&& m[s - 2].kind is Stale && m[s - 1].kind is Stale
    &&& m[s + 1].kind == EventKind::Enter(Node::Leaf(Leaf::DescriptionTerm)) && m[x].kind == EventKind::Exit(Node::Leaf(Leaf::DescriptionTerm))
    &&& forall|i: int| 0 <= i < a.len() && i != s - 2 && i != s - 1 && i != s + 1 && i != x ==> (#[trigger] m[i]).kind == a[i].kind
}
proof fn lemma_rotate(a: Evs, m: Evs, b: Evs, s: int, x: int, fd: int)
    requires
        pre_rot(a, m, s, x), x < fd <= a.len(), b.len() == a.len(),
        a[s - 2].kind == EventKind::Enter(Node::Leaf(Leaf::DescriptionTerm)), a[s - 1].kind == EventKind::Exit(Node::Leaf(Leaf::DescriptionTerm)),
        a[s].kind matches EventKind::Enter(Node::Container(Container::ListItem(_))), a[s + 1].kind == EventKind::Enter(Node::Leaf(Leaf::Paragraph)), par_end(a[x]),
        forall|i: int| s + 1 < i < x ==> (#[trigger] a[i]).kind is Inline || a[i].kind is Stale,
        forall|i: int| x < i < fd ==> (#[trigger] m[i]).kind == EventKind::Atom(Atom::Blankline),
        forall|i: int| 0 <= i < s || fd <= i < a.len() ==> (#[trigger] b[i]).kind == m[i].kind,
        forall|i: int| s <= i < fd - 1 ==> (#[trigger] b[i]).kind == m[i + 1].kind,
        b[fd - 1].kind == a[s].kind,
    ensures rotated(a, b, s, x, fd)
{
    assert forall|i: int| x < i < fd implies (#[trigger] a[i]).kind == EventKind::Atom(Atom::Blankline) by { assert(m[i].kind == a[i].kind); }
    assert forall|i: int| 0 <= i < s - 2 || fd <= i < a.len() implies (#[trigger] b[i]).kind == a[i].kind by { assert(b[i].kind == m[i].kind); }
    assert forall|i: int| s < i < x - 1 || x <= i < fd - 1 implies (#[trigger] b[i]).kind == a[i + 1].kind by { assert(b[i].kind == m[i + 1].kind); }
}
@end
@fn TreeParser::parse_container
    attr #[verifier::rlimit(150)] #[verifier::spinoff_prover]
    case term c == Container::ListItem(ListItemKind::Description)
    case container c != Container::ListItem(ListItemKind::Description)
    opt src_psub slice m_iter iter_count opt_filter eq matches bool_ops fn_last_mut iter_position iter_for_each m_trim_matches m_starts_with fn_min m_iter_mut
    subst /v_eq(src_t, ">")/v_text_eq(src_t.s, ">")/
    subst /src_t.v_starts_with('>')/v_starts_with(src_t.s, '>')/
    subst /src_t.v_slice_from(1).v_starts_with(/v_starts_f(src_t.s.v_slice_from(1), /
    subst /src_t.as_ptr() as usize - src.as_ptr() as usize/src_t.off - src.off/
    subst /depth: self.open.len().try_into().unwrap()/depth: v_depth(self.open.len())/
    closure 1 |c: char| -> (r: bool) ensures r == cws(c)
    closure 2 |c: char| -> (r: bool) ensures r == cws(c)
    subst /v_psub(self.src, span_start.clone())/v_sub(self.src, span_start.clone())/
    req
        old(self).inv(), sk_container(sk(*k), c), lines_ok(sb(old(self).src), old(lines)@), rng_ok(sb(old(self).src), span_start), rng_ok(sb(old(self).src), span_end),
        old(lines)@.len() > 0 || !(sk(*k) is Item),
        old(self).has_list() ==> (sk(*k) matches SK::Item { ty, .. } && class(ty) == class(old(self).open_lists@.last().ty_start)),
    ens
        final(self).inv(), final(self).kept(old(self), old(self).base(), old(self).lbase()), final(self).based(old(self).base(), old(self).lbase()), final(self).has_list() == (sk(*k) is Item),
    dec
        total(old(lines)@), 1int,
    loop 0
        invariant
            lines_ok(sb(self.src), lines@), *self == *old(self), self.core(), 1 <= __n0, shrunk(old(lines)@, lines@), sk_container(sk(*k), c),
            lines@.len() > 0 ==> lines@[0] == old(lines)@[0],
        decreases lines@.len() - __n0,
    loop 1
        invariant_except_break
            __it1.pos == __n1,
        invariant
            __it1.wf(), __n1 <= __it1.s@.len(), __it1.s@ == part(sb(self.src), *sp),
        decreases __it1.s@.len() - __it1.pos,
    loop 2
        invariant
            self.inv(), self.kept(&b1, b1.open@.len() as int, b1.open_lists@.len() as int), self.based(b1.open@.len() as int, b1.open_lists@.len() as int), b1.inv(), !b1.has_list(),
            l <= lines@.len(), lines@.len() == l1.len(), forall|i: int| l <= i < l1.len() ==> (#[trigger] lines@[i]) == l1[i], lines_ok(sb(self.src), l1), total(l1) <= total(old(lines)@),
            enter_of(b1.events@[b1.open@[b1.open@.len() - 1] as int]) == Some(Node::Container(c)), sk_container(sk(*k), c),
        decreases lines@.len() - l,
    loop 3
        invariant_except_break
            __it3.pos == __n3, __r3 is None, forall|i: int| 0 <= i < __n3 ==> !par_end(#[trigger] __it3.s@[i]),
        invariant
            __it3.wf(), __it3.s@ == m1.subrange(enter_term + 1, m1.len() as int), m1.len() <= usize::MAX,
            __r3 matches Some(y) ==> y < __it3.s@.len() && par_end(__it3.s@[y as int]) && forall|i: int| 0 <= i < y ==> !par_end(#[trigger] __it3.s@[i]),
        ensures
            __r3 is None ==> forall|i: int| 0 <= i < __it3.s@.len() ==> !par_end(#[trigger] __it3.s@[i]),
        decreases __it3.s@.len() - __it3.pos,
    loop 4
        invariant_except_break
            __it4.pos == __n4, __r4 is None, forall|i: int| 0 <= i < __n4 ==> (#[trigger] __it4.s@[i]).kind == EventKind::Atom(Atom::Blankline),
        invariant
            __it4.wf(), __it4.s@ == self.events@.subrange(exit_term + 1, self.n()), self.n() <= usize::MAX,
            __r4 matches Some(y) ==> y < __it4.s@.len() && forall|i: int| 0 <= i < y ==> (#[trigger] __it4.s@[i]).kind == EventKind::Atom(Atom::Blankline),
        ensures
            __r4 is None ==> forall|i: int| 0 <= i < __it4.s@.len() ==> (#[trigger] __it4.s@[i]).kind == EventKind::Atom(Atom::Blankline),
        decreases __it4.s@.len() - __it4.pos,
    loop 5
        invariant
            __e5 == first_detail, enter_term <= __x5 <= __e5, __e5 <= self.n(), __n5 == __x5 - enter_term, enter_term == enter_detail + 1, self.events@.len() == m2.events@.len(),
            forall|i: int| 0 <= i < enter_detail || enter_detail + __n5 <= i < self.n() ==> (#[trigger] self.events@[i]) == m2.events@[i],
            forall|i: int| enter_detail <= i < enter_detail + __n5 ==> (#[trigger] self.events@[i]) == m2.events@[i + 1],
            self.open == m2.open, self.open_lists == m2.open_lists, self.open_sections == m2.open_sections, self.src == m2.src,
        decreases __e5 - __x5,
    at loop 0 start
        let ghost s0 = *sp;
    at let skip before
        proof { lemma_text_start(src_t.s); lemma_gt(); }
    at let skip after
        proof {
            let b = part(sb(self.src), s0);
            lemma_lead_ws_in(b, 0);
            lemma_tail_in(b, b.len() as int);
            assert(whitespace == 0 || !blank(b));
            assert forall|i: int| 0 <= i < skip && i < b.len() implies #[trigger] b[i] < 128 by {
                if i >= lead_ws(b, 0) { assert(b[i] == sb(src_t.s)[i - lead_ws(b, 0)]); }
            }
        }
    at loop 0 end
        proof { lemma_ascii_run(sb(self.src), s0, sp.start - s0.start); }
    at let dt before
        let ghost a1 = *self;
        let ghost l1 = lines@;
        proof { lemma_total_shrunk(old(lines)@, l1, l1.len() as int); }
    at let l before
        let ghost b1 = *self;
    at loop 2 before
        proof { assert(inside_ok(old(self), &b1, c, sk(*k) is Item)); }
    at loop 2 after
        let ghost c1 = *self;
        let ghost mut p9 = c1;
    at let inner before
        let ghost m1 = self.events@;
        let ghost mut x9 = 0int;
        proof {
            assert(enter_detail == b1.n() - 1 && open_detail == b1.open@.len() - 1);
            x9 = lemma_term(&b1, &c1);
            axiom_len(&self.events);
            assert(par_end(m1.subrange(enter_term + 1, m1.len() as int)[x9 - enter_term - 1]));
            assert(m1 =~= c1.events@.update(enter_term as int, m1[enter_term as int]));
        }
    at let detail_pos before
        proof { assert forall|i: int| 0 <= i < self.n() implies rng_ok(sb(self.src), (#[trigger] self.events@[i]).span) by {} }
    at let exit_term after
        proof { lemma_first_end(c1.events@, m1, enter_term as int, x9, exit_term as int); }
    at let first_detail before
        let ghost m3 = self.events@;
    at let first_detail after
        proof { assert forall|i: int| exit_term < i < first_detail implies (#[trigger] self.events@[i]).kind == EventKind::Atom(Atom::Blankline) by { assert(self.events@.subrange(exit_term + 1, self.n())[i - exit_term - 1] == self.events@[i]); } }
    at loop 5 before
        let ghost m2 = *self;
        proof { assert(pre_rot(c1.events@, m2.events@, enter_detail as int, x9)); }
    at assign self.open[open_detail] after
        proof {
            lemma_rotate(c1.events@, m2.events@, self.events@, enter_detail as int, x9, first_detail as int);
            lemma_rot_inv(&c1, self, enter_detail as int, x9, first_detail as int, open_detail as int);
            p9 = *self;
            assert forall|i: int| 0 <= i < old(self).n() implies same_kind(#[trigger] old(self).events@[i].kind, self.events@[i].kind) by { assert(same_kind(old(self).events@[i].kind, c1.events@[i].kind)); }
        }
    at if 7 after
        proof { assert(self.events@ =~= p9.events@); }
    at if 9 before
        proof { assert(self.inv() && self.events@ =~= p9.events@ && self.open@ =~= p9.open@); }
        let ghost r9 = *self;
    at call close_list before
        proof { assert(p9.list_ok(l)); lemma_stk(p9.events@, p9.n()); }
    at call exit 1 before
        let ghost q1 = *self;
    at end
        proof {
            assert(self.open_lists@ =~= p9.open_lists@.take(b1.open_lists@.len() as int));
            assert(self.open@ =~= p9.open@.take(b1.open@.len() - 1));
            lemma_leave(old(self), &b1, &p9, self, c, sk(*k) is Item);
        }
    at call parse_block before
        proof {
            assert(lines@.subrange(l as int, lines@.len() as int) =~= l1.subrange(l as int, l1.len() as int));
            lemma_total_sub(l1, l as int, l1.len() as int);
            lemma_total(l1.subrange(l as int, l1.len() as int));
            assert(total(lines@.subrange(l as int, lines@.len() as int)) <= total(old(lines)@)); // the measure of the recursion
            assert(self.open@[self.base() - 1] == b1.open@[b1.open@.len() - 1]);
            let p = b1.open@[b1.open@.len() - 1] as int;
            lemma_stk(b1.events@, b1.n());
            assert(same_kind(b1.events@[p].kind, self.events@[p].kind));
        }
@end
@raw
// ---- one block
/// The block that lines start with, and its lines.
spec fn found<'s>(b: Bs, ls: Seq<Sp>, m: MeteredBlock<'s>) -> bool {
    let b0 = part(b, ls[0]);
    let (s, a, e) = ident(b0);
    &&& bnd(b, ls[0].start + a) && bnd(b, ls[0].start + e)
    &&& id_ok(b0, s, a, e) && same_block(s, sk(m.kind)) && m.span.start == a && m.span.end == e && 1 <= m.line_count <= ls.len()
    &&& sk(m.kind) matches SK::Item { ty, .. } ==> ty_ok(ty)
    &&& closed(sk(m.kind)) ==> m.line_count >= 2
    &&& m.kind matches Kind::Heading { level } ==> forall|i: int| 1 <= i < m.line_count ==> ident(part(b, #[trigger] ls[i])).0 is Para || ident(part(b, ls[i])).0 == SK::Heading(level as int)
    &&& m.kind is Table ==> forall|i: int| 1 <= i < m.line_count && (forall|j: int| 1 <= j < i ==> !s_caption(trim(part(b, #[trigger] ls[j])))) ==> next_ok(s, part(b, #[trigger] ls[i]))
}
spec fn first_sk(b: Bs, ls: Seq<Sp>) -> SK { ident(part(b, ls[0])).0 }
/// A slice has fewer than usize::MAX elements (assumed).
#[verifier::external_body]
proof fn axiom_slice_len<T>(v: &[T]) ensures v@.len() < usize::MAX {}
#[verifier::spinoff_prover]
fn v_new_block<'s>(src: &'s str, lines: &[Sp]) -> (r: Option<MeteredBlock<'s>>)
    requires lines_ok(sb(src), lines@), sb(src).len() < 0x7fff_ffff
    ensures r is Some <==> lines@.len() > 0, r matches Some(m) ==> found(sb(src), lines@, m)
{
    let it = v_lines_of(src, lines);
    let ghost ls = it.rest();
    let ghost b = sb(src);
    proof {
        axiom_slice_len(lines);
        assert forall|i: int| 0 <= i < ls.len() implies sb(#[trigger] ls[i]).len() < 0x7fff_ffff by { assert(rng_ok(b, lines@[i])); }
    }
    let r = MeteredBlock::new(it);
    proof {
        if r is Some {
            let m = r->0;
            let rest = ls.subrange(1, ls.len() as int);
            let (s, a, e) = ident(sb(ls[0]));
            lemma_valid(ls[0]);
            lemma_valid(src);
            lemma_ident(sb(ls[0]));
            lemma_part(b, lines@[0], a);
            lemma_part(b, lines@[0], e);
            lemma_cont(s, rest);
            let n = m.line_count as int;
            assert forall|i: int| 1 <= i < n implies part(b, #[trigger] lines@[i]) == sb(rest[i - 1]) by { assert(rest[i - 1] == ls[i]); }
            if m.kind is Table {
                assert forall|i: int| 1 <= i < n && (forall|j: int| 1 <= j < i ==> !s_caption(trim(part(b, #[trigger] lines@[j])))) implies next_ok(s, part(b, #[trigger] lines@[i])) by {
                    assert forall|j: int| 0 <= j < i - 1 implies !s_caption(trim(sb(#[trigger] rest[j]))) by { assert(part(b, lines@[j + 1]) == sb(rest[j])); }
                    assert(next_ok(s, sb(rest[i - 1])));
                }
            }
            assert(m.kind matches Kind::Heading { level } ==> s == SK::Heading(level as int));
            if m.kind is Heading {
                assert forall|i: int| 1 <= i < n implies next_ok(s, part(b, #[trigger] lines@[i])) by { assert(next_ok(s, sb(rest[i - 1]))); }
            }
        }
    }
    r
}
proof fn lemma_not_blank(b: Bs, e: int)
    requires 0 <= e < b.len(), !ascii_ws(b[e])
    ensures !blank(b)
{ lemma_lead_ws_in(b, 0); }
/// A list that a block does not continue has been closed.
spec fn next_item(o: &TreeParser<'_>, z: &TreeParser<'_>, s: SK) -> bool {
    &&& z.inv() && z.kept(o, o.base(), o.lbase()) && z.based(o.base(), o.lbase()) && docsec(z.around()) == docsec(o.around())
    &&& z.has_list() ==> (s matches SK::Item { ty, .. } && class(ty) == class(z.open_lists@.last().ty_start))
    &&& o.outer() ==> z.outer()
}
proof fn lemma_next_item<'s>(o: &TreeParser<'s>, z: &TreeParser<'s>, s: SK)
    requires
        o.inv(), z.src == o.src, z.attr_start == o.attr_start, z.open_sections == o.open_sections,
        z.n() == o.n() ==> {
            &&& z.events == o.events && z.open == o.open
            &&& !o.has_list() ==> z.open_lists@ =~= o.open_lists@
            &&& o.has_list() ==> ({ let k = o.open_lists@.len() - 1; let l = z.open_lists@[k]; let l0 = o.open_lists@[k];
                    z.open_lists@ =~= o.open_lists@.update(k, l) && l.depth == l0.depth && l.event == l0.event && class(l.ty_start) == class(l0.ty_start) && ty_ok(l.ty_start) && ty_ok(l.ty_prev) && class(l.ty_prev) == class(l.ty_start)
                    && (s matches SK::Item { ty, .. } && class(ty) == class(l.ty_start)) })
        },
        z.n() != o.n() ==> {
            &&& o.has_list() && z.core() && z.n() == o.n() + 1 && z.open@ == o.open@.drop_last() && z.open_lists@ == o.open_lists@.drop_last() && z.events@.last().kind is Exit
            &&& forall|i: int| 0 <= i < o.n() ==> same_kind(#[trigger] o.events@[i].kind, z.events@[i].kind)
        },
    ensures next_item(o, z, s)
{
    if z.n() == o.n() { lemma_next_same(o, z); } else { lemma_next_closed(o, z); }
    if o.outer() { lemma_outer(o, z); }
    lemma_stk(o.events@, o.n());
    let q = o.open@[o.base() - 1] as int;
    assert(z.open@[z.base() - 1] == q);
    assert(same_kind(o.events@[q].kind, z.events@[q].kind));
}
/// The list is continued, or there is none.
#[verifier::spinoff_prover]
proof fn lemma_next_same<'s>(o: &TreeParser<'s>, z: &TreeParser<'s>)
    requires
        o.inv(), z.src == o.src, z.attr_start == o.attr_start, z.open_sections == o.open_sections, z.events == o.events, z.open == o.open,
        !o.has_list() ==> z.open_lists@ =~= o.open_lists@,
        o.has_list() ==> ({ let k = o.open_lists@.len() - 1; let l = z.open_lists@[k]; let l0 = o.open_lists@[k];
                z.open_lists@ =~= o.open_lists@.update(k, l) && l.depth == l0.depth && l.event == l0.event && class(l.ty_start) == class(l0.ty_start) && ty_ok(l.ty_start) && ty_ok(l.ty_prev) && class(l.ty_prev) == class(l.ty_start) }),
    ensures z.inv(), z.kept(o, o.base(), o.lbase()), z.based(o.base(), o.lbase()), z.has_list() == o.has_list(), o.outer() ==> z.attr_ok(),
{
    assert forall|i: int| 0 <= i < z.open_lists@.len() implies z.list_ok(#[trigger] z.open_lists@[i]) by { assert(o.list_ok(o.open_lists@[i])); }
    assert forall|i: int, j: int| 0 <= i < j < z.open_lists@.len() implies (#[trigger] z.open_lists@[i]).depth < (#[trigger] z.open_lists@[j]).depth by { assert(o.open_lists@[i].depth < o.open_lists@[j].depth); }
}
/// The list is closed.
#[verifier::spinoff_prover]
proof fn lemma_next_closed<'s>(o: &TreeParser<'s>, z: &TreeParser<'s>)
    requires
        o.inv(), z.src == o.src, z.attr_start == o.attr_start, z.open_sections == o.open_sections,
        o.has_list() && z.core() && z.n() == o.n() + 1 && z.open@ == o.open@.drop_last() && z.open_lists@ == o.open_lists@.drop_last() && z.events@.last().kind is Exit,
        forall|i: int| 0 <= i < o.n() ==> same_kind(#[trigger] o.events@[i].kind, z.events@[i].kind),
    ensures z.inv(), z.kept(o, o.base(), o.lbase()), z.based(o.base(), o.lbase()), !z.has_list(), o.outer() ==> z.attr_ok(),
{
    lemma_stk(o.events@, o.n());
    assert(o.open@.last() == o.open@[o.open@.len() - 1]);
    let k = o.open_lists@.len() - 1;
    assert(o.list_ok(o.open_lists@[k]));
    lemma_list_parent(o.events@, o.n(), o.open@.len() - 1);
    lemma_stk(z.events@, z.n());
    assert(z.open@.last() == z.open@[z.open@.len() - 1]);
    let q = z.open@.last() as int;
    assert(same_kind(o.events@[q].kind, z.events@[q].kind));
    assert forall|i: int| 0 <= i < z.open_lists@.len() implies z.list_ok(#[trigger] z.open_lists@[i]) && z.open_lists@[i].depth < z.open@.len() by {
        let l = o.open_lists@[i];
        assert(o.list_ok(l));
        assert(l.depth < o.open_lists@[k].depth);
        assert(same_kind(o.events@[l.event as int].kind, z.events@[l.event as int].kind));
        if l.depth == z.open@.len() { assert(z.open@[l.depth - 1] == l.event); }
    }
    assert forall|i: int, j: int| 0 <= i < j < z.open_lists@.len() implies (#[trigger] z.open_lists@[i]).depth < (#[trigger] z.open_lists@[j]).depth by { assert(o.open_lists@[i].depth < o.open_lists@[j].depth); }
}
/// The tightness of the innermost list may change.
#[verifier::spinoff_prover]
proof fn lemma_next_flags<'s>(o: &TreeParser<'s>, p: &TreeParser<'s>, z: &TreeParser<'s>, s: SK)
    requires
        o.inv(), next_item(o, p, s), z.src == p.src, z.attr_start == p.attr_start, z.open_lists == p.open_lists, z.open_sections == p.open_sections, z.open == p.open, z.n() == p.n(),
        forall|i: int| 0 <= i < p.n() ==> (#[trigger] z.events@[i]).span == p.events@[i].span,
        forall|i: int| 0 <= i < p.n() && (p.open_lists@.len() > 0 ==> i != p.open_lists@.last().event) ==> (#[trigger] z.events@[i]).kind == p.events@[i].kind,
        p.open_lists@.len() > 0 ==> same_kind(p.events@[p.open_lists@.last().event as int].kind, z.events@[p.open_lists@.last().event as int].kind),
    ensures next_item(o, z, s)
{
    lemma_stk(p.events@, p.n());
    if p.open_lists@.len() > 0 { assert(p.open_lists@.last() == p.open_lists@[p.open_lists@.len() - 1]); }
    lemma_flags(p, z, p.open_lists@.len() - 1);
    lemma_kept(o, p, z, o.base(), o.lbase());
    if p.has_list() { assert(p.open@.last() == p.open@[p.open@.len() - 1]); lemma_list_parent(p.events@, p.n(), p.open@.len() - 1); }
    let q = p.open@[p.base() - 1] as int;
    assert(same_kind(p.events@[q].kind, z.events@[q].kind));
}
/// The block after the list before it has been closed or continued.
spec fn blocked<'s>(o: &TreeParser<'s>, p: &TreeParser<'s>, z: &TreeParser<'s>, s: SK) -> bool {
    let sec = s is Heading && docsec(o.around());
    &&& z.inv() && z.src == o.src
    &&& !sec ==> z.kept(o, o.base(), o.lbase()) && z.based(o.base(), o.lbase())
    &&& p.outer() ==> z.outer0()
    &&& z.has_list() ==> s is Item
    &&& s is Attrs ==> z.n() == p.n() + 1 && z.attr_start == p.attr_start && z.events@.last().kind is Atom && !z.has_list() && forall|i: int| 0 <= i < p.n() ==> (#[trigger] p.events@[i]).kind == z.events@[i].kind
}
#[verifier::spinoff_prover]
proof fn lemma_block_atom<'s>(o: &TreeParser<'s>, p: &TreeParser<'s>, z: &TreeParser<'s>, s: SK, e: Event<'s>)
    requires
        o.inv(), next_item(o, p, s), s is Blank || s is Attrs || s is Break, e.kind is Atom, rng_ok(sb(o.src), e.span),
        z.src == p.src, z.attr_start == p.attr_start, z.open_lists == p.open_lists, z.open_sections == p.open_sections, z.open == p.open, z.events@ == p.events@.push(e), z.n() < usize::MAX,
    ensures blocked(o, p, z, s)
{
    lemma_stk(p.events@, p.n());
    assert(p.open@.last() == p.open@[p.open@.len() - 1]);
    lemma_push(p.events@, e);
    assert forall|i: int| 0 <= i < z.n() implies rng_ok(sb(z.src), (#[trigger] z.events@[i]).span) by { if i < p.n() { assert(z.events@[i] == p.events@[i]); } }
    lemma_same(p, z);
    assert(z.kept(p, p.base(), p.lbase()));
    lemma_kept(o, p, z, o.base(), o.lbase());
    if p.outer() { lemma_outer(p, z); }
}
#[verifier::spinoff_prover]
proof fn lemma_block_leaf<'s>(o: &TreeParser<'s>, p: &TreeParser<'s>, z: &TreeParser<'s>, s: SK)
    requires
        o.inv(), next_item(o, p, s), !p.has_list(), !(s is Attrs), z.inv(), !z.has_list(), z.src == p.src, z.open_lists == p.open_lists,
        s is Heading && docsec(o.around()) ==> (p.outer() ==> z.outer0()),
        !(s is Heading && docsec(o.around())) ==> z.open_sections == p.open_sections && z.open@ == p.open@ && p.n() <= z.n() && forall|i: int| 0 <= i < p.n() ==> (#[trigger] p.events@[i]).kind == z.events@[i].kind,
    ensures blocked(o, p, z, s)
{
    if !(s is Heading && docsec(o.around())) {
        assert(z.kept(p, p.base(), p.lbase()));
        lemma_kept(o, p, z, o.base(), o.lbase());
        if p.outer() { lemma_outer(p, z); }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_block_container<'s>(o: &TreeParser<'s>, p: &TreeParser<'s>, z: &TreeParser<'s>, s: SK)
    requires
        o.inv(), next_item(o, p, s), z.inv(), z.kept(p, p.base(), p.lbase()), z.based(p.base(), p.lbase()), z.has_list() == (s is Item), !(s is Attrs), !(s is Heading),
    ensures blocked(o, p, z, s)
{
    lemma_kept(o, p, z, o.base(), o.lbase());
    if p.outer() { lemma_outer(p, z); }
}
proof fn lemma_block_end<'s>(o: &TreeParser<'s>, p: &TreeParser<'s>, y: &TreeParser<'s>, z: &TreeParser<'s>, s: SK)
    requires
        o.inv(), next_item(o, p, s), blocked(o, p, y, s), z.src == y.src, z.events == y.events, z.open == y.open, z.open_lists == y.open_lists, z.open_sections == y.open_sections,
        z.attr_start == (if s is Attrs { Some(match y.attr_start { Some(a) => a, None => (y.n() - 1) as usize }) } else { None }),
    ensures
        z.inv(), o.outer() ==> z.outer(), !(s is Heading && docsec(o.around())) ==> z.kept(o, o.base(), o.lbase()) && z.based(o.base(), o.lbase()),
{
    assert forall|i: int| 0 <= i < z.open_lists@.len() implies z.list_ok(#[trigger] z.open_lists@[i]) by { assert(y.list_ok(y.open_lists@[i])); }
    if o.outer() && s is Attrs {
        let a = z.attr_start->0 as int;
        assert forall|i: int| a <= i < z.n() implies (#[trigger] z.events@[i]).kind is Atom by { if i < p.n() { assert(p.events@[i].kind is Atom); } }
    }
}
/// The rows of a table follow the first without its indentation.
#[verifier::spinoff_prover]
proof fn lemma_tab<'s>(b: Bs, lz: Seq<Sp>, li: Seq<Sp>, e: int)
    requires
        lines_ok(b, lz), 1 <= li.len() <= lz.len(), ({ let b0 = part(b, lz[0]); let (s, a, e0) = ident(b0); e == e0 && id_ok(b0, s, a, e) && s is Table && forall|i: int| 1 <= i < li.len() && (forall|j: int| 1 <= j < i ==> !s_caption(trim(part(b, #[trigger] lz[j])))) ==> next_ok(s, part(b, #[trigger] lz[i])) }),
        li[0].start == lz[0].start + e, li[0].end == lz[0].end, forall|i: int| 1 <= i < li.len() ==> (#[trigger] li[i]) == lz[i],
    ensures tab_ok(b, li)
{
    let b0 = part(b, lz[0]);
    assert(part(b, li[0]) =~= b0.subrange(e, b0.len() as int));
    assert forall|i: int| 0 <= i < li.len() && (forall|j: int| 0 <= j < i ==> !s_caption(trim(part(b, #[trigger] li[j])))) implies ({ let t = trim(part(b, #[trigger] li[i])); blank(part(b, li[i])) || s_caption(t) || row_shape(t) }) by {
        if i > 0 {
            assert forall|j: int| 1 <= j < i implies !s_caption(trim(part(b, #[trigger] lz[j]))) by { assert(li[j] == lz[j]); }
            assert(next_ok(ident(b0).0, part(b, lz[i])));
        }
    }
}
proof fn lemma_total_less(lz: Seq<Sp>, lc: Seq<Sp>, l1: Seq<Sp>, li: Seq<Sp>)
    requires
        forall|k: int| 0 <= k < lz.len() ==> (#[trigger] lz[k]).start <= lz[k].end, 1 <= lc.len() <= lz.len(), lc == lz.subrange(0, lc.len() as int), shrunk(lc, l1), l1[0].start > lc[0].start, l1[0].end == lc[0].end,
        li == l1 || (exists|m: int| 1 <= m <= l1.len() && li == #[trigger] l1.subrange(1, m)),
    ensures total(li) < total(lz), total(li) >= 0
{
    lemma_total_sub(lz, 0, lc.len() as int);
    assert forall|k: int| 0 <= k < l1.len() implies (#[trigger] l1[k]).start <= l1[k].end by { assert(inside(l1[k], lc[k])); }
    assert forall|k: int| 0 <= k < li.len() implies (#[trigger] li[k]).start <= li[k].end by { if li != l1 { assert(inside(l1[k + 1], lc[k + 1])); } }
    lemma_total_shrunk(lc, l1, 0);
    if li != l1 {
        let m = choose|m: int| 1 <= m <= l1.len() && li == #[trigger] l1.subrange(1, m);
        lemma_total_sub(l1, 1, m);
    }
    lemma_total(li);
}
@end
@fn TreeParser::parse_block
    ret r
    attr #[verifier::spinoff_prover] #[verifier::rlimit(200)]
    case atom old(lines)@.len() == 0 || first_sk(sb(old(self).src), old(lines)@) is Blank || first_sk(sb(old(self).src), old(lines)@) is Attrs || first_sk(sb(old(self).src), old(lines)@) is Break
    case leaf old(lines)@.len() > 0 && (first_sk(sb(old(self).src), old(lines)@) is Para || first_sk(sb(old(self).src), old(lines)@) is Heading || first_sk(sb(old(self).src), old(lines)@) is Table)
    case fence old(lines)@.len() > 0 && first_sk(sb(old(self).src), old(lines)@) is Fence
    case def old(lines)@.len() > 0 && first_sk(sb(old(self).src), old(lines)@) is Def
    case quote old(lines)@.len() > 0 && first_sk(sb(old(self).src), old(lines)@) is Quote
    case item old(lines)@.len() > 0 && first_sk(sb(old(self).src), old(lines)@) is Item
    opt src_sub slice m_iter iter_count opt_filter eq matches bool_ops fn_last_mut m_trim_matches m_is_empty
    subst /lines.v_iter().map(|sp| v_sub(self.src, sp.clone()))/v_lines_of(self.src, lines)/
    subst /MeteredBlock::new(v_lines_of(self.src, lines))/v_new_block(self.src, lines)/
    subst /level.try_into().unwrap_or(u16::MAX)/v_u16_or_max(level)/
    subst /usize::from(*depth)/v_usize(*depth)/
    subst /(*depth).into()/v_usize(*depth)/
    subst /usize::from(has_closing_fence)/(if has_closing_fence { 1usize } else { 0 })/
    subst /line.len() - l.len()/v_rng_len(line) - l.len()/
    subst /v_last_mut(self.open_lists)/v_last_mut(&mut self.open_lists)/
    closure 2 |c: char| -> (r: bool) ensures r == cws(c)
    req
        old(self).inv(), top_level == docsec(old(self).around()), top_level ==> old(self).outer(), lines_ok(sb(old(self).src), old(lines)@),
    ens
        final(self).inv(), r <= old(lines)@.len(), (r == 0) == (old(lines)@.len() == 0), r == 0 ==> *final(self) == *old(self),
        final(lines)@.len() == old(lines)@.len(), forall|i: int| r <= i < old(lines)@.len() ==> (#[trigger] final(lines)@[i]) == old(lines)@[i],
        final(self).src == old(self).src,
        !top_level ==> final(self).kept(old(self), old(self).base(), old(self).lbase()) && final(self).based(old(self).base(), old(self).lbase()),
        top_level ==> final(self).outer(),
    dec
        total(old(lines)@), 0int,
    loop 0
        invariant_except_break
            __it0.left == __it0.s@.len() - __n0,
        invariant
            __n0 <= __it0.s@.len(), __it0.left <= __it0.s@.len(), __it0.s@ == ll, lines_ok(sb(self.src), ll), self.core(), ll.len() == line_count,
            forall|i: int| ll.len() - __n0 <= i < ll.len() ==> blank(part(sb(self.src), #[trigger] ll[i])),
        decreases __it0.left,
    loop 1
        invariant
            lines_ok(sb(self.src), lines@), shrunk(lc9, lines@), lines_ok(sb(self.src), lc9), 1 <= __n1, lines@[0] == l00, lines@.len() > 0, *self == *old(self), self.core(), kind == (Kind::Heading { level }),
            forall|j: int| __n1 <= j < lc9.len() ==> (#[trigger] lines@[j]) == lc9[j],
            forall|i: int| 1 <= i < lc9.len() ==> ident(part(sb(self.src), #[trigger] lc9[i])).0 is Para || ident(part(sb(self.src), lc9[i])).0 == SK::Heading(level as int),
        decreases lines@.len() - __n1,
    loop 2
        invariant_except_break
            __it2.pos == __n2,
        invariant
            __it2.wf(), __it2.s@ == l@, __n2 <= __it2.s@.len(), forall|i: int| 0 <= i < __n2 ==> ascii_ws(#[trigger] __it2.s@[i]),
        ensures
            __n2 < __it2.s@.len() ==> !ascii_ws(__it2.s@[__n2 as int]),
        decreases __it2.s@.len() - __it2.pos,
    loop 3
        invariant_except_break
            __it3.pos == __n3,
        invariant
            __it3.wf(), __it3.s@ == l@, __n3 <= __it3.s@.len(), forall|i: int| 0 <= i < __n3 ==> #[trigger] __it3.s@[i] == 35,
        ensures
            __n3 < __it3.s@.len() ==> __it3.s@[__n3 as int] != 35,
        decreases __it3.s@.len() - __it3.pos,
    loop 4
        invariant_except_break
            __it4.pos == __n4,
        invariant
            __it4.wf(), __it4.s@ == l@, __n4 <= __it4.s@.len(), forall|i: int| 0 <= i < __n4 ==> ascii_ws(#[trigger] __it4.s@[i]),
        decreases __it4.s@.len() - __it4.pos,
    at start
        let ghost lz = lines@;
    at let end_line before
        let ghost lc9 = lines@;
    at let lc before
        let ghost ll = lines@;
        proof { let b0 = part(sb(self.src), lz[0]); let e = ident(b0).2; assert(b0.subrange(e, b0.len() as int)[0] == b0[e]); lemma_not_blank(b0, e); }
    at let lc after
        proof { assert(lc >= 1) by { if lc == 0 { assert(blank(part(sb(self.src), ll[0]))); } } }
    at assign lines[0].start 0 after
        let ghost l00 = lines@[0];
    at let l 0 after
        let ghost b9 = l@;
        let ghost n9 = *line;
    at let l 1 after
        let ghost b8 = l@;
    at let l 2 after
        let ghost b7 = l@;
    at let l 3 after
        proof {
            let w = b9.len() - b8.len();
            let h = hash as int;
            assert forall|x: int| w <= x < w + h implies #[trigger] b9[x] == 35 by { assert(b9[x] == b8[x - w]); }
            assert forall|x: int| w + h <= x < w + h + post_ws implies ascii_ws(#[trigger] b9[x]) by { assert(b9[x] == b7[x - w - h]); }
            assert(b8.len() > 0 ==> b9[w] == b8[0]);
            assert(b7.len() > 0 ==> b9[w + h] == b7[0] && b7[0] == b8[h]);
            lemma_ascii_run(sb(self.src), n9, w + h + post_ws);
            if post_ws > 0 { lemma_heading_line(b9, level as int, w, h); }
        }
    at let lines 2 before
        let ghost l1 = lines@;
        proof {
            if l1[0].start != l00.start { lemma_ascii_boundary(sb(self.src), l00.start as int); }
            assert(shrunk(lc9, l1));
            assert(lines_ok(sb(self.src), l1));
        }
    at let lines 2 after
        let ghost li = lines@;
        proof { assert(lines_ok(sb(self.src), li)); }
    at if 4 before
        let ghost s9 = sk(kind);
    at call close_list before
        proof { assert(self.open_lists@ =~= old(self).open_lists@.drop_last()); assert(l == old(self).open_lists@.last()); }
    at if 10 before
        let ghost p1 = *self;
        proof { lemma_next_item(old(self), self, s9); }
    at let block before
        proof { lemma_next_flags(old(self), &p1, self, s9); }
        let ghost p2 = *self;
    at let block after
        let ghost bk = block;
    at call parse_table before
        proof { if s9 is Table { lemma_tab(sb(self.src), lz, li, e9); } }
    at call parse_container before
        proof {
            if bk is Container && !(s9 is Table) {
                lemma_total_less(lz, lc9, l1, li);
                assert(total(lines@) < total(lz)); // the measure of the recursion
            }
        }
    at if 16 before
        let ghost p3 = *self;
        proof {
            axiom_len(&self.events);
            match bk {
                Block::Atom(_) => { lemma_block_atom(old(self), &p2, self, s9, self.events@.last()); }
                Block::Leaf(_) | Block::Container(Container::Table) => { lemma_block_leaf(old(self), &p2, self, s9); }
                _ => { lemma_block_container(old(self), &p2, self, s9); }
            }
        }
    at if 16 after
        proof { lemma_block_end(old(self), &p2, &p3, self, s9); }
    at if 0 then
        let ghost e9 = ident(part(sb(self.src), lz[0])).2;
@end
@raw
// ---- the document
/// Lines one after the other, up to `n`.
#[verifier::opaque]
spec fn tiled(b: Bs, ls: Seq<Sp>, n: int) -> bool {
    &&& lines_ok(b, ls)
    &&& ls.len() == 0 ==> n == 0
    &&& ls.len() > 0 ==> ls[0].start == 0 && ls.last().end == n
    &&& forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).start < ls[i].end
    &&& forall|i: int| 0 <= i < ls.len() - 1 ==> (#[trigger] ls[i]).end == ls[i + 1].start && b[ls[i].end - 1] == 10
    &&& forall|i: int| 0 <= i < ls.len() ==> one_line(b, #[trigger] ls[i])
}
/// There is no line break but at the end.
#[verifier::opaque]
spec fn one_line(b: Bs, r: Sp) -> bool { forall|x: int| r.start <= x < r.end - 1 ==> #[trigger] b[x] != 10 }
proof fn lemma_tiled0(b: Bs, ls: Seq<Sp>)
    requires ls.len() == 0
    ensures tiled(b, ls, 0)
{ reveal(tiled); }
/// Adding the next line.
proof fn lemma_tiled(b: Bs, ls: Seq<Sp>, s: int, e: int)
    requires
        tiled(b, ls, s), valid_utf8(b), 0 <= s < e <= b.len() <= usize::MAX, bnd(b, s), bnd(b, e), ls.len() > 0 ==> b[s - 1] == 10, forall|x: int| s <= x < e - 1 ==> #[trigger] b[x] != 10,
    ensures tiled(b, ls.push((s as usize)..(e as usize)), e)
{
    reveal(tiled);
    let r = (s as usize)..(e as usize);
    let z = ls.push(r);
    assert(rng_ok(b, r));
    assert forall|i: int| 0 <= i < z.len() implies rng_ok(b, #[trigger] z[i]) by { if i < ls.len() { assert(z[i] == ls[i]); } }
    assert forall|i: int| 0 <= i < z.len() - 1 implies (#[trigger] z[i]).end == z[i + 1].start && b[z[i].end - 1] == 10 by { assert(z[i] == ls[i]); if i == ls.len() - 1 { assert(ls.last() == ls[i]); } else { assert(z[i + 1] == ls[i + 1]); } }
    assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).start < z[i].end by { if i < ls.len() { assert(z[i] == ls[i]); } }
    assert(one_line(b, r)) by { reveal(one_line); }
    assert forall|i: int| 0 <= i < z.len() implies one_line(b, #[trigger] z[i]) by { if i < ls.len() { assert(z[i] == ls[i]); } }
    if ls.len() > 0 { assert(z[0] == ls[0]); }
}
@end
@fn lines
    ret r: Vec<Sp>
    opt from_fn m_chars m_len m_is_empty
    closure 1 |c: &char| -> (r: bool) ensures r == (*c == '\n')
    req
        sb(src).len() < 0x7fff_ffff,
    ens
        tiled(sb(src), r@, sb(src).len() as int),
    loop 0
        invariant
            chars.full(), sb(chars.s) == sb(src), chars.back == sb(src).len(), tiled(sb(src), __v0@, chars.pos as int), sb(src).len() < 0x7fff_ffff, valid_utf8(sb(src)),
            0 < chars.pos < chars.back ==> sb(src)[chars.pos - 1] == 10, (chars.pos == 0) == (__v0@.len() == 0),
        ensures
            chars.pos == chars.back,
        decreases chars.back - chars.pos
    at start
        proof { lemma_valid(src); lemma_tiled0(sb(src), Seq::<Sp>::empty()); }
    at let end after
        proof {
            let b = sb(src);
            if start < end {
                assert forall|x: int| start <= x < end - 1 implies #[trigger] b[x] != 10 by { if b[x] == 10 { assert(b[x] as char == '\n'); } }
                assert(start == 0 ==> __v0@.len() == 0);
                lemma_tiled(b, __v0@, start as int, end as int);
            }
        }
@end
@raw
/// The elements of a vector, moved out (stands for std::vec::Drain of std::mem::take).
struct VDrain<T> { v: Vec<T>, pos: usize }
impl<T: Copy> VDrain<T> {
    spec fn wf(&self) -> bool { self.pos <= self.v@.len() }
    spec fn left(&self) -> int { self.v@.len() - self.pos }
    fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).v == old(self).v, r is Some <==> old(self).left() > 0,
            r matches Some(x) ==> x == old(self).v@[old(self).pos as int] && final(self).left() == old(self).left() - 1,
            r is None ==> final(self).left() == old(self).left(),
    {
        if self.pos < self.v.len() { let x = self.v[self.pos]; self.pos = self.pos + 1; Some(x) } else { None }
    }
}
fn v_take_all<T: Copy>(v: &mut Vec<T>) -> (r: VDrain<T>)
    ensures r.wf(), r.left() == old(v)@.len(), r.v@ == old(v)@, final(v)@.len() == 0
{
    let mut w = Vec::new();
    w.append(v);
    VDrain { v: w, pos: 0 }
}
/// The events of a document: one tree of blocks, with spans in the source.
spec fn doc_ok(b: Bs, e: Evs) -> bool {
    &&& e.len() >= 2 && stk(e, e.len() as int) == Some(Seq::<usize>::empty())
    &&& e[0].kind == EventKind::Enter(Node::Container(Container::Document)) && e.last().kind == EventKind::Exit(Node::Container(Container::Document))
    // the document is not left before
    &&& forall|i: int| 1 <= i < e.len() ==> (#[trigger] stk(e, i)) is Some && stk(e, i)->0.len() >= 1 && stk(e, i)->0[0] == 0
    &&& forall|i: int| 0 <= i < e.len() ==> rng_ok(b, (#[trigger] e[i]).span)
}
@end
@fn TreeParser::parse
    ret r
    opt slice
    subst /.collect::<Vec<_>>()//
    subst /std::mem::take(&mut __me.open_sections).drain(..)/v_take_all(&mut __me.open_sections)/
    subst /v_mut_from(lines, line_pos)/v_vmut_from(&mut lines, line_pos)/
    subst /__me.src.len()/__me.src.v_len()/
    subst /__me.open == &[]/__me.open.len() == 0/
    req
        self.core(), self.n() == 0, self.open_lists@.len() == 0, self.open_sections@.len() == 0, self.attr_start is None, self.open@.len() == 0,
    ens
        doc_ok(sb(self.src), r@),
    loop 0
        invariant
            self.inv(), self.outer(), self.src == s0, line_pos <= lines@.len(), forall|i: int| line_pos <= i < lines@.len() ==> rng_ok(sb(s0), #[trigger] lines@[i]),
        decreases lines@.len() - line_pos,
    loop 1
        invariant_except_break
            g9 == self,
        invariant
            self.inv(), self.outer(), self.src == s0, bnd(sb(s0), sb(s0).len() as int),
        ensures
            self.inv(), self.outer(), self.src == s0, self.open_lists@.len() == 0,
        decreases self.open_lists@.len(),
    loop 2
        invariant
            self.core(), self.src == s0, bnd(sb(s0), sb(s0).len() as int), __it2.wf(), self.open@.len() == 1 + __it2.left(), self.open@[0] == 0, enter_of(self.events@[0]) == Some(Node::Container(Container::Document)),
            !fresh(self.events@, self.open@, self.n()),
        ensures
            self.open@.len() == 1,
        decreases __it2.left(),
    at start
        let ghost s0 = self.src;
        proof { lemma_valid(self.src); }
    at let lines 0 after
        proof { reveal(tiled); assert(self.open@ =~= seq![0usize]); assert(self.inv()); assert(self.outer()); }
    at loop 1 before
        let ghost mut g9 = self;
    at call close_list before
        proof { assert(g9.list_ok(l)); }
    at call close_list after
        proof { lemma_next_item(&g9, &self, SK::Para); g9 = self; }
    at loop 2 before
        let ghost e1 = self.events@;
    at loop 2 end
        proof { lemma_stk(self.events@, self.n()); }
    at call exit 1 before
        let ghost (e8, o8) = (self.events@, self.open@);
        proof { lemma_stk(e8, self.n()); }
    at end
        proof {
            assert(self.open@ =~= Seq::<usize>::empty());
            assert(stk(self.events@, self.n()) == Some(Seq::<usize>::empty()));
            let n = self.n();
            lemma_stk(self.events@, n - 1);
            lemma_prefix(e8, self.events@, n - 1);
            assert(stk(self.events@, n - 1) == Some(o8));
            assert forall|i: int| 1 <= i < n implies (#[trigger] stk(self.events@, i)) is Some && stk(self.events@, i)->0.len() >= 1 && stk(self.events@, i)->0[0] == 0 by { lemma_mid(self.events@, i, n - 1, 0); }
        }
@end
@fn parse
    ret r
    req
        sb(src).len() < 0x7fff_ffff,
    ens
        doc_ok(sb(src), r@),
@end
