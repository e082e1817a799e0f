// List numbers and types.
@include chars.vc
@file src/lib.rs
@item enum OrderedListNumbering
@item enum OrderedListStyle
@item enum Alignment
@file src/block.rs
@item use crate::OrderedListNumbering::AlphaLower
@item use crate::OrderedListNumbering::AlphaUpper
@item use crate::OrderedListNumbering::Decimal
@item use crate::OrderedListNumbering::RomanLower
@item use crate::OrderedListNumbering::RomanUpper
@item use crate::OrderedListStyle::Paren
@item use crate::OrderedListStyle::ParenParen
@item use crate::OrderedListStyle::Period
@item use Atom::*
@item use Container::*
@item use Leaf::*
@item use ListType::*
@item enum Block derive Clone,Copy
@item enum Atom
@item enum Leaf derive Clone,Copy
@item enum Container derive Clone,Copy
@item enum ListItemKind
@item enum ListType
@item struct ListNumber
@raw
/// Equality as the derived one (of plain enumerations, numbers and characters).
trait VEq { spec fn eqs(&self, o: &Self) -> bool; fn eq_(&self, o: &Self) -> (r: bool) ensures r == self.eqs(o); }
fn v_eq<T: VEq>(a: T, b: T) -> (r: bool) ensures r == a.eqs(&b) { a.eq_(&b) }
impl<T: VEq> VEq for &T { spec fn eqs(&self, o: &Self) -> bool { (**self).eqs(*o) } fn eq_(&self, o: &Self) -> bool { (**self).eq_(*o) } }
impl VEq for u64 { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for usize { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for u8 { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for char { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for bool { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for OrderedListNumbering { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for OrderedListStyle { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for ListNumber { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl VEq for ListType { spec fn eqs(&self, o: &Self) -> bool { *self == *o } fn eq_(&self, o: &Self) -> bool { *self == *o } }
impl<T: VEq> VEq for Option<T> {
    spec fn eqs(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a.eqs(b), (None, None) => true, _ => false } }
    fn eq_(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a.eq_(b), (None, None) => true, _ => false } }
}
fn v_us(b: bool) -> (n: usize) ensures n == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }

// ---- list numbers
spec fn roman_v(c: u8) -> int {
    if c == 105 || c == 73 { 1 } else if c == 118 || c == 86 { 5 } else if c == 120 || c == 88 { 10 } else if c == 108 || c == 76 { 50 }
    else if c == 99 || c == 67 { 100 } else if c == 100 || c == 68 { 500 } else if c == 109 || c == 77 { 1000 } else { 0 }
}
spec fn roman_lower(c: u8) -> bool { c == 105 || c == 118 || c == 120 || c == 108 || c == 99 || c == 100 || c == 109 }
spec fn roman_upper(c: u8) -> bool { c == 73 || c == 86 || c == 88 || c == 76 || c == 67 || c == 68 || c == 77 }
/// Value of the roman numeral from `i` on: a digit before a larger one counts negative.
spec fn roman(b: Bs, i: int) -> int
    decreases b.len() - i
{
    if i < 0 || i >= b.len() { 0 } else {
        let v = roman_v(b[i]);
        let n = if i + 1 < b.len() { roman_v(b[i + 1]) } else { 0 };
        if v < n { roman(b, i + 1) - v } else { roman(b, i + 1) + v }
    }
}
/// Least value of a numeral that starts with the digit `v`.
spec fn roman_min(v: int) -> int {
    if v == 5 { 1 } else if v == 10 { 6 } else if v == 50 { 16 } else if v == 100 { 66 } else if v == 500 { 166 } else if v == 1000 { 666 } else { 0 }
}
spec fn dec(b: Bs) -> int
    decreases b.len()
{ if b.len() == 0 { 0 } else { dec(b.drop_last()) * 10 + (b.last() - 48) } }
/// The number that the characters `b` of a marker stand for.
spec fn num_value(n: OrderedListNumbering, b: Bs) -> int {
    match n {
        OrderedListNumbering::Decimal => dec(b),
        OrderedListNumbering::AlphaLower => b[0] - 97 + 1,
        OrderedListNumbering::AlphaUpper => b[0] - 65 + 1,
        _ => roman(b, 0),
    }
}
spec fn num_char(n: OrderedListNumbering, c: u8) -> bool {
    match n {
        OrderedListNumbering::Decimal => 48 <= c <= 57,
        OrderedListNumbering::AlphaLower => 97 <= c <= 122,
        OrderedListNumbering::AlphaUpper => 65 <= c <= 90,
        OrderedListNumbering::RomanLower => roman_lower(c),
        OrderedListNumbering::RomanUpper => roman_upper(c),
    }
}
spec fn num_max(n: OrderedListNumbering) -> int {
    match n { OrderedListNumbering::Decimal => 19, OrderedListNumbering::AlphaLower => 1, OrderedListNumbering::AlphaUpper => 1, _ => 13 }
}
spec fn num_bytes(n: OrderedListNumbering, b: Bs) -> bool {
    1 <= b.len() <= num_max(n) && forall|i: int| 0 <= i < b.len() ==> num_char(n, #[trigger] b[i])
}
/// Numbers of markers are never too large.
spec fn num_ok(n: ListNumber) -> bool {
    match n.numbering {
        OrderedListNumbering::Decimal => n.value < 10_000_000_000_000_000_000,
        OrderedListNumbering::AlphaLower | OrderedListNumbering::AlphaUpper => 1 <= n.value <= 26,
        _ => n.value <= 13_000,
    }
}
spec fn ty_ok(t: ListType) -> bool { t matches ListType::Ordered(n, _) ==> num_ok(n) }

/// The letter with the value of a roman digit.
spec fn amb_letter(v: u64) -> int {
    if v == 1 { 9 } else if v == 5 { 22 } else if v == 10 { 24 } else if v == 50 { 12 } else if v == 100 { 3 } else if v == 500 { 4 } else if v == 1000 { 13 } else { 0 }
}
spec fn s_ambiguity(n: ListNumber) -> Option<ListNumber> {
    if (n.numbering == OrderedListNumbering::RomanLower || n.numbering == OrderedListNumbering::RomanUpper) && amb_letter(n.value) > 0 {
        Some(ListNumber {
            numbering: if n.numbering == OrderedListNumbering::RomanLower { OrderedListNumbering::AlphaLower } else { OrderedListNumbering::AlphaUpper },
            value: amb_letter(n.value) as u64,
        })
    } else { None }
}
spec fn s_alternative(t: ListType) -> Option<ListType> {
    match t {
        ListType::Ordered(n, s) => match s_ambiguity(n) { Some(n) => Some(ListType::Ordered(n, s)), None => None },
        _ => None,
    }
}
/// Whether an item of type `b` continues a list whose previous item has type `a`; the two as they are then read.
spec fn s_continues(a: ListType, b: ListType) -> Option<(ListType, ListType)> {
    if a == b { Some((a, b)) } else {
        match (a, b) {
            (ListType::Ordered(n0, s0), ListType::Ordered(n1, s1)) =>
                if s0 != s1 { None }
                else if n0.numbering == n1.numbering { Some((a, b)) }
                else {
                    match s_ambiguity(n0) {
                        Some(m0) => if m0.numbering == n1.numbering && m0.value + 1 == n1.value { Some((ListType::Ordered(m0, s0), b)) } else { None },
                        None => match s_ambiguity(n1) {
                            Some(m1) => if n0.numbering == m1.numbering && n0.value + 1 == m1.value { Some((a, ListType::Ordered(m1, s1))) } else { None },
                            None => None,
                        },
                    }
                },
            _ => None,
        }
    }
}

proof fn lemma_roman(b: Bs, i: int)
    requires 0 <= i < b.len(), forall|k: int| 0 <= k < b.len() ==> roman_v(#[trigger] b[k]) > 0
    ensures roman_min(roman_v(b[i])) <= roman(b, i) <= 1000 * (b.len() - i)
    decreases b.len() - i
{
    let v = roman_v(b[i]);
    assert(v > 0);
    if i + 1 < b.len() { lemma_roman(b, i + 1); assert(roman_v(b[i + 1]) > 0); } else { assert(roman(b, i + 1) == 0); }
}
proof fn lemma_dec(b: Bs)
    requires forall|k: int| 0 <= k < b.len() ==> 48 <= #[trigger] b[k] <= 57
    ensures 0 <= dec(b) < vstd::arithmetic::power::pow(10, b.len())
    decreases b.len()
{
    vstd::arithmetic::power::lemma_pow0(10);
    if b.len() > 0 {
        lemma_dec(b.drop_last());
        assert(48 <= b[b.len() - 1] <= 57);
        assert(vstd::arithmetic::power::pow(10, b.len()) == 10 * vstd::arithmetic::power::pow(10, (b.len() - 1) as nat)) by { reveal(vstd::arithmetic::power::pow); }
    }
}
/// str::parse::<u64>() of up to 19 digits (assumed contract).
#[verifier::external_body]
fn v_parse_dec(n: &str) -> (v: u64)
    requires num_bytes(OrderedListNumbering::Decimal, sb(n))
    ensures v == dec(sb(n))
{ n.parse().unwrap() }
/// Value of a single letter (assumed contract of an iterator chain that is not extracted; every letter is
/// checked end to end).
#[verifier::external_body]
fn v_parse_alpha(a: OrderedListNumbering, n: &str) -> (v: u64)
    requires num_bytes(a, sb(n)), a == OrderedListNumbering::AlphaLower || a == OrderedListNumbering::AlphaUpper
    ensures v == num_value(a, sb(n))
{ unimplemented!() }
@end
@raw
proof fn lemma_roman_letters()
    ensures
        sb("i") == seq![105u8], sb("v") == seq![118u8], sb("x") == seq![120u8], sb("l") == seq![108u8], sb("c") == seq![99u8], sb("d") == seq![100u8], sb("m") == seq![109u8],
{
    broadcast use group_utf8_lib;
    reveal_strlit("i"); reveal_strlit("v"); reveal_strlit("x"); reveal_strlit("l"); reveal_strlit("c"); reveal_strlit("d"); reveal_strlit("m");
    assert(is_ascii_chars("i"@) && is_ascii_chars("v"@) && is_ascii_chars("x"@) && is_ascii_chars("l"@) && is_ascii_chars("c"@) && is_ascii_chars("d"@) && is_ascii_chars("m"@));
    assert(sb("i") =~= seq![105u8]); assert(sb("v") =~= seq![118u8]); assert(sb("x") =~= seq![120u8]); assert(sb("l") =~= seq![108u8]);
    assert(sb("c") =~= seq![99u8]); assert(sb("d") =~= seq![100u8]); assert(sb("m") =~= seq![109u8]);
}
/// Number of ASCII letters among the first `i` bytes.
spec fn letters(b: Bs, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { letters(b, i - 1) + (if 65 <= b[i - 1] <= 90 || 97 <= b[i - 1] <= 122 { 1int } else { 0 }) } }
@end
@file src/lib.rs
@fn OrderedListNumbering::parse_number/value
    ret r
    req
        (d as u32) < 128, roman_v(d as u8) > 0,
    ens
        r == roman_v(d as u8),
@end
@fn OrderedListNumbering::parse_number
    ret r
    opt hoist m_chars matches
    req
        num_bytes(self, sb(n)),
    ens
        r == num_value(self, sb(n)), num_ok(ListNumber { numbering: self, value: r }),
    subst /n.parse().unwrap()/v_parse_dec(n)/
    at arm 1 replace
        { v_parse_alpha(self, n) }
    loop 0
        invariant
            (self == OrderedListNumbering::RomanLower || self == OrderedListNumbering::RomanUpper) && num_bytes(self, sb(n)),
            __it0.c.wf(), sb(__it0.c.s) == sb(n), __it0.c.pos == 0,
            sum == roman(sb(n), __it0.c.back as int), prev == (if __it0.c.back < sb(n).len() { roman_v(sb(n)[__it0.c.back as int]) } else { 0 }),
        ensures
            __it0.c.back == 0,
        decreases __it0.c.back,
    at loop 0 start
        proof {
            let i = __it0.c.back as int;
            let b = sb(n);
            assert(num_char(self, b[i]));
            assert(b[i] < 128);
            assert forall|k: int| 0 <= k < b.len() implies roman_v(#[trigger] b[k]) > 0 by { assert(num_char(self, b[k])); }
            lemma_roman(b, i);
            if i + 1 < b.len() { lemma_roman(b, i + 1); }
            assert(roman(b, b.len() as int) == 0);
        }
    at start
        proof {
            if self == OrderedListNumbering::Decimal {
                assert forall|k: int| 0 <= k < sb(n).len() implies 48 <= #[trigger] sb(n)[k] <= 57 by { assert(num_char(self, sb(n)[k])); }
                lemma_dec(sb(n)); vstd::arithmetic::power::lemma_pow_increases(10, sb(n).len(), 19);
                assert(vstd::arithmetic::power::pow(10, 19) == 10_000_000_000_000_000_000) by (compute);
            } else if self != OrderedListNumbering::AlphaLower && self != OrderedListNumbering::AlphaUpper {
                assert forall|k: int| 0 <= k < sb(n).len() implies roman_v(#[trigger] sb(n)[k]) > 0 by { assert(num_char(self, sb(n)[k])); }
                lemma_roman(sb(n), 0);
            } else { assert(num_char(self, sb(n)[0])); }
        }
@end
@fn OrderedListStyle::number
    ret r
    opt slice matches
    req
        sb(marker).len() >= (if self == OrderedListStyle::ParenParen { 2int } else { 1int }),
        forall|k: int| 0 <= k < sb(marker).len() ==> #[trigger] sb(marker)[k] < 128,
    ens
        sb(r) == sb(marker).subrange(if self == OrderedListStyle::ParenParen { 1int } else { 0int }, sb(marker).len() - 1),
    subst /usize::from(/v_us(/
    subst /marker.len()/marker.v_len()/
    at start
        proof { lemma_valid(marker); lemma_ascii_boundary(sb(marker), 0); lemma_ascii_boundary(sb(marker), sb(marker).len() - 1); }
@end
@file src/block.rs
@fn ListNumber::ambiguity
    ret r
    opt opt_map eq
    req
        num_ok(self),
    ens
        r == s_ambiguity(self), r is Some ==> num_ok(r->0),
    at start
        proof { lemma_roman_letters(); }
@end
@fn ListType::alternative
    ret r
    opt opt_map
    req
        ty_ok(*self),
    ens
        r == s_alternative(*self), r is Some ==> ty_ok(r->0),
@end
@fn ListType::continues
    ret r
    opt eq match_guards
    req
        ty_ok(*self), ty_ok(*other),
    ens
        r == s_continues(*self, *other), r matches Some((a, b)) ==> ty_ok(a) && ty_ok(b),
@end
@fn is_single_letter
    ret r
    opt m_bytes iter_count
    ens
        r == (letters(sb(marker), sb(marker).len() as int) == 1),
    loop 0
        invariant
            __it0.wf(), __it0.s@ == sb(marker), __n0 == letters(sb(marker), __it0.pos as int), __n0 <= __it0.pos,
        ensures
            __it0.pos == sb(marker).len(),
        decreases __it0.s@.len() - __it0.pos,
    subst /u8::is_ascii_alphabetic(__v)/__v.is_ascii_alphabetic()/
@end
