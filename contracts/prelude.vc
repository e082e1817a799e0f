// Common head of all units: imports and assumed contracts of the standard library.
@raw
#![allow(unused_parens, unused_braces, unused_imports, dead_code, unused_variables, unused_mut, unused_labels, unused_assignments, unreachable_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {

/// Stands for panic!/unreachable!/failed assertions: proving a call unreachable proves their absence.
#[verifier::external_body]
fn vpanic() -> !
    requires false,
{ panic!() }

// ---- assumed contracts of the standard library (listed in the evidence)
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });

pub assume_specification<T>[ core::mem::replace ](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;
pub assume_specification[ u8::is_ascii_whitespace ](c: &u8) -> (r: bool)
    ensures r == ascii_ws(*c);
pub assume_specification[ u8::is_ascii_punctuation ](c: &u8) -> (r: bool)
    ensures r == ascii_punct(*c);
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool)
    ensures r == ascii_alnum(*c);

pub open spec fn ascii_ws(c: u8) -> bool { c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }
pub open spec fn ascii_punct(c: u8) -> bool { 33 <= c <= 47 || 58 <= c <= 64 || 91 <= c <= 96 || 123 <= c <= 126 }
pub open spec fn ascii_alnum(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 }

type Bs = vstd::seq::Seq<u8>;

/// Iterator over the bytes of a slice: what remains is the rest of `s` from `it_pos` on.
#[verifier::prophetic]
spec fn it_ok(it: core::slice::Iter<'_, u8>, s: Bs) -> bool {
    &&& it.obeys_prophetic_iter_laws()
    &&& it.decrease() is Some
    &&& it.remaining().len() <= s.len()
    &&& forall|i: int| 0 <= i < it.remaining().len() ==> *(#[trigger] it.remaining()[i]) == s[s.len() - it.remaining().len() + i]
}
#[verifier::prophetic]
spec fn it_pos(it: core::slice::Iter<'_, u8>, s: Bs) -> int { s.len() - it.remaining().len() }

/// `x.iter().find(f)` (verified here against the contract of the slice iterator).
fn v_iter_find<'a, T, F: Fn(&&'a T) -> bool>(x: &'a [T], f: F) -> (r: Option<&'a T>)
    requires
        forall|c: &&'a T| call_requires(f, (c,)),
    ensures
        r is None ==> forall|i: int| 0 <= i < x@.len() ==> call_ensures(f, (&&(#[trigger] x@[i]),), false),
        r is Some ==> exists|k: int| 0 <= k < x@.len() && *r->0 == #[trigger] x@[k]
            && call_ensures(f, (&&x@[k],), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(f, (&&(#[trigger] x@[i]),), false),
{
    let mut it = x.iter();
    while let Some(c) = it.next()
        invariant
            it.obeys_prophetic_iter_laws(), it.decrease() is Some,
            forall|c: &&'a T| call_requires(f, (c,)),
            it.remaining().len() <= x@.len(),
            forall|i: int| 0 <= i < it.remaining().len() ==> *(#[trigger] it.remaining()[i]) == x@[x@.len() - it.remaining().len() + i],
            forall|i: int| 0 <= i < x@.len() - it.remaining().len() ==> call_ensures(f, (&&(#[trigger] x@[i]),), false),
        ensures
            it.remaining().len() == 0,
        decreases it.decrease()->0,
    {
        assert(*c == x@[x@.len() - it.remaining().len() - 1]);
        if f(&c) { return Some(c); }
    }
    None
}
@end
