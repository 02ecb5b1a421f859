// Contracts assumed of char's ASCII methods
pub mod xchar {
#[allow(unused_imports)]
use vstd::prelude::*;
verus! {
pub open spec fn is_up(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_low(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn up(c: char) -> char { if is_low(c) { ((c as u32) - 32) as char } else { c } }
pub open spec fn low(c: char) -> char { if is_up(c) { ((c as u32) + 32) as char } else { c } }
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char) ensures r == up(*c);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures r == low(*c);
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == is_up(*c);
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == is_low(*c);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == (is_up(*c) || is_low(*c));
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
} // verus!
}
