#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_macros)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
use vstd::string::*;
//@include std.inc
//@include char.inc
//@include opt.inc
//@include fmt.inc
use xstd::*;
use xchar::*;
use xopt::*;
use fmt::{x_new_string, x_push_arg, x_write_str, x_write_arg};
verus! {
//@include gen.inc
}
fn main() {}
