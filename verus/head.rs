#![allow(unused, non_camel_case_types, non_upper_case_globals, dead_code)]
use vstd::prelude::*;
