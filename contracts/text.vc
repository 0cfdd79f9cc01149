@fn mangled_string::
@extra
impl<'string> MangledString<'string> {
    pub open spec fn v(self) -> Seq<char> { self.string@ }
    pub open spec fn wf(self) -> bool { self.chars == self.string@.len() }
}

@fn extensions::CharExt#
@extra
    spec fn cv(&self) -> char;

@fn extensions::char::CharExt#
@extra
    open spec fn cv(&self) -> char { *self }

@fn extensions::CharExt::is_rebased_ascii_hexdigit
@own C06
@spec
  ensures r == is_rhex(self.cv())

@fn extensions::CharExt::try_convert_rebased_ascii_hexdigit_to_number
@own C06
@spec
  ensures
    is_rhex(self.cv()) ==> r == Some(rhex(self.cv()) as u8),
    !is_rhex(self.cv()) ==> r is None,

@fn extensions::char::CharExt::is_rebased_ascii_hexdigit
@own C06

@fn extensions::char::CharExt::try_convert_rebased_ascii_hexdigit_to_number
@own C06

@fn mangled_string::MangledString::new
@own C15
@spec
  ensures r.wf(), r.v() == string@

@macro taken(n)
    final(self).wf(), final(self).v() == old(self).v().subrange($n, old(self).v().len() as int)

@fn mangled_string::MangledString::try_consume
@own C15
@spec
  requires old(self).wf()
  ensures
    final(self).wf(),
    (r is Some) == (old(self).v().len() > 0),
    r matches Some(c) ==> c == old(self).v()[0] && final(self).v() == old(self).v().subrange(1, old(self).v().len() as int),
    r is None ==> *final(self) == *old(self),
@entry
  broadcast use group_str;

@fn mangled_string::MangledString::try_consume_char
@own C15
@spec
  requires old(self).wf()
  ensures
    final(self).wf(),
    r is Some == at(old(self).v(), expected),
    r matches Some(c) ==> c == expected && final(self).v() == old(self).v().subrange(1, old(self).v().len() as int),
    r is None ==> *final(self) == *old(self),
@entry
  broadcast use group_str;

@fn mangled_string::MangledString::try_consume_char_if
@own C15
@spec
  requires old(self).wf(), forall|c: char| #[trigger] f.requires((&c,))
  ensures
    final(self).wf(),
    old(self).v().len() == 0 ==> r is None,
    r matches Some(c) ==> old(self).v().len() > 0 && c == old(self).v()[0] && f.ensures((&c,), true) && final(self).v() == old(self).v().subrange(1, old(self).v().len() as int),
    r is None ==> *final(self) == *old(self),
    r is None && old(self).v().len() > 0 ==> f.ensures((&old(self).v()[0],), false),
@entry
  broadcast use group_str;

@fn mangled_string::MangledString::try_consume_n_bytes
@own C15
@spec
  requires old(self).wf()
  ensures
    final(self).wf(),
    r is Some == is_bound(old(self).v(), n as int),
    r matches Some(t) ==> t@ == old(self).v().subrange(0, cut(old(self).v(), n as int)) && final(self).v() == old(self).v().subrange(cut(old(self).v(), n as int), old(self).v().len() as int),
    r is None ==> *final(self) == *old(self),
@entry
  broadcast use group_str;

@fn mangled_string::MangledString::try_consume_n_chars
@own C15
@spec
  requires old(self).wf()
  ensures
    final(self).wf(),
    (r is Some) == (old(self).v().len() >= N),
    r matches Some(t) ==> t@ == old(self).v().subrange(0, N as int) && final(self).v() == old(self).v().subrange(N as int, old(self).v().len() as int),
    r is None ==> *final(self) == *old(self),
@loop 0
  invariant
    iter.v() == (self.v(), x__1 as int), *self == *old(self), self.wf(), x__1 <= self.v().len(),
    forall|j: int| 0 <= j < x__1 ==> chars@[j] == self.v()[j],
@entry
  broadcast use group_str;
@after loop
  proof { assert(chars@ =~= self.v().subrange(0, N as int)); }

@fn mangled_string::MangledString::try_consume_str
@own C15
@spec
  requires old(self).wf()
  ensures
    final(self).wf(),
    r is Some == starts(old(self).v(), s@),
    r matches Some(t) ==> t@ == s@ && final(self).v() == old(self).v().subrange(s@.len() as int, old(self).v().len() as int) && old(self).v().len() >= s@.len(),
    r is None ==> *final(self) == *old(self),
@entry
  broadcast use group_str;
  proof {
    if starts(self.v(), s@) {
      assert(self.v().subrange(0, s@.len() as int) =~= s@);
      lemma_cut(self.v(), s@.len() as int);
    }
  }

@fn mangled_string::MangledString::as_str
@own C15
@spec
  ensures r@ == self.v()

@fn mangled_string::MangledString::find_char
@own C15
@spec
  ensures
    (r is Some) == (find(self.v(), needle) is Some),
    r matches Some(i) ==> i == boff(self.v(), find(self.v(), needle)->0) && is_bound(self.v(), i as int),
@loop 0
  invariant
    x__1.v().0 == self.v(), 0 <= x__1.v().1 <= self.v().len(),
    find_from(self.v(), needle, 0) == find_from(self.v(), needle, x__1.v().1),
  ensures
    find_from(self.v(), needle, 0) is None,
  decreases self.v().len() - x__1.v().1
@before return
  proof { lemma_cut(self.v(), x__1.v().1 - 1); }
@entry
  broadcast use group_str;

@fn mangled_string::MangledString::first_char
@own C15
@spec
  ensures r == (if self.v().len() > 0 { Some(self.v()[0]) } else { None::<char> })

@fn mangled_string::MangledString::is_empty
@own C15
@spec
  ensures r == (self.v().len() == 0)

@fn mangled_string::MangledString::last_char
@own C15
@spec
  ensures r == (if self.v().len() > 0 { Some(self.v().last()) } else { None::<char> })

@fn mangled_string::MangledString::len_bytes
@own C15
@spec
  ensures r == ulen(self.v())

@fn mangled_string::MangledString::len_chars
@own C15
@spec
  requires self.wf()
  ensures r == self.v().len()

@fn mangled_string::MangledString::slice
@own C15
@spec
  requires is_bound(self.v(), index.end as int)
  ensures r.wf(), r.v() == self.v().subrange(0, cut(self.v(), index.end as int))

@fn mangled_string::MangledString::starts_with
@own C15
@spec
  ensures r == starts(self.v(), what@)

@fn mangled_string::MangledString::is_array_type
@own C15
@spec
  ensures r == at(self.v(), 'Y')

@fn mangled_string::MangledString::is_custom_type
@own C15
@spec
  ensures r == at(self.v(), '?')

@fn mangled_string::MangledString::is_function_type
@own C15
@spec
  ensures r == is_function_type(self.v())

@fn mangled_string::MangledString::is_pointer_type
@own C15
@spec
  ensures r == is_pointer_type(self.v())

@fn mangled_string::MangledString::is_tag_type
@own C15
@spec
  ensures r == is_tag_type(self.v())

@fn mangled_string::MangledString::is_member_pointer
@own C15
@spec
  requires self.wf()
  ensures r == member_pointer(self.v())
@entry
  let ghost r0 = self.v();

@fn mangled_string::MangledString::starts_with_local_scope_pattern
@own C15
@spec
  requires self.wf()
  ensures r == local_scope_pattern(self.v())
@loop 0
  invariant_except_break
    candidate.wf(),
    all_rhex(rv, rv.len() - candidate.v().len()) == all_rhex(rv, 0),
    candidate.v().len() <= rv.len(),
    candidate.v() == rv.subrange(rv.len() - candidate.v().len(), rv.len() as int),
  invariant
    r0 == self.v(),
    local_scope_pattern(r0) == all_rhex(rv, 0),
  ensures
    all_rhex(rv, 0),
  decreases candidate.v().len()
@entry
  broadcast use group_str;
  let ghost r0 = self.v();
@before let:end
  proof {
    let t = r0.subrange(1, r0.len() as int);
    lemma_find_shift(r0, '?', 1, 0);
    lemma_find_range(t, '?', 0);
    if find(t, '?') is Some {
      let k = find(t, '?')->0;
      assert(r0.subrange(1, k + 1) =~= t.subrange(0, k));
    }
  }
@before let:candidate#2
  let ghost cand = candidate.v();
  proof { lemma_last_ascii(candidate.v()); }
@before loop
  let ghost rv = candidate.v();
  proof { assert(rv =~= cand.subrange(1, cand.len() - 1)); }
