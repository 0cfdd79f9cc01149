@fn demangler::
@extra
impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
    // the parser state as the specification sees it
    pub open spec fn ps(self) -> PS {
        PS { rest: self.mangled_name.v(), nodes: self.cache.v(), fp: hs(self.backrefs.function_params.v()), nm: hs(self.backrefs.names.v()), fl: self.flags.b }
    }
    pub open spec fn wf(self) -> bool {
        &&& self.mangled_name.wf()
        &&& self.depth <= 256
        &&& wf_ps(self.ps())
    }
}
pub open spec fn group_no(g: FunctionIdentifierCodeGroup) -> int {
    match g { FunctionIdentifierCodeGroup::Basic => 0, FunctionIdentifierCodeGroup::Under => 1, FunctionIdentifierCodeGroup::DoubleUnder => 2 }
}
// between two template parameters
#[verifier::opaque]
pub open spec fn tp_inv(o: Demangler, b: Demangler, acc: Seq<int>) -> bool {
    &&& after(o, b)
    &&& kin_s(b.cache.v(), acc, K::Any)
    &&& p_tparams_from(o.ps(), o.depth as int, Seq::empty()) == p_tparams_from(b.ps(), o.depth as int, acc)
}
// `b` is a state reached from `a` by a production that succeeded
pub open spec fn after(a: Demangler, b: Demangler) -> bool {
    b.wf() && ext(a.cache.v(), b.cache.v()) && b.mangled_name.v().len() <= a.mangled_name.v().len() && b.depth == a.depth && b.flags == a.flags && b.allocator == a.allocator
}

@macro leaf(call; val)
  requires old(self).wf()
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && $call == Ok::<_, ErrK>((final(self).ps(), $val)),
    r is Ok ==> $call is Ok,
    r is Err ==> $call is Err,

@macro node(call; kind)
  requires old(self).wf()
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && $call == Ok::<_, ErrK>((final(self).ps(), hi(x))) && kin(final(self).cache.v(), hi(x), $kind),
    r is Ok ==> $call is Ok,
    r is Err ==> $call is Err,

@macro pnode(call; kind)
  requires old(self).wf()
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && $call == Ok::<_, ErrK>((final(self).ps(), hi(x))) && kin(final(self).cache.v(), hi(x), $kind),
    r is Ok ==> final(self).mangled_name.v().len() < old(self).mangled_name.v().len(),
    r is Ok ==> $call is Ok,
    r is Err ==> $call is Err,

@macro pleaf(call; val)
  requires old(self).wf()
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && $call == Ok::<_, ErrK>((final(self).ps(), $val)),
    r is Ok ==> final(self).mangled_name.v().len() < old(self).mangled_name.v().len(),
    r is Ok ==> $call is Ok,
    r is Err ==> $call is Err,

@fn demangler::Demangler::enter_nested
@own C02 C03
@spec
  ensures
    (r is Ok) == (old(self).depth < 256),
    r is Ok ==> *final(self) == (Demangler { depth: (old(self).depth + 1) as usize, ..*old(self) }),

@fn demangler::Demangler::leave_nested
@own C02 C03
@spec
  requires old(self).depth > 0
  ensures *final(self) == (Demangler { depth: (old(self).depth - 1) as usize, ..*old(self) }),

@fn demangler::Demangler::demangle_pointer_ext_qualifiers
@own C08
@spec
  requires old(self).wf()
  ensures after(*old(self), *final(self)), p_ext_quals(old(self).ps()) == (final(self).ps(), r.b)
@entry
  broadcast use group_ext;
  broadcast use group_bits;
  reveal(p_ext_quals);

@fn demangler::Demangler::demangle_qualifiers
@own C08
@spec
%leaf(p_quals(old(self).ps()); (x.0.b, x.1))
@entry
  broadcast use group_ext;
  reveal(p_quals);

@fn demangler::Demangler::demangle_pointer_cv_qualifiers
@own C08
@spec
%pleaf(p_ptr_cv(old(self).ps()); (x.0.b, x.1))
@entry
  broadcast use group_ext;
  reveal(p_ptr_cv);

@fn demangler::Demangler::demangle_function_ref_qualifier
@own C08
@spec
  requires old(self).wf()
  ensures after(*old(self), *final(self)), p_refq(old(self).ps()) == (final(self).ps(), r)
@entry
  broadcast use group_ext;
  reveal(p_refq);

@fn demangler::Demangler::demangle_calling_convention
@own C08 C16
@spec
%pleaf(p_cc(old(self).ps()); x)
@entry
  broadcast use group_ext;
  reveal(p_cc);

@fn demangler::Demangler::demangle_variable_storage_class
@own C19
@spec
%leaf(p_sc(old(self).ps()); x)
@entry
  broadcast use group_ext;
  reveal(p_sc);

@fn demangler::Demangler::demangle_throw_specification
@own C08
@spec
%leaf(p_throw(old(self).ps()); x)
@entry
  broadcast use group_ext;
  reveal(p_throw);

@fn demangler::Demangler::demangle_function_class
@own C19
@spec
%pleaf(p_func_class(old(self).ps()); x.b)
@entry
  broadcast use group_ext;
  reveal(p_func_class);

@fn demangler::Demangler::demangle_primitive_type
@own C08
@spec
%pnode(p_prim(old(self).ps()); K::Prim)
@entry
  broadcast use group_ext;
  reveal(p_prim); reveal(node_ok);

@fn demangler::Demangler::demangle_number
@own C06
@spec
%leaf(p_number(old(self).ps()); (x.0 as int, x.1))
@entry
  broadcast use group_ext;
  broadcast use lemma_shl4;
  reveal(p_number); reveal(p_hex);
@loop 0
  invariant
    after(*old(self), *self),
    p_number(old(self).ps()) == (match hex1(self.ps(), c, number as int) { Ok(r) => Ok::<_, ErrK>((r.0, (r.1, is_negative))), Err(e) => Err(e) }),
  decreases self.mangled_name.v().len()

@fn demangler::Demangler::demangle_unsigned
@own C06
@spec
%leaf(p_unsigned(old(self).ps()); x as int)
@entry
  broadcast use group_ext;
  reveal(p_unsigned);

@fn demangler::Demangler::demangle_signed
@own C06
@spec
%leaf(p_signed(old(self).ps()); x as int)
@entry
  broadcast use group_ext;
  reveal(p_signed);

@fn demangler::Demangler::demangle_char_literal
@own C10 C04
@spec
%pleaf(p_char_lit(old(self).ps()); x as int)
@entry
  broadcast use group_ext;
  broadcast use lemma_nibbles;
  reveal(p_char_lit);

@fn demangler::Demangler::demangle_wchar_literal
@own C10
@spec
%pleaf(p_wchar_lit(old(self).ps()); x as int)
@entry
  broadcast use group_ext;
  broadcast use lemma_bytes;
  reveal(p_wchar_lit);

@fn demangler::Demangler::x_const_demangle_char_literal_0
@own C10
@spec
  ensures forall|k: int| 0 <= k < 26 ==> #[trigger] r@[k] == 225 + k
@loop 0
  invariant i < 26, forall|k: int| 0 <= k < i ==> #[trigger] result@[k] == 225 + k, forall|k: int| i <= k < 26 ==> #[trigger] result@[k] == 225
  decreases 26 - i

@fn demangler::Demangler::x_const_demangle_char_literal_1
@own C10
@spec
  ensures forall|k: int| 0 <= k < 26 ==> #[trigger] r@[k] == 193 + k
@loop 0
  invariant i < 26, forall|k: int| 0 <= k < i ==> #[trigger] result@[k] == 193 + k, forall|k: int| i <= k < 26 ==> #[trigger] result@[k] == 193
  decreases 26 - i
