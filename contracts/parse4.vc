// types
@fn demangler::Demangler::demangle_type
@own C08 C16
@spec
%pnode(p_type(old(self).ps(), old(self).depth as int, qmm); K::Type)
  decreases 256 - old(self).depth, 0int
@entry
  broadcast use crate::iso::t_type, crate::iso::t_type_body, crate::iso::t_type_kind;
  broadcast use group_ext;
  broadcast use def_p_type, def_p_type_body, def_p_type_kind, group_upd;

@fn demangler::Demangler::demangle_custom_type
@own C08 C15
@spec
%pnode(p_custom(old(self).ps(), old(self).depth as int); K::Custom)
  decreases 256 - old(self).depth, 6int
@entry
  broadcast use crate::iso::t_custom;
  broadcast use group_ext;
  broadcast use def_p_custom; reveal(node_ok);

@fn demangler::Demangler::demangle_class_type
@own C08 C15
@spec
%pnode(p_class(old(self).ps(), old(self).depth as int); K::Tag)
  decreases 256 - old(self).depth, 6int
@entry
  broadcast use crate::iso::t_class;
  broadcast use group_ext;
  broadcast use def_p_class; reveal(p_tag); reveal(node_ok);

@fn demangler::Demangler::demangle_pointer_type
@own C08 C16
@spec
%pnode(p_ptr(old(self).ps(), old(self).depth as int); K::Ptr)
  decreases 256 - old(self).depth, 20int
@entry
  broadcast use crate::iso::t_ptr;
  broadcast use group_ext;
  broadcast use def_p_ptr; reveal(node_ok);

@fn demangler::Demangler::demangle_member_pointer_type
@own C08 C16
@spec
%pnode(p_member_ptr(old(self).ps(), old(self).depth as int); K::Ptr)
  decreases 256 - old(self).depth, 20int
@entry
  broadcast use crate::iso::t_member_ptr;
  broadcast use group_ext;
  broadcast use def_p_member_ptr, group_upd; reveal(node_ok);

@fn demangler::Demangler::demangle_function_type
@own C16 C08
@spec
%pnode(p_func_type(old(self).ps(), old(self).depth as int, has_this_quals); K::FSig)
  decreases 256 - old(self).depth, 10int
@entry
  broadcast use crate::iso::t_func_type;
  broadcast use group_ext;
  broadcast use group_bits;
  broadcast use def_p_func_type; reveal(node_ok);

@fn demangler::Demangler::demangle_array_type
@own C08 C16 C06
@spec
%pnode(p_array(old(self).ps(), old(self).depth as int); K::Arr)
  decreases 256 - old(self).depth, 1int
@entry
  broadcast use crate::iso::t_array;
  broadcast use group_ext;
  broadcast use lemma_hs_push, lemma_hs_empty;
  broadcast use def_p_array; reveal(node_ok); reveal(p_dims);
@before loop
  let ghost s0 = self.ps();
@loop 0
  invariant
    after(*old(self), *self), self.mangled_name.v().len() < old(self).mangled_name.v().len(),
    kin_s(self.cache.v(), hs(nodes@), K::Any), kin_s(self.cache.v(), hs(nodes@), K::Int),
    p_dims(s0, rank as int, 0, Seq::empty()) == p_dims(self.ps(), rank as int, x__i0 as int, hs(nodes@)),
@after loop
  proof {
    assert(p_dims(s0, rank as int, 0, Seq::empty()) == Ok::<_, ErrK>((self.ps(), hs(nodes@))));
    assert(kin_s(self.cache.v(), hs(nodes@), K::Any));
  }
@after let:dimensions
  let ghost c0 = self.cache.v();
  proof { assert(kin(c0, hi(dimensions), K::Array)); assert(kin_s(c0, c0[hi(dimensions)]->Array_nodes, K::Int)); }
@after let:element_type
  proof { assert(ext(c0, self.cache.v())); lemma_ext_array(c0, self.cache.v(), hi(dimensions)); assert(kin_s(self.cache.v(), c0[hi(dimensions)]->Array_nodes, K::Int)); }

@fn demangler::Demangler::demangle_function_parameter_list
@own C16 C07
@spec
  requires old(self).wf(), !*old(is_variadic)
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && p_params(old(self).ps(), old(self).depth as int) == Ok::<_, ErrK>((final(self).ps(), (ho(x), *final(is_variadic)))) && kin_o(final(self).cache.v(), ho(x), K::Array),
    r is Ok ==> p_params(old(self).ps(), old(self).depth as int) is Ok,
    r is Err ==> p_params(old(self).ps(), old(self).depth as int) is Err,
  decreases 256 - old(self).depth, 2int
@entry
  broadcast use crate::iso::t_params;
  broadcast use group_ext;
  broadcast use lemma_hs_push, lemma_hs_empty;
  broadcast use def_p_params; reveal(node_ok); reveal(refs_ok);
@loop 0
  invariant
    after(*old(self), *self), !*is_variadic,
    kin_s(self.cache.v(), hs(nodes@), K::Type),
    p_params_from(old(self).ps(), old(self).depth as int, Seq::empty()) == p_params_from(self.ps(), old(self).depth as int, hs(nodes@)),
  decreases self.mangled_name.v().len()
@body 0
  proof { def_p_params_from(self.ps(), old(self).depth as int, hs(nodes@)); }
@after loop
  proof { def_p_params_from(self.ps(), old(self).depth as int, hs(nodes@)); }


@fn demangler::Demangler::demangle_template_parameter_list
@own C18
@plain
@attr #[verifier::loop_isolation(true)] #[verifier::spinoff_prover] #[verifier::rlimit(90)]
@spec
%node(p_tparams(old(self).ps(), old(self).depth as int); K::Array)
  decreases 256 - old(self).depth, 8int
@entry
  broadcast use crate::iso::t_tparam_value, crate::iso::t_tparam_member_fn, crate::iso::t_tparams;
  hide(starts);
  hide(value_code);
  broadcast use group_ext;
  broadcast use lemma_hs_push, lemma_hs_empty, lemma_is64_push, lemma_is64_empty, lemma_tparams_end, crate::arrayvec::axiom_arrayvec_dflt;
  reveal(node_ok);
  proof { reveal(tp_inv); lemma_tp_lits(); def_p_tparams(self.ps(), self.depth as int); }
@loop 0
  invariant
    self.wf(), tp_inv(*old(self), *self, hs(nodes@)),
    p_tparams_from(old(self).ps(), old(self).depth as int, Seq::empty()) is Err ==> p_tparams(old(self).ps(), old(self).depth as int) is Err,
  decreases self.mangled_name.v().len()
@body 0
  broadcast use group_step;
  let ghost v0 = old(self).cache.v();
  proof {
    assert forall|b: Seq<SNode>, c: Seq<SNode>| ext(v0, b) && #[trigger] ext(b, c) implies ext(v0, c) by { lemma_ext_trans(v0, b, c); }
  }
  broadcast use lemma_hs_push, lemma_is64_push, lemma_is64_empty, crate::arrayvec::axiom_arrayvec_dflt;
  broadcast use lemma_offs_done, lemma_ok_tref;
  let ghost h0 = self.ps();
  let ghost d = old(self).depth as int;
  proof {
    assert(after(*old(self), *self) && kin_s(self.cache.v(), hs(nodes@), K::Any)
      && p_tparams_from(old(self).ps(), old(self).depth as int, Seq::empty()) == p_tparams_from(self.ps(), old(self).depth as int, hs(nodes@))) by { reveal(tp_inv); }
  }
  proof {
    lemma_tp_lits();
    assert(self.depth as int == d);
    assert(p_tparams_from(h0, d, hs(nodes@)) is Err ==> p_tparams(old(self).ps(), d) is Err);
  }
@before let:_#1
  proof { assert(p_type(self.ps(), d, QualifierMangleMode::Drop) is Err ==> p_tparams_from(h0, d, hs(nodes@)) is Err) by { lemma_tp_lits(); def_p_tparams_from(h0, d, hs(nodes@)); } }
@before return#1
  proof { assert(p_tparams_from(h0, d, hs(nodes@)) is Err) by { lemma_tp_lits(); def_p_tparams_from(h0, d, hs(nodes@)); } }
@after if#3
  let ghost s2 = self.ps();
  proof {
    assert(p_tparams_from(h0, d, hs(nodes@)) == tp_rest(h0.rest.len() as int, s2, d, is_auto_nttp, hs(nodes@))) by { lemma_tp_lits(); def_p_tparams_from(h0, d, hs(nodes@)); }
  }
@before call:push#1
  proof { assert(p_tparam_value(s2, d, is_auto_nttp) == p_fq_type(self.ps(), d)) by { lemma_tp_lits(); def_p_tparam_value(s2, d, is_auto_nttp); } }
@before call:push#2
  proof { assert(p_tparam_value(s2, d, is_auto_nttp) == p_type(self.ps(), d, QualifierMangleMode::Drop)) by { lemma_tp_lits(); def_p_tparam_value(s2, d, is_auto_nttp); } }
@before call:push#3
  proof { assert(p_tparam_value(s2, d, is_auto_nttp) == p_type(self.ps(), d, QualifierMangleMode::Mangle)) by { lemma_tp_lits(); def_p_tparam_value(s2, d, is_auto_nttp); } }
@before let:tprn#1
  let ghost b0 = self.ps();
  let ghost k0 = member_fn_offsets(s2.rest, is_auto_nttp);
  proof {
    assert(k0 is Some && b0 == skip(s2, value_len(is_auto_nttp)) && p_tparam_value(s2, d, is_auto_nttp) == p_tparam_member_fn(b0, d, k0->Some_0)) by { lemma_tp_lits(); lemma_tp_codes(s2.rest); def_p_tparam_value(s2, d, is_auto_nttp); }
    def_p_tparam_member_fn(b0, d, k0->Some_0);
  }
@before try:ok_or
  proof { assert(starts(self.ps().rest, "$E"@)) by { lemma_tp_lits(); lemma_tp_codes(s2.rest); } }
@before let:tprn#2
  proof {
    assert(p_tparam_value(s2, d, is_auto_nttp) == (match p_parse(self.ps(), d) { Ok(r) => intern(r.0, SNode::TRef { symbol: Some(r.1), offs: Seq::empty(), aff: Some(PointerAffinity::Reference) }), Err(e) => Err(e) }))
      by { lemma_tp_lits(); lemma_tp_codes(s2.rest); def_p_tparam_value(s2, d, is_auto_nttp); }
  }
@before let:value
  proof {
    assert(p_tparam_value(s2, d, is_auto_nttp) == (match p_number(self.ps()) { Ok(n) => intern(n.0, SNode::Int { value: n.1.0, neg: n.1.1 }), Err(e) => Err(e) }))
      by { lemma_tp_lits(); lemma_tp_codes(s2.rest); def_p_tparam_value(s2, d, is_auto_nttp); }
  }
@before let:node#2
  proof {
    assert(p_tparam_value(s2, d, is_auto_nttp) == p_type(self.ps(), d, QualifierMangleMode::Drop))
      by { lemma_tp_lits(); lemma_tp_codes(s2.rest); def_p_tparam_value(s2, d, is_auto_nttp); }
  }
@after let:symbol
  proof {
    lemma_sym_name(self.cache.v(), hi(symbol));
  }
@body 1
  broadcast use group_ext;
  broadcast use lemma_hs_push, lemma_is64_push, lemma_is64_empty, crate::arrayvec::axiom_arrayvec_dflt;
  reveal(p_offsets);
@loop 1
  invariant
    after(*old(self), *self), self.mangled_name.v().len() < h0.rest.len(), count <= 3,
    tprn.thunk_offsets.v().len() == x__i1, tprn.symbol == t0.symbol, tprn.affinity == t0.affinity, kin_o(self.cache.v(), ho(tprn.symbol), K::NSym),
    kin_s(self.cache.v(), hs(nodes@), K::Any),
    p_offsets(s1, count as int, Seq::empty()) == p_offsets(self.ps(), count as int, is64(tprn.thunk_offsets.v())),
    p_offsets(s1, count as int, Seq::empty()) is Err ==> p_tparams(old(self).ps(), old(self).depth as int) is Err,
@body 2
  broadcast use group_ext;
  broadcast use lemma_hs_push, lemma_is64_push, lemma_is64_empty, crate::arrayvec::axiom_arrayvec_dflt;
  reveal(p_offsets);
@loop 2
  invariant
    after(*old(self), *self), self.mangled_name.v().len() < h0.rest.len(), count <= 3,
    tprn.thunk_offsets.v().len() == x__i2, tprn.symbol == t0.symbol, tprn.affinity == t0.affinity, kin_o(self.cache.v(), ho(tprn.symbol), K::NSym),
    kin_s(self.cache.v(), hs(nodes@), K::Any),
    p_offsets(s1, count as int, Seq::empty()) == p_offsets(self.ps(), count as int, is64(tprn.thunk_offsets.v())),
    p_offsets(s1, count as int, Seq::empty()) is Err ==> p_tparams(old(self).ps(), old(self).depth as int) is Err,
@before loop#2
  let ghost s1 = self.ps();
  let ghost t0 = tprn;
  proof { assert(count == k0->Some_0) by { lemma_tp_lits(); lemma_tp_codes(s2.rest); } }
@before let:tprn#3
  proof {
    assert(p_tparam_value(s2, d, is_auto_nttp) == ({ let o = p_offsets(self.ps(), (member_data_offsets(s2.rest, is_auto_nttp))->Some_0, Seq::empty()); match o { Ok(o) => intern(o.0, SNode::TRef { symbol: None, offs: o.1, aff: None }), Err(e) => Err(e) } })) by { lemma_tp_lits(); lemma_tp_codes(s2.rest); def_p_tparam_value(s2, d, is_auto_nttp); }
  }
@before loop#3
  let ghost s1 = self.ps();
  let ghost t0 = tprn;
  proof { assert(count == (member_data_offsets(s2.rest, is_auto_nttp))->Some_0) by { lemma_tp_lits(); lemma_tp_codes(s2.rest); } }
@after call:push#*
  proof { assert(tp_inv(*old(self), *self, hs(nodes@))) by { reveal(tp_inv); } assert(self.mangled_name.v().len() < h0.rest.len()); }
@before continue
  proof { assert(p_tparams_from(h0, d, hs(nodes@)) == p_tparams_from(self.ps(), d, hs(nodes@))) by { lemma_tp_lits(); def_p_tparams_from(h0, d, hs(nodes@)); } assert(tp_inv(*old(self), *self, hs(nodes@))) by { reveal(tp_inv); } assert(self.mangled_name.v().len() < h0.rest.len()); }
