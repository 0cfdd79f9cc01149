// symbols
@fn demangler::Demangler::demangle_typeinfo_name
@own C20
@spec
%pnode(p_typeinfo(old(self).ps(), old(self).depth as int); K::NVar)
  decreases 256 - old(self).depth, 1int
@entry
  broadcast use crate::iso::t_typeinfo;
  broadcast use group_ext;
  broadcast use def_p_typeinfo; reveal(node_ok);

@fn demangler::Demangler::demangle_variable_encoding
@own C19 C16
@spec
%pnode(p_var_encoding(old(self).ps(), old(self).depth as int, sc); K::Var)
  decreases 256 - old(self).depth, 20int
@entry
  broadcast use crate::iso::t_var_encoding;
  broadcast use group_ext;
  broadcast use def_p_var_encoding, group_upd; reveal(node_ok); reveal(p_ext_quals);
@before let:quals#1
  proof { assert(kin(self.cache.v(), hi(ptn), K::Ptr)); }
@before let:ptn
  proof {
    let o = self.cache.v()[hi(ptn)];
    lemma_wf_at(self.cache.v(), hi(ptn));
    let n = SNode::Ptr { quals: o->Ptr_quals | quals.b, aff: o->Ptr_aff, parent: o->Ptr_parent, pointee: o->Ptr_pointee };
    lemma_wf_update(self.cache.v(), hi(ptn), n); crate::iso::tree_upd_ptr(self.cache.v(), hi(ptn), n);
  }
@before let:extra_child_quals
  proof { assert(kin(self.cache.v(), hi(pointee), K::Type)); }

@fn demangler::Demangler::demangle_function_encoding
@own C19
@spec
%pnode(p_func_encoding(old(self).ps(), old(self).depth as int); K::Func)
  decreases 256 - old(self).depth, 20int
@entry
  broadcast use crate::iso::t_func_encoding;
  broadcast use group_ext;
  broadcast use def_p_func_encoding, group_upd, group_bits, lemma_cast_u32, lemma_cast_i32; reveal(node_ok); reveal(p_adjust);
@after let:fc
  let ghost s1 = self.ps();
@before let:fsn
  let ghost adj = match ttn { None => None, Some(t) => Some((t.this_adjust.static_offset as int, t.this_adjust.vbptr_offset as int, t.this_adjust.vboffset_offset as int, t.this_adjust.vtor_disp_offset as int)) };
  proof { assert(p_adjust(s1, fc.b) == Ok::<_, ErrK>((self.ps(), adj))); }
@after let:fsn
  let ghost s2 = self.ps();
@before set:function_node
  proof { lemma_wf_at(self.cache.v(), hi(fsn)); }

@fn demangler::Demangler::demangle_encoded_symbol
@own C17 C19
@spec
  requires old(self).wf(), kin(old(self).cache.v(), hi(name), K::QName), crate::iso::qs(old(self).ps(), hi(name))
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && p_encoded(old(self).ps(), old(self).depth as int, hi(name)) == Ok::<_, ErrK>((final(self).ps(), hi(x))) && kin(final(self).cache.v(), hi(x), K::Sym),
    r is Ok ==> final(self).mangled_name.v().len() < old(self).mangled_name.v().len(),
    r is Ok ==> p_encoded(old(self).ps(), old(self).depth as int, hi(name)) is Ok,
    r is Err ==> p_encoded(old(self).ps(), old(self).depth as int, hi(name)) is Err,
  decreases 256 - old(self).depth, 21int
@entry
  broadcast use crate::iso::t_encoded;
  broadcast use group_ext;
  broadcast use def_p_encoded, lemma_upd_same; reveal(node_ok);
@before let:target_type
  proof {
    lemma_wf_at(self.cache.v(), hi(fsn)); lemma_wf_at(self.cache.v(), self.cache.v()[hi(fsn)]->Func_sig);
    lemma_wf_at(self.cache.v(), hi(name));
  }
@before let:uqn
  proof {
    lemma_wf_at(self.cache.v(), hi(name)); lemma_wf_at(self.cache.v(), self.cache.v()[hi(name)]->QName_comps);
    if let Some(u) = unqualified(self.cache.v(), hi(name)) {
      if self.cache.v()[u] is Conv { 
      lemma_wf_at(self.cache.v(), u);
      lemma_wf_update(self.cache.v(), u, SNode::Conv { tp: self.cache.v()[u]->Conv_tp, target: ho(target_type) });
      }
    }
  }

@fn demangler::Demangler::demangle_declarator
@own C17 C16
@spec
%pnode(p_declarator(old(self).ps(), old(self).depth as int); K::NSym)
  decreases 256 - old(self).depth, 22int
@entry
  broadcast use crate::iso::t_declarator, crate::iso::t_fq_symbol;
  broadcast use group_ext;
  broadcast use def_p_declarator, group_upd; reveal(node_ok);
@before let:uqn
  proof { lemma_wf_at(self.cache.v(), hi(qn)); }

@fn demangler::Demangler::demangle_special_table_symbol_node
@own C20
@spec
%pnode(p_table(old(self).ps(), old(self).depth as int, k); K::Table)
  decreases 256 - old(self).depth, 6int
@entry
  broadcast use crate::iso::t_table;
  broadcast use group_ext;
  broadcast use def_p_table; reveal(node_ok); reveal(table_name);

@fn demangler::Demangler::demangle_local_static_guard
@own C20 C06
@spec
%pnode(p_guard(old(self).ps(), old(self).depth as int, is_thread); K::GuardVar)
  decreases 256 - old(self).depth, 6int
@entry
  broadcast use crate::iso::t_guard;
  broadcast use group_ext;
  broadcast use def_p_guard, lemma_upd_guard; reveal(node_ok);
@after let:lsgi
  proof { assert(kin(self.cache.v(), hi(lsgi), K::Guard)); }

@fn demangler::Demangler::demangle_untyped_variable
@own C20
@spec
%pnode(p_untyped(old(self).ps(), old(self).depth as int, variable_name@); K::NVar)
  decreases 256 - old(self).depth, 6int
@entry
  broadcast use crate::iso::t_untyped;
  broadcast use group_ext;
  broadcast use def_p_untyped; reveal(node_ok);

@fn demangler::Demangler::demangle_rtti_base_class_descriptor_node
@own C20 C06
@spec
%pnode(p_rtti_base(old(self).ps(), old(self).depth as int); K::NVar)
  decreases 256 - old(self).depth, 6int
@entry
  broadcast use crate::iso::t_rtti_base;
  broadcast use group_ext;
  broadcast use def_p_rtti_base; reveal(node_ok);

@fn demangler::Demangler::demangle_init_fini_stub
@own C20
@spec
%pnode(p_init_fini(old(self).ps(), old(self).depth as int, is_destructor); K::Func)
  decreases 256 - old(self).depth, 23int
@entry
  broadcast use crate::iso::t_init_fini;
  broadcast use group_ext;
  broadcast use def_p_init_fini, lemma_upd_fname; reveal(node_ok); reveal(set_fname); reveal(p_synth);
@before if#2
  proof { assert(kin(self.cache.v(), hi(variable), K::NVar)); }
@before let:dstn
  proof { lemma_wf_at(self.cache.v(), hi(fsn)); }

@fn demangler::Demangler::output_escaped_char
@own C10 C04
@spec
  requires wok(&*old(ob))
  ensures out(r, &*final(ob), o_esc(wv(&*old(ob)), c as int))
@entry
  broadcast use group_out;
  let ghost o0 = wv(&*old(ob));
  reveal(o_esc); reveal(esc);
  proof { lemma_put_add(o0, "\\x"@, hex2(c as int)); }

@fn demangler::Demangler::demangle_string_literal
@own C10 C03
@spec
%pnode(p_string(old(self).ps()); K::Str)
@entry
  broadcast use group_ext, group_out, lemma_bytes, lemma_byi_push, crate::arrayvec::axiom_arrayvec_cap, lemma_find, lemma_sub_sub, axiom_str_cap;
  reveal(p_string); reveal(node_ok); reveal(p_wide); reveal(p_bytes); reveal(o_units);
  proof { lemma_wok_empty(); assert(byi(Seq::<u8>::empty()) =~= Seq::<int>::empty()); }
@before let:char#1
  let ghost s2 = self.ps();
  let ghost len0 = string_byte_len as int;
@loop 0
  invariant
    after(*old(self), *self), self.mangled_name.v().len() < old(self).mangled_name.v().len(), wok(&ob),
    is_truncated == (len0 > 64),
    p_wide(s2, len0, is_truncated, Seq::empty()) == p_wide(self.ps(), string_byte_len as int, is_truncated, wv(&ob)),
  decreases self.mangled_name.v().len()
@after loop
  proof { assert(p_wide(s2, len0, len0 > 64, Seq::empty()) == Ok::<_, ErrK>((self.ps(), wv(&ob)))); }
@loop 1
  invariant
    after(*old(self), *self), self.mangled_name.v().len() < old(self).mangled_name.v().len(), wok(&ob),
    wv(&ob) == Seq::<char>::empty(),
    p_bytes(s2, Seq::empty()) == p_bytes(self.ps(), byi(string_bytes.v())),
  decreases self.mangled_name.v().len()
@before let:char_bytes
  proof { assert(p_bytes(s2, Seq::empty()) == Ok::<_, ErrK>((self.ps(), byi(string_bytes.v())))); }
@loop 2
  invariant
    after(*old(self), *self), self.mangled_name.v().len() < old(self).mangled_name.v().len(), wok(&ob),
    o_units(byi(string_bytes.v()), 0, num_chars as int, char_bytes as int, is_truncated, Seq::empty()) == o_units(byi(string_bytes.v()), char_index as int, num_chars as int, char_bytes as int, is_truncated, wv(&ob)),
@before let:result
  let ghost sz = self.ps();

@fn demangler::Demangler::demangle_vcall_thunk_node
@own C20 C19 C06
@spec
%pnode(p_vcall(old(self).ps(), old(self).depth as int); K::Func)
  decreases 256 - old(self).depth, 6int
@entry
  broadcast use crate::iso::t_vcall;
  broadcast use group_ext;
  broadcast use def_p_vcall; reveal(node_ok);
@after let:vtin
  proof { assert(kin(self.cache.v(), hi(vtin), K::Vcall)); }
@before set:offset_in_vtable
  proof { let n = SNode::Vcall { tp: self.cache.v()[hi(vtin)]->Vcall_tp, off: offset_in_vtable as int }; lemma_wf_at(self.cache.v(), hi(vtin)); lemma_wf_update(self.cache.v(), hi(vtin), n); crate::iso::tree_upd_vcall(self.cache.v(), hi(vtin), n); }

@fn demangler::Demangler::demangle_special_intrinsic
@own C20
@spec
  requires old(self).wf()
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && p_special_intrinsic(old(self).ps(), old(self).depth as int) == Ok::<_, ErrK>((final(self).ps(), ho(x))) && kin_o(final(self).cache.v(), ho(x), K::NSym),
    r matches Ok(x) ==> (x is Some ==> final(self).mangled_name.v().len() < old(self).mangled_name.v().len()) && (x is None ==> final(self).ps() == old(self).ps()),
    r is Ok ==> p_special_intrinsic(old(self).ps(), old(self).depth as int) is Ok,
    r is Err ==> p_special_intrinsic(old(self).ps(), old(self).depth as int) is Err,
  decreases 256 - old(self).depth, 25int
@entry
  broadcast use crate::iso::t_rtti_type, crate::iso::t_special, crate::iso::t_special_intrinsic;
  broadcast use group_ext;
  broadcast use def_p_special_intrinsic, def_p_special, def_p_rtti_type; reveal(node_ok);
@after let:t
  proof { assert(kin(self.cache.v(), hi(t), K::Type)); reveal(p_synth); }

@fn demangler::Demangler::do_parse
@own C17 C20
@spec
%pnode(p_parse(old(self).ps(), old(self).depth as int); K::NSym)
  decreases 256 - old(self).depth, 0int
@entry
  broadcast use crate::iso::t_parse, crate::iso::t_parse_body;
  broadcast use group_ext;
  broadcast use def_p_parse, def_p_parse_body;


@fn demangler::Demangler::new
@own C05 C13
@spec
  ensures r.wf(), r.depth == 0, r.ps() == start(mangled_name@, flags.b)
@entry
  broadcast use crate::arrayvec::axiom_arrayvec_dflt, lemma_hs_empty;
  reveal(start); reveal(refs_ok); reveal(wf_nodes);
  proof { crate::iso::tree_empty(); }

@fn demangler::Demangler::parse_into
@own C05 C03
@spec
  requires self.wf(), self.depth == 0, self.ps() == start(self.mangled_name.v(), self.flags.b), old(result)@ == Seq::<char>::empty()
  ensures
    r is Ok ==> demangled(self.mangled_name.v(), self.flags.b) == Ok::<_, ErrK>(final(result)@) && ulen(final(result)@) < MAX_BYTES,
    r is Err ==> demangled(self.mangled_name.v(), self.flags.b) is Err && final(result)@ == Seq::<char>::empty(),
@entry
  broadcast use group_ext, group_out, lemma_text_len;
  reveal(demangled); reveal(start); reveal(render);
  proof { lemma_wok_empty(); }
@after let:ast

@fn demangle_into
@own C05 C03
@spec
  ensures
    r is Ok ==> demangled(mangled_name@, flags.b) == Ok::<_, ErrK>(final(result)@) && ulen(final(result)@) < MAX_BYTES,
    r is Err ==> demangled(mangled_name@, flags.b) is Err && final(result)@ == Seq::<char>::empty(),

@fn demangle
@own C05 C03
@spec
  ensures match r {
    Ok(t) => demangled(mangled_name@, flags.b) == Ok::<_, ErrK>(t@) && ulen(t@) < MAX_BYTES,
    Err(_) => demangled(mangled_name@, flags.b) is Err,
  }
