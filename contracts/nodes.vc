@fn nodes::intermediate::Downcast#
@extra
    spec fn dc(self) -> Option<To>;

@fn nodes::intermediate::Downcast::downcast
@spec
  ensures r == self.dc()

@fn *::Downcast<*>::downcast

@fn nodes::derived::PrimitiveTypeNode::new
@own C08
@spec
  ensures r.nv() == (SNode::Prim { quals: 0, kind: prim_kind })

@fn nodes::derived::IntrinsicFunctionIdentifierNode::new
@own C09
@spec
  ensures r.nv() == (SNode::Intrinsic { tp: None, op: operator })
@entry
  broadcast use group_std;

@fn nodes::derived::ThunkSignatureNode::Deref::deref
@own C19
@spec
  ensures *r == self.function_node

@fn nodes::derived::ThunkSignatureNode::DerefMut::deref_mut
@own C19
@spec
  ensures *r == old(self).function_node, *final(self) == (ThunkSignatureNode { function_node: *final(r), ..*old(self) })

@fn nodes::derived::TemplateParameters::DerefMut::deref_mut
@own C12
@spec
  ensures *r == old(self).0, *final(self) == TemplateParameters(*final(r))

@fn nodes::derived::TemplateParameters::Deref::deref
@own C18
@spec
  ensures *r == self.0

@fn nodes::intermediate::TypeNodeMut::append_quals
@own C08
@spec
  ensures final(self).mv() == add_quals_of(old(self).mv(), quals.b), final(self).mfv() == old(self).mfv()

@fn nodes::intermediate::TypeNodeMut::set_quals
@own C08
@spec
  ensures final(self).mv() == set_quals_of(old(self).mv(), quals.b), final(self).mfv() == old(self).mfv()

@fn nodes::intermediate::SignatureNodeMut::set_function_class
@own C19
@spec
  ensures final(self).mv() == set_class_of(old(self).mv(), function_class.b), final(self).mfv() == old(self).mfv()

@fn nodes::intermediate::IdentifierNodeMut::set_template_params
@own C18
@spec
  ensures final(self).mv() == set_tparams_of(old(self).mv(), hi(template_params)), final(self).mfv() == old(self).mfv()

@fn nodes::intermediate::SymbolNodeMut::set_name
@own C16
@spec
  ensures final(self).mv() == set_name_of(old(self).mv(), hi(name)), final(self).mfv() == old(self).mfv()

@fn nodes::intermediate::SymbolNodeConst::get_name
@own C18
@spec
  ensures ho(r) == name_of(self.nv())

@fn nodes::intermediate::SignatureNodeConst::as_node
@own C19
@spec
  ensures Some(sf(*r)) == sfunc_of(self.nv())

@fn nodes::derived::QualifiedNameNode::get_unqualified_identifier
@own C16
@spec
  requires wf_nodes(cache.v()), 0 <= hi(self.components) < cache.v().len(), cache.v()[hi(self.components)] is Array
  ensures
    ho(r) == last_ident(cache.v(), arr_of(cache.v()[hi(self.components)])),
    r matches Some(x) ==> kin(cache.v(), hi(x), K::Ident),
@entry
  proof { lemma_wf_at(cache.v(), hi(self.components)); reveal(node_ok); }

@fn alloc::allocate_slice
@own C04
@spec
  ensures r@ == src@

@fn ::Flags::no_calling_convention
@own C12
@spec
  ensures r == fl_has(self.b, F_CC)

@fn ::Flags::no_tag_specifier
@own C12
@spec
  ensures r == fl_has(self.b, F_TAG)

@fn ::Flags::no_access_specifier
@own C12
@spec
  ensures r == fl_has(self.b, F_ACCESS)

@fn ::Flags::no_member_type
@own C12
@spec
  ensures r == fl_has(self.b, F_MEMBER)

@fn ::Flags::no_return_type
@own C12
@spec
  ensures r == fl_has(self.b, F_RETURN)

@fn ::Flags::no_variable_type
@own C12
@spec
  ensures r == fl_has(self.b, F_VARTYPE)

@fn ::Flags::no_this_type
@own C12
@spec
  ensures r == fl_has(self.b, F_THIS)

@fn ::Flags::no_leading_underscores
@own C12
@spec
  ensures r == fl_has(self.b, F_UNDERSCORE)

@fn ::Flags::no_ms_keywords
@own C12
@spec
  ensures r == fl_has(self.b, F_MSKW)

@fn ::Flags::name_only
@own C14
@spec
  ensures r == fl_has(self.b, F_NAMEONLY)

@fn nodes::enums::Qualifiers::is_const
@own C08
@spec
  ensures r == (self.b & Q_CONST == Q_CONST)

@fn nodes::enums::Qualifiers::is_volatile
@own C08
@spec
  ensures r == (self.b & Q_VOLATILE == Q_VOLATILE)

@fn nodes::enums::Qualifiers::is_unaligned
@own C08
@spec
  ensures r == (self.b & Q_UNALIGNED == Q_UNALIGNED)

@fn nodes::enums::Qualifiers::is_restrict
@own C08
@spec
  ensures r == (self.b & Q_RESTRICT == Q_RESTRICT)

@fn nodes::enums::FuncClass::is_public
@own C19
@spec
  ensures r == (self.b & FC_PUBLIC == FC_PUBLIC)

@fn nodes::enums::FuncClass::is_protected
@own C19
@spec
  ensures r == (self.b & FC_PROTECTED == FC_PROTECTED)

@fn nodes::enums::FuncClass::is_private
@own C19
@spec
  ensures r == (self.b & FC_PRIVATE == FC_PRIVATE)

@fn nodes::enums::FuncClass::is_global
@own C19
@spec
  ensures r == (self.b & FC_GLOBAL == FC_GLOBAL)

@fn nodes::enums::FuncClass::is_static
@own C19
@spec
  ensures r == (self.b & FC_STATIC == FC_STATIC)

@fn nodes::enums::FuncClass::is_virtual
@own C19
@spec
  ensures r == (self.b & FC_VIRTUAL == FC_VIRTUAL)

@fn nodes::enums::FuncClass::is_extern_c
@own C19
@spec
  ensures r == (self.b & FC_EXTERNC == FC_EXTERNC)

@fn nodes::enums::FuncClass::no_parameter_list
@own C19
@spec
  ensures r == (self.b & FC_NOPARAMS == FC_NOPARAMS)

@fn nodes::enums::FuncClass::has_virtual_this_adjust
@own C19
@spec
  ensures r == (self.b & FC_VTA == FC_VTA)

@fn nodes::enums::FuncClass::has_virtual_this_adjust_ex
@own C19
@spec
  ensures r == (self.b & FC_VTAEX == FC_VTAEX)

@fn nodes::enums::FuncClass::has_static_this_adjust
@own C19
@spec
  ensures r == (self.b & FC_STA == FC_STA)

@fn demangler::NameBackrefBehavior::is_template
@own C18
@spec
  ensures r == (self.b & NBB_TEMPLATE == NBB_TEMPLATE)

@fn demangler::NameBackrefBehavior::is_simple
@own C18
@spec
  ensures r == (self.b & NBB_SIMPLE == NBB_SIMPLE)

