@fn demangler::Demangler::render_identifier
@own C15 C03
@spec
  requires self.wf(), kin(self.cache.v(), hi(identifier), K::Ident)
  ensures
    r matches Ok(t) ==> render(self.cache.v(), flags.b, hi(identifier), Seq::empty()) == Ok::<_, ErrK>(t@),
    r is Ok ==> render(self.cache.v(), flags.b, hi(identifier), Seq::empty()) is Ok,
    r is Err ==> render(self.cache.v(), flags.b, hi(identifier), Seq::empty()) is Err,
@entry
  proof { lemma_wf_at(self.cache.v(), hi(identifier)); lemma_wok_empty(); }
  reveal(render);

@fn demangler::Demangler::render_local_scope
@own C15 C03
@spec
  requires self.wf(), kin(self.cache.v(), hi(scope), K::NSym)
  ensures
    r matches Ok(t) ==> o_local(self.cache.v(), flags.b, hi(scope), number as int) == Ok::<_, ErrK>(t@),
    r is Ok ==> o_local(self.cache.v(), flags.b, hi(scope), number as int) is Ok,
    r is Err ==> o_local(self.cache.v(), flags.b, hi(scope), number as int) is Err,
@entry
  proof { lemma_wf_at(self.cache.v(), hi(scope)); lemma_wok_empty(); }
  reveal(render); reveal(o_local);

@fn demangler::Demangler::memorize_identifier
@own C07 C13
@spec
  requires old(self).wf(), kin(old(self).cache.v(), hi(identifier), K::Ident)
  ensures
    r is Ok ==> after(*old(self), *final(self)) && p_memorize_ident(old(self).ps(), hi(identifier)) == Ok::<_, ErrK>(final(self).ps()),
    r is Ok ==> p_memorize_ident(old(self).ps(), hi(identifier)) is Ok,
    r is Err ==> p_memorize_ident(old(self).ps(), hi(identifier)) is Err,
@entry
  broadcast use group_ext;
  reveal(p_memorize_ident);

@fn demangler::Demangler::demangle_template_instantiation_name
@own C18 C07
@spec
%pnode(p_template(old(self).ps(), old(self).depth as int, nbb.b); K::Ident)
  decreases 256 - old(self).depth, 0int
@entry
  broadcast use crate::iso::t_template, crate::iso::t_template_body;
  broadcast use group_ext;
  broadcast use def_p_template, def_p_template_body, group_upd; reveal(refs_ok);
  broadcast use lemma_hs_empty, crate::arrayvec::axiom_arrayvec_dflt;
  proof { crate::iso::t_template_mid(PS { rest: old(self).mangled_name.v(), ..old(self).ps() }, old(self).depth + 1); }

@fn demangler::Demangler::demangle_unqualified_type_name
@own C15 C07
@spec
%pnode(p_unq_type(old(self).ps(), old(self).depth as int, memorize); K::Ident)
  decreases 256 - old(self).depth, 1int
@entry
  broadcast use crate::iso::t_unq_type;
  broadcast use group_ext;
  broadcast use def_p_unq_type;

@fn demangler::Demangler::demangle_unqualified_symbol_name
@own C15 C07
@spec
%pnode(p_unq_symbol(old(self).ps(), old(self).depth as int, nbb.b); K::Ident)
  decreases 256 - old(self).depth, 1int
@entry
  broadcast use crate::iso::t_unq_symbol;
  broadcast use group_ext;
  broadcast use def_p_unq_symbol;

@fn demangler::Demangler::demangle_locally_scoped_name_piece
@own C15 C13 C07 C06
@spec
%pnode(p_local_scope(old(self).ps(), old(self).depth as int); K::Named)
  decreases 256 - old(self).depth, 1int
@entry
  broadcast use crate::iso::t_local_scope;
  broadcast use group_ext;
  broadcast use def_p_local_scope; reveal(node_ok);

@fn demangler::Demangler::demangle_name_scope_piece
@own C15 C07
@spec
%pnode(p_scope_piece(old(self).ps(), old(self).depth as int); K::Ident)
  decreases 256 - old(self).depth, 2int
@entry
  broadcast use crate::iso::t_scope_piece;
  broadcast use group_ext;
  broadcast use def_p_scope_piece;

@fn demangler::Demangler::demangle_name_scope_chain
@own C15
@spec
  requires old(self).wf(), kin(old(self).cache.v(), hi(unqualified_name), K::Ident)
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && p_chain(old(self).ps(), old(self).depth as int, hi(unqualified_name)) == Ok::<_, ErrK>((final(self).ps(), hi(x))) && kin(final(self).cache.v(), hi(x), K::QName),
    r is Ok ==> final(self).mangled_name.v().len() < old(self).mangled_name.v().len(),
    r is Ok ==> p_chain(old(self).ps(), old(self).depth as int, hi(unqualified_name)) is Ok,
    r is Err ==> p_chain(old(self).ps(), old(self).depth as int, hi(unqualified_name)) is Err,
  decreases 256 - old(self).depth, 4int
@entry
  broadcast use crate::iso::t_chain;
  broadcast use group_ext;
  broadcast use lemma_hs_push, lemma_hs_one, lemma_hs_rev;
  broadcast use def_p_chain;  reveal(node_ok);
@loop 0
  invariant
    after(*old(self), *self),
    kin_s(self.cache.v(), hs(nodes@), K::Ident),
    p_chain(old(self).ps(), old(self).depth as int, hi(unqualified_name)) == p_chain_from(self.ps(), old(self).depth as int, hs(nodes@)),
  decreases self.mangled_name.v().len()
@body 0
  proof { def_p_chain_from(self.ps(), old(self).depth as int, hs(nodes@)); }

@fn demangler::Demangler::demangle_fully_qualified_type_name
@own C15
@spec
%pnode(p_fq_type(old(self).ps(), old(self).depth as int); K::QName)
  decreases 256 - old(self).depth, 5int
@entry
  broadcast use crate::iso::t_fq_type;
  broadcast use group_ext;
  broadcast use def_p_fq_type;

@fn demangler::Demangler::demangle_fully_qualified_symbol_name
@own C15
@spec
%pnode(p_fq_symbol(old(self).ps(), old(self).depth as int); K::QName)
  decreases 256 - old(self).depth, 5int
@entry
  broadcast use crate::iso::t_fq_symbol;
  broadcast use group_ext;
  broadcast use def_p_fq_symbol; reveal(node_ok);
@before let:class_node
  proof {
    lemma_wf_at(self.cache.v(), hi(qn));
    lemma_wf_at(self.cache.v(), self.cache.v()[hi(qn)]->QName_comps);
  }
@before set:class
  proof {
    let o = self.cache.v()[hi(sin)];
    lemma_wf_at(self.cache.v(), hi(sin));
    lemma_wf_update(self.cache.v(), hi(sin), SNode::Structor { tp: o->Structor_tp, class: Some(hi(class_node)), dtor: o->Structor_dtor });
  }

