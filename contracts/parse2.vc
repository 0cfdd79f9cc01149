@fn demangler::Demangler::memorize_string
@own C07
@spec
  requires old(self).wf()
  ensures
    r is Ok ==> after(*old(self), *final(self)) && p_memorize(old(self).ps(), s@, so(styled)) == Ok::<_, ErrK>(final(self).ps()),
    r is Ok ==> p_memorize(old(self).ps(), s@, so(styled)) is Ok,
    r is Err ==> p_memorize(old(self).ps(), s@, so(styled)) is Err,
@entry
  broadcast use group_ext;
  broadcast use lemma_hs_push;
  reveal(p_memorize); reveal(node_ok); reveal(refs_ok);
@loop 0
  invariant
    x__s0@ == self.backrefs.names.v(), x__i0 <= x__s0@.len(),
    !x__v0 ==> name_known(self.cache.v(), self.ps().nm, s@, 0),
    x__v0 ==> name_known(self.cache.v(), self.ps().nm, s@, 0) == name_known(self.cache.v(), self.ps().nm, s@, x__i0 as int),
  decreases x__s0@.len() - x__i0

@fn demangler::Demangler::demangle_back_ref_name
@own C07
@spec
%pnode(p_back_ref(old(self).ps()); K::Named)
@entry
  broadcast use group_ext;
  reveal(p_back_ref); reveal(refs_ok);

@fn demangler::Demangler::demangle_simple_string
@own C15
@spec
  requires old(self).wf()
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && p_simple_string(old(self).ps(), memorize) == Ok::<_, ErrK>((final(self).ps(), x@)),
    r is Ok ==> final(self).mangled_name.v().len() < old(self).mangled_name.v().len(),
    r is Ok ==> p_simple_string(old(self).ps(), memorize) is Ok,
    r is Err ==> p_simple_string(old(self).ps(), memorize) is Err,
@entry
  broadcast use group_ext;
  broadcast use lemma_find, lemma_sub_sub;
  reveal(p_simple_string);

@fn demangler::Demangler::demangle_simple_name
@own C15 C07
@spec
%pnode(p_simple_name(old(self).ps(), memorize); K::Named)
@entry
  broadcast use group_ext;
  reveal(p_simple_name); reveal(node_ok);

@fn demangler::Demangler::demangle_anonymous_namespace_name
@own C15 C07
@spec
%pnode(p_anon_namespace(old(self).ps()); K::Named)
@entry
  broadcast use group_ext;
  broadcast use lemma_find, lemma_sub_sub;
  reveal(p_anon_namespace); reveal(node_ok);

@fn demangler::Demangler::consume_special_intrinsic_kind
@own C20
@spec
  requires old(self).wf()
  ensures
    after(*old(self), *final(self)),
    r == sik_of(old(self).mangled_name.v()),
    final(self).ps() == (match r { Some(k) => skip(old(self).ps(), sik_len(k)), None => old(self).ps() }),
@entry
  broadcast use group_ext;
  reveal(sik_of); reveal(sik_len);

@fn demangler::Demangler::translate_intrinsic_function_code
@own C09 C04
@spec
  ensures
    r matches Ok(x) ==> p_op(ch, group_no(group)) == Ok::<_, ErrK>(x),
    r is Ok ==> p_op(ch, group_no(group)) is Ok,
    r is Err ==> p_op(ch, group_no(group)) is Err,
@entry
  reveal(p_op);

@fn demangler::Demangler::demangle_structor_identifier
@own C09
@spec
%node(intern(old(self).ps(), SNode::Structor { tp: None, class: None, dtor: is_destructor }); K::Structor)
@entry
  broadcast use group_ext;
  reveal(node_ok);

@fn demangler::Demangler::demangle_conversion_operator_identifier
@own C09
@spec
%node(intern(old(self).ps(), SNode::Conv { tp: None, target: None }); K::Conv)
@entry
  broadcast use group_ext;
  reveal(node_ok);

@fn demangler::Demangler::demangle_literal_operator_identifier
@own C09
@spec
  requires old(self).wf()
  ensures
    r matches Ok(x) ==> after(*old(self), *final(self)) && (p_simple_string(old(self).ps(), false) matches Ok(n) && intern(n.0, SNode::LitOp { tp: None, name: n.1 }) == Ok::<_, ErrK>((final(self).ps(), hi(x)))) && kin(final(self).cache.v(), hi(x), K::LitOp),
    r is Err ==> (p_simple_string(old(self).ps(), false) matches Ok(n) ==> intern(n.0, SNode::LitOp { tp: None, name: n.1 }) is Err),
@entry
  broadcast use group_ext;
  reveal(node_ok);

@fn demangler::Demangler::demangle_function_identifier_code_group
@own C09
@spec
%pnode(p_ident_code_group(old(self).ps(), group_no(group)); K::Ident)
@entry
  broadcast use group_ext;
  reveal(p_ident_code_group); reveal(node_ok);

@fn demangler::Demangler::demangle_function_identifier_code
@own C09
@spec
%pnode(p_ident_code(old(self).ps()); K::Ident)
@entry
  broadcast use group_ext;
  reveal(p_ident_code);

@fn demangler::Demangler::guess_char_byte_size
@own C10
@spec
  requires string_bytes@.len() <= 128
  ensures match r { None => char_size(byi(string_bytes@), num_bytes as int) is None, Some(n) => char_size(byi(string_bytes@), num_bytes as int) == Some(n as int) }
@entry
  reveal(char_size);
  reveal_with_fuel(trailing_nulls, 2); reveal_with_fuel(nulls, 2);
@loop 0
  invariant
    x__s0@ == string_bytes@, x__i0 <= x__s0@.len(),
    trailing_nulls(byi(string_bytes@), x__s0@.len() as int) == x__i0 + (if x__v0 { trailing_nulls(byi(string_bytes@), x__s0@.len() - x__i0) } else { 0 }),
  decreases x__s0@.len() - x__i0, (if x__v0 { 1int } else { 0 })
@loop 1
  invariant
    x__s1@ == string_bytes@, x__i1 <= x__s1@.len(),
    x__v1 == nulls(byi(string_bytes@), x__i1 as int), x__v1 <= x__i1,
  decreases x__s1@.len() - x__i1

@fn demangler::Demangler::decode_multi_byte_char
@own C10
@spec
  requires char_index * char_bytes <= usize::MAX
  ensures match r { None => code_unit(byi(string_bytes@), char_index as int, char_bytes as int) is None, Some(n) => code_unit(byi(string_bytes@), char_index as int, char_bytes as int) == Some(n as int) }
@entry
  reveal(code_unit);
  let ghost all = string_bytes@;
  assert((char_index + 1) * char_bytes == char_index * char_bytes + char_bytes) by (nonlinear_arith);
  assert((char_index as int) * 1 == char_index);
@loop 0
  invariant
    char_bytes == 1 || char_bytes == 2 || char_bytes == 4,
    offset == char_index * char_bytes, offset + char_bytes <= all.len(), all.len() <= usize::MAX,
    string_bytes@ == all.subrange(offset as int, all.len() as int), x__s0@ == string_bytes@,
    x__n0 == char_bytes, x__i0 <= x__n0, result as int == le4(x__s0@, x__i0 as int),
@before set:result
  proof { lemma_orshl(result, c, (8 * i) as usize); }

@fn nodes::derived::QualifiedNameNode::synthesize_from_id
@own C11 C20
@spec
  requires old(cache).v().len() <= 2048, wf_nodes(old(cache).v()), kin(old(cache).v(), hi(identifier), K::Ident)
  ensures
    (r is Ok) == (old(cache).v().len() + 1 <= 2048),
    r matches Ok(q) ==> {
      &&& final(cache).v() == old(cache).v().push(SNode::Array { nodes: one(hi(identifier)) })
      &&& hi(q.components) == old(cache).v().len()
      &&& ext(old(cache).v(), final(cache).v()) && wf_nodes(final(cache).v())
    },
@entry
  broadcast use group_ext;
  broadcast use lemma_hs_one;
  reveal(node_ok);

@fn nodes::derived::QualifiedNameNode::synthesize_from_name
@own C11 C20
@spec
  requires old(cache).v().len() <= 2048, wf_nodes(old(cache).v())
  ensures
    (r is Ok) == (old(cache).v().len() + 2 <= 2048),
    r matches Ok(q) ==> {
      &&& final(cache).v() == old(cache).v().push(named(name@)).push(SNode::Array { nodes: one(old(cache).v().len() as int) })
      &&& hi(q.components) == old(cache).v().len() + 1
      &&& ext(old(cache).v(), final(cache).v()) && wf_nodes(final(cache).v())
    },
@entry
  broadcast use group_ext;
  broadcast use lemma_hs_one;
  reveal(node_ok);

@fn nodes::derived::VariableSymbolNode::synthesize
@own C20
@spec
  requires old(cache).v().len() <= 2048, wf_nodes(old(cache).v())
  ensures
    (r is Ok) == (old(cache).v().len() + 3 <= 2048),
    r matches Ok(q) ==> {
      &&& final(cache).v() == old(cache).v().push(named(variable_name@)).push(SNode::Array { nodes: one(old(cache).v().len() as int) }).push(SNode::QName { comps: old(cache).v().len() as int + 1 })
      &&& q.nv() == SNode::Var { name: Some(SVarName::Q(old(cache).v().len() as int + 2)), sc: None, ty: Some(hi(r#type)) }
      &&& ext(old(cache).v(), final(cache).v()) && wf_nodes(final(cache).v())
    },
@entry
  broadcast use group_ext;
  reveal(node_ok);

@fn demangler::Demangler::demangle_md5_name
@own C11
@spec
%pnode(p_md5(old(self).ps()); K::Md5)
@entry
  broadcast use crate::iso::t_md5;
  broadcast use group_ext;
  broadcast use lemma_find, lemma_sub_sub, axiom_str_cap, lemma_starts_boff, lemma_boff_ends;
  reveal(p_md5); reveal(p_synth); reveal(node_ok);
  let ghost a = old(self).mangled_name.v();
  let ghost p3 = "??@"@.len() as int;
  let ghost k = p3 + 1 + find(a.subrange(p3, a.len() as int), '@')->0;
  let ghost p6 = "??_R4@"@.len() as int;
@after let:stop
  proof { lemma_boff_add(a, p3, k); lemma_cut(a, k); assert(stop + 1 == boff(a, k)); assert(self.mangled_name.v() =~= a.subrange(k, a.len() as int));
    if starts(self.mangled_name.v(), "??_R4@"@) { lemma_boff_add(a, k, k + p6); lemma_cut(a, k + p6); } else { lemma_cut(a, k); } }
@before let:md5
  assert(self.mangled_name.v().len() <= a.len());
