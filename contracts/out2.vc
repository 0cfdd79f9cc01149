// printing the tree
@macro oout(n; f; l)
  requires wok(&*old(ob)), wf_nodes(cache.v()), tree(cache.v()), node_ok(cache.v(), $n), is_k($n, K::Any)
  ensures out(r, &*final(ob), $f(mkcx(cache.v(), flags.b), norm(flags.b, $n), wv(&*old(ob))))
  decreases nrank(mkcx(cache.v(), flags.b).nodes, norm(flags.b, $n)) + 1, $l

@macro osig(f; call; l)
  requires wok(&*old(ob)), wf_nodes(cache.v()), tree(cache.v()), fn_ok(cache.v(), $f)
  ensures out(r, &*final(ob), $call)
  decreases nrank(mkcx(cache.v(), flags.b).nodes, SNode::Sig { f: $f }) + 1, $l

@fn nodes::output_space_if_necessary
@own C16
@spec
  requires wok(&*old(ob))
  ensures out(r, &*final(ob), space_if_necessary(wv(&*old(ob))))
@entry
  reveal(space_if_necessary);

@fn nodes::enums::SingleQualifier::is_suppressed
@own C12
@spec
  ensures r == qual_suppressed(flags.b, sq_bit(self))
@entry
  reveal(qual_suppressed); reveal(fl_has);

@fn nodes::enums::SingleQualifier::output_single_qualifier
@own C12 C08
@spec
  requires wok(&*old(ob))
  ensures out(r, &*final(ob), put(wv(&*old(ob)), qual_text(flags.b, sq_bit(self))))
@entry
  reveal(qual_text); reveal(fl_has);

@fn nodes::enums::Qualifiers::output_if_present
@own C12
@spec
  requires wok(&*old(ob))
  ensures out2(r, &*final(ob), o_qual(flags.b, self.b, sq_bit(mask), needs_space, wv(&*old(ob))))
@entry
  reveal(o_qual); reveal(put_if);

@fn nodes::enums::Qualifiers::output
@own C12 C08
@spec
  requires wok(&*old(ob))
  ensures out(r, &*final(ob), o_quals(flags.b, self.b, space_before, space_after, wv(&*old(ob))))
@entry
  reveal(o_quals); reveal(put_if); broadcast use lemma_wv_len;

@fn nodes::enums::CallingConv::output
@own C12 C08
@spec
  requires wok(&*old(ob))
  ensures out(r, &*final(ob), o_cc(flags.b, self, wv(&*old(ob))))
@entry
  reveal(o_cc); reveal(cc_text); reveal(fl_has);

@fn nodes::derived::PrimitiveTypeNode::output
@own C08 C12
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_node(cx, n, o0); }

@fn nodes::derived::PrimitiveTypeNode::output_pair
@own C08 C12
@spec
%oout(self.nv(); o_type; 60int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_type(cx, n, o0); }

@fn nodes::derived::PrimitiveTypeNode::output_pre
@own C08 C12
@spec
%oout(self.nv(); o_pre; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig);reveal(prim_text); proof { def_o_pre(cx, n, o0); } reveal(fl_has); reveal(tag_text); reveal(put_if);

@fn nodes::derived::PrimitiveTypeNode::output_post
@own C08 C12
@spec
%oout(self.nv(); o_post; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_post(cx, n, o0); }

@fn nodes::derived::PointerTypeNode::output
@own C16
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_node(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.pointee))); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.class_parent)); } proof { lemma_wf_at(cache.v(), hi(self.pointee)); }

@fn nodes::derived::PointerTypeNode::output_pair
@own C16
@spec
%oout(self.nv(); o_type; 60int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_type(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.pointee))); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.class_parent)); } proof { lemma_wf_at(cache.v(), hi(self.pointee)); }

@fn nodes::derived::PointerTypeNode::output_pre
@own C16 C08
@spec
%oout(self.nv(); o_pre; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv());
  broadcast use def_o_child, def_pre_child; reveal(node_ok); reveal(is_type); reveal(is_sig);
  proof { def_o_pre(cx, n, o0); }
  broadcast use def_ptr_pre, def_fn_pre; reveal(sfunc_of); reveal(put_if);
  proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.pointee))); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.class_parent)); }
  proof { lemma_wf_at(cache.v(), hi(self.pointee)); }
  let ghost p = cx.nodes[hi(self.pointee)];
@before if#2
  let ghost o1 = wv(&*ob);
  proof { reveal(fl_has); reveal(o_unaligned); }
@before match#2
  let ghost o2 = wv(&*ob);
  proof { assert(o_unaligned(cx, self.nv()->Ptr_quals, o1) == Ok::<_, ErrK>(o2)); reveal(o_ptr_open); }
@before if#6
  let ghost o3 = wv(&*ob);
  proof { assert(o_ptr_open(cx, p, o2) == Ok::<_, ErrK>(o3)); def_ptr_parent(cx, n, ho(self.class_parent), o3); }
@after if#6
  let ghost o4 = wv(&*ob);
  proof { assert(ptr_parent(cx, n, ho(self.class_parent), o3) == Ok::<_, ErrK>(o4)); reveal(o_ptr_tail); reveal(aff_text); }

@fn nodes::derived::PointerTypeNode::output_post
@own C16 C08
@spec
%oout(self.nv(); o_post; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_post(cx, n, o0); } broadcast use def_ptr_post, def_fn_post; proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.pointee))); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.class_parent)); } proof { lemma_wf_at(cache.v(), hi(self.pointee)); }

@fn nodes::derived::TagTypeNode::output
@own C12 C16
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_node(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.qualified_name))); }

@fn nodes::derived::TagTypeNode::output_pair
@own C12 C16
@spec
%oout(self.nv(); o_type; 60int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_type(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.qualified_name))); }

@fn nodes::derived::TagTypeNode::output_pre
@own C12 C16 C08
@spec
%oout(self.nv(); o_pre; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_pre(cx, n, o0); } reveal(fl_has); reveal(tag_text); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.qualified_name))); }

@fn nodes::derived::TagTypeNode::output_post
@own C12 C16
@spec
%oout(self.nv(); o_post; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_post(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.qualified_name))); }

@fn nodes::derived::ArrayTypeNode::output
@own C16
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_node(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.element_type))); }

@fn nodes::derived::ArrayTypeNode::output_pair
@own C16
@spec
%oout(self.nv(); o_type; 60int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_type(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.element_type))); }

@fn nodes::derived::ArrayTypeNode::output_pre
@own C16
@spec
%oout(self.nv(); o_pre; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_pre(cx, n, o0); } reveal(fl_has); reveal(tag_text); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.element_type))); }

@fn nodes::derived::ArrayTypeNode::output_post
@own C16
@spec
%oout(self.nv(); o_post; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_post(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.element_type))); }

@fn nodes::derived::CustomTypeNode::output
@own C16
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_node(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.identifier))); }

@fn nodes::derived::CustomTypeNode::output_pair
@own C16
@spec
%oout(self.nv(); o_type; 60int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_type(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.identifier))); }

@fn nodes::derived::CustomTypeNode::output_pre
@own C16
@spec
%oout(self.nv(); o_pre; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_pre(cx, n, o0); } reveal(fl_has); reveal(tag_text); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.identifier))); }

@fn nodes::derived::CustomTypeNode::output_post
@own C16
@spec
%oout(self.nv(); o_post; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_post(cx, n, o0); } proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.identifier))); }

@fn nodes::derived::FunctionSignatureNode::output
@own C16
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_node(cx, n, o0); }

@fn nodes::derived::FunctionSignatureNode::output_pair
@own C16
@spec
%oout(self.nv(); o_type; 60int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_type(cx, n, o0); }

@fn nodes::derived::FunctionSignatureNode::output_pre
@own C16 C14
@spec
%oout(self.nv(); o_pre; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_pre(cx, n, o0); } reveal(fl_has); reveal(tag_text); reveal(put_if); broadcast use def_fn_pre;

@fn nodes::derived::FunctionSignatureNode::output_post
@own C16 C14
@spec
%oout(self.nv(); o_post; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_post(cx, n, o0); } broadcast use def_fn_post;

@fn nodes::derived::ThunkSignatureNode::output
@own C19
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_node(cx, n, o0); }

@fn nodes::derived::ThunkSignatureNode::output_pair
@own C19
@spec
%oout(self.nv(); o_type; 60int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_type(cx, n, o0); }

@fn nodes::derived::ThunkSignatureNode::output_pre
@own C19 C14
@spec
%oout(self.nv(); o_pre; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_pre(cx, n, o0); } reveal(fl_has); reveal(tag_text); reveal(put_if); broadcast use def_fn_pre;

@fn nodes::derived::ThunkSignatureNode::output_post
@own C19 C14
@spec
%oout(self.nv(); o_post; 40int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); broadcast use def_o_child, def_pre_child, def_post_child; reveal(node_ok); reveal(is_type); reveal(is_sig); proof { def_o_post(cx, n, o0); } broadcast use def_fn_post;

@fn nodes::derived::FunctionSignatureNode::do_output_pre
@own C12 C16
@spec
%osig(sf(*self); sig_pre(mkcx(cache.v(), flags.b), SNode::Sig { f: sf(*self) }, sf(*self), is_function_ptr, wv(&*old(ob))); 20int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost sn = SNode::Sig { f: sf(*self) };
  proof { lemma_norm(flags.b, sn); lemma_kid_o(cache.v(), flags.b, sn, sf(*self).ret); lemma_kid_o(cache.v(), flags.b, sn, sf(*self).params); }
  broadcast use def_pre_child;
  proof { def_sig_pre(cx, sn, sf(*self), is_function_ptr, o0); }
  reveal(put_if); reveal(fl_has); reveal(o_sig_acc);
@after if#1
  let ghost o1 = wv(&*ob);
  proof { assert(o_sig_acc(cx, sf(*self), o0) == Ok::<_, ErrK>(o1)); reveal(o_sig_mem); }
@after if#5
  let ghost o2 = wv(&*ob);
  proof { assert(o_sig_mem(cx, sf(*self), o1) == Ok::<_, ErrK>(o2)); def_sig_ret(cx, sn, sf(*self), is_function_ptr, o2); }
@after if#9
  let ghost o3 = wv(&*ob);
  proof { assert(sig_ret(cx, sn, sf(*self), is_function_ptr, o2) == Ok::<_, ErrK>(o3)); reveal(o_sig_cc); }

@fn nodes::derived::FunctionSignatureNode::do_output_post
@own C12 C16
@spec
%osig(sf(*self); sig_post(mkcx(cache.v(), flags.b), SNode::Sig { f: sf(*self) }, sf(*self), is_function_ptr, wv(&*old(ob))); 20int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  proof { lemma_norm(flags.b, SNode::Sig { f: sf(*self) }); lemma_kid_o(cache.v(), flags.b, SNode::Sig { f: sf(*self) }, sf(*self).ret); lemma_kid_o(cache.v(), flags.b, SNode::Sig { f: sf(*self) }, sf(*self).params); } let ghost sn = SNode::Sig { f: sf(*self) }; proof { def_sig_post(cx, sn, sf(*self), is_function_ptr, o0); def_sig_params(cx, sn, sf(*self), is_function_ptr, o0); } broadcast use def_post_child, def_o_child; reveal(put_if); reveal(fl_has);
@attr #[verifier::spinoff_prover] #[verifier::rlimit(90)]
@after if#1
  proof { assert(sig_params(cx, sn, sf(*self), is_function_ptr, o0) == Ok::<_, ErrK>(wv(&*ob))); }
  let ghost o1 = wv(&*ob);
  let ghost mut o2 = wv(&*ob);
  proof { reveal(o_sig_cv); }
@after if#7
  proof { o2 = wv(&*ob); assert(o_sig_cv(cx, sf(*self), o1) == Ok::<_, ErrK>(o2)); reveal(o_sig_ms); }
@after if#5
  let ghost o3 = wv(&*ob);
  proof { reveal(o_sig_ms); assert(o_sig_cv(cx, sf(*self), o1) == Ok::<_, ErrK>(o2)); assert(o_sig_ms(cx, sf(*self), o2) == Ok::<_, ErrK>(o3)); reveal(o_sig_tail); }
@before if#15
  let ghost o4 = wv(&*ob);
  proof { assert(o_sig_tail(cx, sf(*self), is_function_ptr, o3) == Ok::<_, ErrK>(o4)); }

@fn nodes::derived::ThunkSignatureNode::do_output_pre
@own C19 C12
@spec
%osig(sf(self.function_node); thunk_pre(mkcx(cache.v(), flags.b), SNode::Sig { f: sf(self.function_node) }, sf(self.function_node), is_function_ptr, wv(&*old(ob))); 30int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  broadcast use def_thunk_pre; reveal(put_if); reveal(fl_has);

@fn nodes::derived::ThunkSignatureNode::do_output_post
@own C19 C06
@spec
%osig(sf(self.function_node); thunk_post(mkcx(cache.v(), flags.b), SNode::Sig { f: sf(self.function_node) }, sf(self.function_node), self.this_adjust.static_offset as int, self.this_adjust.vbptr_offset as int, self.this_adjust.vboffset_offset as int, self.this_adjust.vtor_disp_offset as int, is_function_ptr, wv(&*old(ob))); 30int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  broadcast use def_thunk_post; reveal(put_if); reveal(fl_has);

@fn nodes::derived::ArrayTypeNode::output_one_dimension
@own C16 C06 C08
@spec
  requires wok(&*old(ob)), kin(cache.v(), hi(node), K::Int)
  ensures out(r, &*final(ob), o_dim(mkcx(cache.v(), flags.b), hi(node), wv(&*old(ob))))
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  reveal(o_dim); reveal(o_int);

@fn nodes::derived::ArrayTypeNode::output_dimensions_impl
@own C16
@spec
  requires wok(&*old(ob)), wf_nodes(cache.v()), node_ok(cache.v(), self.nv())
  ensures out(r, &*final(ob), o_dims(mkcx(cache.v(), flags.b), hi(self.dimensions), wv(&*old(ob))))
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  reveal(o_dims); reveal(node_ok); reveal(arr_of);
@before loop
  let ghost ds = hs(dimensions.nodes@);
@loop 0
  invariant
    wok(&*ob), x__n0 == ds.len() - 1, x__s0@ == dimensions.nodes@.subrange(1, ds.len() as int),
    ds == arr_of(cx.nodes[hi(self.dimensions)]), kin_s(cache.v(), ds, K::Int),
    o_dims(cx, hi(self.dimensions), o0) == o_dims_rest(cx, ds, x__i0 + 1, wv(&*ob)),
@body 0
  reveal(o_dims_rest); assert(ds[x__i0 + 1] == hi(x__s0@[x__i0 as int]));
@after loop
  proof { reveal(o_dims_rest); }

@fn nodes::derived::TemplateParameters::output
@own C18
@spec
  requires wok(&*old(ob)), wf_nodes(cache.v()), tree(cache.v()), kin_o(cache.v(), tpo(self), K::Array)
  ensures out(r, &*final(ob), tps(mkcx(cache.v(), flags.b), tpo(self), wv(&*old(ob))))
  decreases (match tpo(self) { Some(h) => nrank(mkcx(cache.v(), flags.b).nodes, mkcx(cache.v(), flags.b).nodes[h]) + 1, None => 0 }), 100int
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  reveal(node_ok); proof { if let Some(h) = tpo(self) { lemma_wf_at(cache.v(), h); } }

@fn nodes::derived::VcallThunkIdentifierNode::output
@own C19 C20 C06
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if);

@fn nodes::derived::DynamicStructorIdentifierNode::output
@own C20
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(self.nv()->DynStruct_target)); }

@fn nodes::derived::NamedIdentifierNode::output
@own C15 C18 C12
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), tpo(self.template_params)); }

@fn nodes::derived::IntrinsicFunctionIdentifierNode::output
@own C09
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if);reveal(op_text); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), tpo(self.template_params)); }

@fn nodes::derived::LiteralOperatorIdentifierNode::output
@own C09
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), tpo(self.template_params)); }

@fn nodes::derived::LocalStaticGuardIdentifierNode::output
@own C20 C06
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if);

@fn nodes::derived::ConversionOperatorIdentifierNode::output
@own C09
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), tpo(self.template_params)); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.target_type)); }

@fn nodes::derived::StructorIdentifierNode::output
@own C09 C15
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), tpo(self.template_params)); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.class)); }

@fn nodes::derived::RttiBaseClassDescriptorNode::output
@own C20 C06
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_ident(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, lemma_tps; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if);

@fn nodes::derived::NodeArrayNode::do_output
@own C16 C18
@spec
  requires wok(&*old(ob)), wf_nodes(cache.v()), tree(cache.v()), node_ok(cache.v(), self.nv())
  ensures out(r, &*final(ob), o_array(mkcx(cache.v(), flags.b), self.nv(), separator@, wv(&*old(ob))))
  decreases nrank(mkcx(cache.v(), flags.b).nodes, self.nv()) + 1, 60int
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  broadcast use def_o_array, def_o_child; reveal(node_ok); reveal(arr_of); let ghost n = self.nv(); let ghost ks = hs(self.nodes@); proof { if ks.len() > 0 { lemma_kid_i(cache.v(), flags.b, n, 0); } def_o_rest(cx, n, 1, separator@, Seq::empty()); }
@loop 0
  invariant
    wok(&*ob), x__n0 == ks.len() - 1, x__s0@ == self.nodes@.subrange(1, ks.len() as int), node_ok(cache.v(), n),
    o_array(cx, n, separator@, o0) == o_rest(cx, n, x__i0 + 1, separator@, wv(&*ob)),
@body 0
  proof { reveal(node_ok); def_o_rest(cx, n, x__i0 + 1, separator@, wv(&*ob)); assert(ks[x__i0 + 1] == hi(x__s0@[x__i0 as int])); lemma_kid_i(cache.v(), flags.b, n, x__i0 + 1); }
@after loop
  proof { def_o_rest(cx, n, x__n0 + 1, separator@, wv(&*ob)); }

@fn nodes::derived::NodeArrayNode::output
@own C16 C18
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if);

@fn nodes::derived::QualifiedNameNode::output
@own C15 C14 C16
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); broadcast use def_o_qname; proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.components))); }

@fn nodes::derived::TemplateParameterReferenceNode::output
@own C18 C06
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); broadcast use def_o_tref; let ghost os = is64(self.thunk_offsets.v()); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.symbol)); }
@before loop
  let ghost o1 = wv(&*ob);
@loop 0
  invariant
    wok(&*ob), x__n0 == os.len() - 1, x__s0@ == self.thunk_offsets.v().subrange(1, os.len() as int),
    o_offs_rest(os, 1, o1) == o_offs_rest(os, x__i0 + 1, wv(&*ob)),
@body 0
  reveal(o_offs_rest); assert(os[x__i0 + 1] == x__s0@[x__i0 as int] as int);
@after loop
  proof { reveal(o_offs_rest); }

@fn nodes::derived::IntegerLiteralNode::output
@own C06
@spec
  requires wok(&*old(ob))
  ensures out(r, &*final(ob), o_node(mkcx(cache.v(), flags.b), norm(flags.b, self.nv()), wv(&*old(ob)))), out(r, &*final(ob), o_int(self.nv(), wv(&*old(ob))))
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); reveal(o_int);

@fn nodes::derived::Md5SymbolNode::output
@own C11
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.name))); }

@fn nodes::derived::SpecialTableSymbolNode::output
@own C20
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.name))); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.target_name)); }

@fn nodes::derived::LocalStaticGuardVariableNode::output
@own C20
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.name))); }

@fn nodes::derived::EncodedStringLiteralNode::output
@own C10 C15
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if);reveal(str_prefix);

@fn nodes::derived::VariableSymbolNode::output
@own C12 C14 C16
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if);broadcast use def_o_var; reveal(sc_access); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.x_type)); } proof { if let Some(SVarName::Q(q)) = svn(self.name) { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(q)); } }

@fn nodes::derived::FunctionSymbolNode::output
@own C16 C14 C12
@spec
%oout(self.nv(); o_node; 70int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); def_o_symbol(cx, n, o0); } broadcast use def_o_child, def_o_child_opt, def_pre_child, def_post_child; reveal(node_ok); reveal(is_ident); reveal(is_type); reveal(fl_has); reveal(put_if); proof { lemma_kid_o(cache.v(), flags.b, self.nv(), Some(hi(self.signature))); lemma_kid_o(cache.v(), flags.b, self.nv(), ho(self.name)); }

@fn nodes::intermediate::NodeConst::output
@own C16
@spec
%oout(self.nv(); o_node; 90int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::TypeNodeConst::output
@own C16
@spec
%oout(self.nv(); o_node; 80int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::SignatureNodeConst::output
@own C16
@spec
%oout(self.nv(); o_node; 75int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::IdentifierNodeConst::output
@own C16
@spec
%oout(self.nv(); o_node; 80int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::SymbolNodeConst::output
@own C16
@spec
%oout(self.nv(); o_node; 80int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::TypeNodeConst::output_pair
@own C16
@spec
%oout(self.nv(); o_type; 65int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::TypeNodeConst::output_pre
@own C16
@spec
%oout(self.nv(); o_pre; 50int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::TypeNodeConst::output_post
@own C16
@spec
%oout(self.nv(); o_post; 50int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::SignatureNodeConst::output_pair
@own C16
@spec
%oout(self.nv(); o_type; 62int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::SignatureNodeConst::output_pre
@own C16
@spec
%oout(self.nv(); o_pre; 45int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

@fn nodes::intermediate::SignatureNodeConst::output_post
@own C16
@spec
%oout(self.nv(); o_post; 45int)
@entry
  broadcast use group_out;
  let ghost cx = mkcx(cache.v(), flags.b); let ghost o0 = wv(&*old(ob));
  let ghost n = norm(flags.b, self.nv()); proof { def_o_node(cx, n, o0); } reveal(is_ident); reveal(is_type); reveal(is_sig);

