@fn *::From<*>::from

@fn *::Dflt::x_default

@fn cache::NodeCache::new
@spec
  ensures r.v() =~= Seq::<SNode>::empty()

@fn alloc::new_vec
@own C04
@spec
  ensures r@ == Seq::<T>::empty()

@fn alloc::allocate
@own C04
@spec
  ensures *r == val

@fn cache::NodeCache::intern
@own C03 C04
@spec
  requires
    old(self).v().len() <= 2048,
    <&'alloc mut T as vstd::std_specs::convert::IntoSpec<NodeStorage<'alloc>>>::obeys_into_spec(),
    forall|m: &'alloc mut T| *m == node ==> (#[trigger] vstd::std_specs::convert::IntoSpec::<NodeStorage<'alloc>>::into_spec(m)).v() == node.nv(),
  ensures
    r matches Ok(h) ==> hi(h) == old(self).v().len() && final(self).v() =~= old(self).v().push(node.nv()),
    (r is Ok) == (old(self).v().len() + 1 <= 2048),
    r matches Err(e) ==> e is MaliciousInput && final(self).v() == old(self).v(),
    ext(old(self).v(), final(self).v()),
    wf_nodes(old(self).v()) && node_ok(old(self).v(), node.nv()) ==> wf_nodes(final(self).v()),
    tree(old(self).v()) && node_ok(old(self).v(), node.nv()) ==> tree(final(self).v()),
@entry
  broadcast use group_ext;
  let ghost n0 = node.nv();
  assert((1usize << 11) == 2048usize) by (bit_vector);
@after use:push
  proof { assert(self.v() =~= old(self).v().push(n0)); lemma_wf_push(old(self).v(), n0); }

@fn cache::NodeHandle::new
@spec
  ensures r.id == id

@fn cache::NodeHandle::resolve
@spec
  requires 0 <= hi(self) < cache.v().len(), T::matches(cache.v()[hi(self)])
  ensures T::is_view(cache.v()[hi(self)], r)

@fn cache::NodeHandle::resolve_mut
@spec
  requires 0 <= hi(self) < old(cache).v().len(), T::matches(old(cache).v()[hi(self)])
  ensures
    final(cache).v().len() == old(cache).v().len(),
    T::is_mut_view(old(cache).v()[hi(self)], final(cache).v()[hi(self)], r),
    final(cache).v() == old(cache).v().update(hi(self), final(cache).v()[hi(self)]),

@fn cache::NodeHandle<T>::Clone::clone
@spec
  ensures r == *self
