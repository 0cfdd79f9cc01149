// Lemmas.
use vstd::utf8::*;

// byte offset of the k-th character
pub open spec fn boff(s: Seq<char>, k: int) -> int { ulen(s.subrange(0, k)) }

// the character at byte offset i
pub open spec fn is_cut(s: Seq<char>, i: int, k: int) -> bool { 0 <= k <= s.len() && boff(s, k) == i }
pub open spec fn is_bound(s: Seq<char>, i: int) -> bool { exists|k: int| is_cut(s, i, k) }
pub open spec fn cut(s: Seq<char>, i: int) -> int { choose|k: int| is_cut(s, i, k) }

pub broadcast proof fn lemma_ulen_add(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] ulen(a.add(b)) == ulen(a) + ulen(b)
{
    encode_utf8_concat(a, b);
    assert(a + b =~= a.add(b));
}

pub broadcast proof fn lemma_ulen_ge(a: Seq<char>)
    ensures #[trigger] ulen(a) >= a.len(), a.len() > 0 ==> ulen(a) > 0
    decreases a.len()
{
    if a.len() > 0 {
        let p = a.drop_last();
        let l = seq![a.last()];
        assert(p.add(l) =~= a);
        lemma_ulen_add(p, l);
        lemma_ulen_ge(p);
        lemma_ulen_one(a.last());
    }
}

pub proof fn lemma_ulen_empty(a: Seq<char>)
    ensures a.len() == 0 ==> ulen(a) == 0
{
    if a.len() == 0 { assert(a.add(a) =~= a); lemma_ulen_add(a, a); }
}

pub proof fn lemma_ulen_one(c: char)
    ensures ulen(seq![c]) >= 1
{
    let s = seq![c];
    if ulen(s) == 0 {
        assert(encode_utf8(s) =~= Seq::<u8>::empty());
        lemma_ulen_empty(Seq::<char>::empty());
        assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
        encode_utf8_decode_utf8(s);
        encode_utf8_decode_utf8(Seq::<char>::empty());
        assert(s.len() == 1);
    }
}

pub proof fn lemma_boff_mono(s: Seq<char>, j: int, k: int)
    requires 0 <= j < k <= s.len()
    ensures boff(s, j) < boff(s, k)
{
    assert(s.subrange(0, j).add(s.subrange(j, k)) =~= s.subrange(0, k));
    lemma_ulen_add(s.subrange(0, j), s.subrange(j, k));
    lemma_ulen_ge(s.subrange(j, k));
}

pub broadcast proof fn lemma_cut(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures cut(s, #[trigger] boff(s, k)) == k, is_bound(s, boff(s, k)), 0 <= boff(s, k) <= ulen(s)
{
    assert(is_cut(s, boff(s, k), k));
    let j = cut(s, boff(s, k));
    assert(is_cut(s, boff(s, k), j));
    if j < k { lemma_boff_mono(s, j, k); }
    if k < j { lemma_boff_mono(s, k, j); }
    assert(s.subrange(0, s.len() as int) =~= s);
    if k < s.len() { lemma_boff_mono(s, k, s.len() as int); }
    lemma_ulen_ge(s.subrange(0, k));
}

pub broadcast proof fn lemma_bound_cut(s: Seq<char>, i: int)
    requires is_bound(s, i)
    ensures 0 <= #[trigger] cut(s, i) <= s.len(), boff(s, cut(s, i)) == i
{
    let k = choose|k: int| is_cut(s, i, k);
    assert(is_cut(s, i, k));
}

pub broadcast proof fn lemma_boff_ends(s: Seq<char>)
    ensures #[trigger] boff(s, 0) == 0, boff(s, s.len() as int) == ulen(s)
{
    lemma_ulen_empty(s.subrange(0, 0));
    assert(s.subrange(0, s.len() as int) =~= s);
}
pub broadcast group group_str { lemma_cut, lemma_bound_cut, lemma_boff_ends, lemma_ulen_add, lemma_ulen_ge }
pub proof fn lemma_find_shift(r: Seq<char>, c: char, n: int, i: int)
    requires 0 <= n <= r.len(), 0 <= i <= r.len() - n
    ensures
        (find_from(r, c, n + i) is Some) == (find_from(r.subrange(n, r.len() as int), c, i) is Some),
        find_from(r, c, n + i) matches Some(k) ==> k == n + find_from(r.subrange(n, r.len() as int), c, i)->0,
    decreases r.len() - n - i
{
    if n + i < r.len() && r[n + i] != c { lemma_find_shift(r, c, n, i + 1); }
}
pub proof fn lemma_find_range(r: Seq<char>, c: char, i: int)
    requires 0 <= i <= r.len()
    ensures find_from(r, c, i) matches Some(k) ==> i <= k < r.len() && r[k] == c
    decreases r.len() - i
{
    if i < r.len() && r[i] != c { lemma_find_range(r, c, i + 1); }
}
pub broadcast proof fn lemma_ulen_ascii(c: char)
    requires ci(c) < 128
    ensures #[trigger] ulen(seq![c]) == 1
{
    reveal_with_fuel(encode_utf8, 2);
}
pub proof fn lemma_last_ascii(s: Seq<char>)
    requires s.len() > 0, ci(s.last()) < 128
    ensures boff(s, s.len() - 1) == ulen(s) - 1
{
    let p = s.subrange(0, s.len() - 1);
    assert(p.add(seq![s.last()]) =~= s);
    lemma_ulen_add(p, seq![s.last()]);
    lemma_ulen_ascii(s.last());
}
// what finding a character says about the byte offsets around it
pub broadcast proof fn lemma_find(r: Seq<char>, c: char)
    ensures
        #![trigger find(r, c)]
        find(r, c) matches Some(k) ==> {
            &&& 0 <= k < r.len() && r[k] == c
            &&& is_bound(r, boff(r, k)) && cut(r, boff(r, k)) == k
            &&& boff(r, k) < ulen(r)
            &&& (boff(r, k) == 0) == (k == 0)
            &&& ci(c) < 128 ==> is_bound(r, boff(r, k) + 1) && cut(r, boff(r, k) + 1) == k + 1 && boff(r, k) + 1 <= ulen(r) && boff(r, k + 1) == boff(r, k) + 1
            &&& r.subrange(k, r.len() as int)[0] == c
        }
{
    lemma_find_range(r, c, 0);
    if let Some(k) = find(r, c) {
        lemma_cut(r, k);
        lemma_cut(r, k + 1);
        lemma_boff_ends(r);
        if k > 0 { lemma_boff_mono(r, 0, k); }
        lemma_boff_mono(r, k, r.len() as int);
        if ci(c) < 128 {
            assert(r.subrange(0, k).add(seq![c]) =~= r.subrange(0, k + 1));
            lemma_ulen_add(r.subrange(0, k), seq![c]);
            lemma_ulen_ascii(c);
        }
    }
}
pub broadcast proof fn lemma_sub_sub<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}

// ---- the node table

pub enum K { Any, Type, Sig, Ident, Sym, Named, Array, QName, TRef, Int, Rtti, Conv, Structor, Md5, Table, GuardVar, Str, Var, Func, Prim, FSig, Thunk, Ptr, Tag, Arr, Custom, Vcall, DynStruct, Intrinsic, LitOp, Guard, NSym, NVar }

pub open spec fn is_k(n: SNode, k: K) -> bool {
    match k {
        K::Any => n is Var ==> n->Var_name is Some, K::Type => is_type(n), K::Sig => is_sig(n), K::Ident => is_ident(n), K::Sym => is_symbol(n),
        K::Named => n is Named, K::Array => n is Array, K::QName => n is QName, K::TRef => n is TRef, K::Int => n is Int,
        K::Rtti => n is Rtti, K::Conv => n is Conv, K::Structor => n is Structor, K::Md5 => n is Md5, K::Table => n is Table,
        K::GuardVar => n is GuardVar, K::Str => n is Str, K::Var => n is Var, K::Func => n is Func, K::Prim => n is Prim,
        K::FSig => n is Sig, K::Thunk => n is Thunk, K::Ptr => n is Ptr, K::Tag => n is Tag, K::Arr => n is Arr,
        K::Custom => n is Custom, K::Vcall => n is Vcall, K::DynStruct => n is DynStruct, K::Intrinsic => n is Intrinsic,
        K::LitOp => n is LitOp, K::Guard => n is Guard,
        // a symbol with its name in place: printing it cannot panic
        K::NSym => is_symbol(n) && (n is Var ==> n->Var_name is Some), K::NVar => n is Var && n->Var_name is Some,
    }
}

// handle `h` refers to a node of kind `k`
pub open spec fn kin(nodes: Seq<SNode>, h: int, k: K) -> bool { 0 <= h < nodes.len() && is_k(nodes[h], k) }
pub open spec fn kin_o(nodes: Seq<SNode>, h: Option<int>, k: K) -> bool { h matches Some(x) ==> kin(nodes, x, k) }
pub open spec fn kin_s(nodes: Seq<SNode>, s: Seq<int>, k: K) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> kin(nodes, s[i], k) }

pub open spec fn fn_ok(nodes: Seq<SNode>, f: SFunc) -> bool { kin_o(nodes, f.ret, K::Type) && kin_o(nodes, f.params, K::Array) }

// the children of `n` exist and are of the right kinds
#[verifier::opaque]
pub open spec fn node_ok(nodes: Seq<SNode>, n: SNode) -> bool {
    match n {
        SNode::Prim { .. } => true,
        SNode::Sig { f } => fn_ok(nodes, f),
        SNode::Thunk { f, .. } => fn_ok(nodes, f),
        SNode::Ptr { aff, parent, pointee, .. } => aff is Some && kin_o(nodes, parent, K::QName) && kin(nodes, pointee, K::Type),
        SNode::Tag { name, .. } => kin(nodes, name, K::QName),
        SNode::Arr { dims, elem, .. } => kin(nodes, dims, K::Array) && kin_s(nodes, nodes[dims]->Array_nodes, K::Int) && kin(nodes, elem, K::Type),
        SNode::Custom { ident, .. } => kin(nodes, ident, K::Ident),
        SNode::Vcall { tp, .. } => kin_o(nodes, tp, K::Array),
        SNode::DynStruct { tp, is_var, target, .. } => kin_o(nodes, tp, K::Array) && kin(nodes, target, if is_var { K::NVar } else { K::QName }),
        SNode::Named { tp, .. } => kin_o(nodes, tp, K::Array),
        SNode::Intrinsic { tp, .. } => kin_o(nodes, tp, K::Array),
        SNode::LitOp { tp, .. } => kin_o(nodes, tp, K::Array),
        SNode::Guard { tp, .. } => kin_o(nodes, tp, K::Array),
        SNode::Conv { tp, target } => kin_o(nodes, tp, K::Array) && kin_o(nodes, target, K::Type),
        SNode::Structor { tp, class, .. } => kin_o(nodes, tp, K::Array) && kin_o(nodes, class, K::Ident),
        SNode::Rtti { tp, .. } => kin_o(nodes, tp, K::Array),
        SNode::Array { nodes: c } => kin_s(nodes, c, K::Any),
        SNode::QName { comps } => kin(nodes, comps, K::Array),
        SNode::TRef { symbol, .. } => kin_o(nodes, symbol, K::NSym),
        SNode::Int { .. } => true,
        SNode::Md5 { name } => kin(nodes, name, K::QName),
        SNode::Table { name, target, .. } => kin(nodes, name, K::QName) && kin_o(nodes, target, K::QName),
        SNode::GuardVar { name } => kin(nodes, name, K::QName),
        SNode::Str { name, .. } => kin_o(nodes, name, K::QName),
        SNode::Var { name, ty, .. } => kin_o(nodes, ty, K::Type) && (name matches Some(SVarName::Q(q)) ==> kin(nodes, q, K::QName)),
        SNode::Func { name, sig } => kin_o(nodes, name, K::QName) && kin(nodes, sig, K::Sig),
    }
}

#[verifier::opaque]
pub open spec fn wf_nodes(nodes: Seq<SNode>) -> bool {
    forall|i: int| 0 <= i < nodes.len() ==> node_ok(nodes, #[trigger] nodes[i])
}

// same variant; lists are never changed and names, once there, stay
pub open spec fn same_k(a: SNode, b: SNode) -> bool {
    match a {
        SNode::Prim { .. } => b is Prim, SNode::Sig { .. } => b is Sig, SNode::Thunk { .. } => b is Thunk, SNode::Ptr { .. } => b is Ptr,
        SNode::Tag { .. } => b is Tag, SNode::Arr { .. } => b is Arr, SNode::Custom { .. } => b is Custom, SNode::Vcall { .. } => b is Vcall,
        SNode::DynStruct { .. } => b is DynStruct, SNode::Named { .. } => b is Named, SNode::Intrinsic { .. } => b is Intrinsic,
        SNode::LitOp { .. } => b is LitOp, SNode::Guard { .. } => b is Guard, SNode::Conv { .. } => b is Conv, SNode::Structor { .. } => b is Structor,
        SNode::Rtti { .. } => b is Rtti, SNode::Array { .. } => b == a, SNode::QName { .. } => b is QName, SNode::TRef { .. } => b is TRef,
        SNode::Int { .. } => b is Int, SNode::Md5 { .. } => b is Md5, SNode::Table { .. } => b is Table, SNode::GuardVar { .. } => b is GuardVar,
        SNode::Str { .. } => b is Str, SNode::Var { name, .. } => b is Var && (name is Some ==> b->Var_name is Some), SNode::Func { .. } => b is Func,
    }
}

// `b` is a later state of the table `a`: nodes are only added or changed in place within their kind
#[verifier::opaque]
pub open spec fn ext(a: Seq<SNode>, b: Seq<SNode>) -> bool {
    a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> same_k(#[trigger] a[i], b[i])
}

pub proof fn lemma_same_k(a: SNode, b: SNode, k: K)
    requires same_k(a, b), is_k(a, k)
    ensures is_k(b, k)
{}

pub broadcast proof fn lemma_ext_refl(a: Seq<SNode>)
    ensures #[trigger] ext(a, a)
{ reveal(ext); }

pub broadcast proof fn lemma_ext_trans(a: Seq<SNode>, b: Seq<SNode>, c: Seq<SNode>)
    requires #[trigger] ext(a, b), #[trigger] ext(b, c)
    ensures ext(a, c)
{
    reveal(ext);
    assert forall|i: int| 0 <= i < a.len() implies same_k(#[trigger] a[i], c[i]) by { assert(same_k(a[i], b[i])); assert(same_k(b[i], c[i])); }
}

pub broadcast proof fn lemma_ext_kin(a: Seq<SNode>, b: Seq<SNode>, h: int, k: K)
    requires #[trigger] ext(a, b), #[trigger] kin(a, h, k)
    ensures kin(b, h, k)
{ reveal(ext); assert(same_k(a[h], b[h])); }

pub broadcast proof fn lemma_ext_len(a: Seq<SNode>, b: Seq<SNode>)
    requires #[trigger] ext(a, b)
    ensures a.len() <= b.len()
{ reveal(ext); }

pub broadcast proof fn lemma_ext_kin_o(a: Seq<SNode>, b: Seq<SNode>, h: Option<int>, k: K)
    requires #[trigger] ext(a, b), #[trigger] kin_o(a, h, k)
    ensures kin_o(b, h, k)
{ if let Some(x) = h { lemma_ext_kin(a, b, x, k); } }

pub broadcast proof fn lemma_ext_kin_s(a: Seq<SNode>, b: Seq<SNode>, s: Seq<int>, k: K)
    requires #[trigger] ext(a, b), #[trigger] kin_s(a, s, k)
    ensures kin_s(b, s, k)
{ assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies kin(b, s[i], k) by { assert(kin(a, s[i], k)); lemma_ext_kin(a, b, s[i], k); } }

pub proof fn lemma_ext_ok(a: Seq<SNode>, b: Seq<SNode>, n: SNode)
    requires ext(a, b), node_ok(a, n)
    ensures node_ok(b, n)
{
    broadcast use {lemma_ext_kin, lemma_ext_kin_o, lemma_ext_kin_s};
    reveal(node_ok);
    if let SNode::Arr { dims, .. } = n { lemma_ext_array(a, b, dims); }
}

// lists do not change
pub proof fn lemma_ext_array(a: Seq<SNode>, b: Seq<SNode>, h: int)
    requires ext(a, b), 0 <= h < a.len(), a[h] is Array
    ensures b[h] == a[h]
{ reveal(ext); assert(same_k(a[h], b[h])); }

pub proof fn lemma_wf_push(a: Seq<SNode>, n: SNode)
    ensures ext(a, a.push(n)), wf_nodes(a) && node_ok(a, n) ==> wf_nodes(a.push(n)), tree(a) && node_ok(a, n) ==> tree(a.push(n))
{
    if tree(a) && node_ok(a, n) { crate::iso::ok_kf(a, n); crate::iso::tree_push(a, n); }
    let b = a.push(n);
    assert(ext(a, b)) by { reveal(ext); }
    if wf_nodes(a) && node_ok(a, n) {
        reveal(wf_nodes);
        assert forall|i: int| 0 <= i < b.len() implies node_ok(b, #[trigger] b[i]) by {
            if i < a.len() { assert(node_ok(a, a[i])); lemma_ext_ok(a, b, a[i]); } else { lemma_ext_ok(a, b, n); }
        }
    }
}

pub proof fn lemma_wf_update(a: Seq<SNode>, h: int, n: SNode)
    requires 0 <= h < a.len(), same_k(a[h], n)
    ensures ext(a, a.update(h, n)), wf_nodes(a) && node_ok(a, n) ==> wf_nodes(a.update(h, n))
{
    let b = a.update(h, n);
    assert(ext(a, b)) by { reveal(ext); }
    if wf_nodes(a) && node_ok(a, n) {
        reveal(wf_nodes);
        assert forall|i: int| 0 <= i < b.len() implies node_ok(b, #[trigger] b[i]) by {
            if i != h { assert(node_ok(a, a[i])); lemma_ext_ok(a, b, a[i]); } else { lemma_ext_ok(a, b, n); }
        }
    }
}

// updates of one field in place keep the table well formed
pub broadcast proof fn lemma_upd_quals(a: Seq<SNode>, h: int, q: u8)
    requires 0 <= h < a.len()
    ensures ext(a, #[trigger] a.update(h, set_quals_of(a[h], q))), wf_nodes(a) ==> wf_nodes(a.update(h, set_quals_of(a[h], q))), tree(a) ==> tree(a.update(h, set_quals_of(a[h], q)))
{ if tree(a) { broadcast use crate::iso::kids_quals; crate::iso::tree_upd(a, h, set_quals_of(a[h], q)); } reveal(node_ok); lemma_wf_update(a, h, set_quals_of(a[h], q)); if wf_nodes(a) { lemma_wf_at(a, h); } }
pub broadcast proof fn lemma_upd_class(a: Seq<SNode>, h: int, q: u16)
    requires 0 <= h < a.len()
    ensures ext(a, #[trigger] a.update(h, set_class_of(a[h], q))), wf_nodes(a) ==> wf_nodes(a.update(h, set_class_of(a[h], q))), tree(a) ==> tree(a.update(h, set_class_of(a[h], q)))
{ if tree(a) { broadcast use crate::iso::kids_class; crate::iso::tree_upd(a, h, set_class_of(a[h], q)); } reveal(node_ok); lemma_wf_update(a, h, set_class_of(a[h], q)); if wf_nodes(a) { lemma_wf_at(a, h); } }
pub broadcast proof fn lemma_upd_tparams(a: Seq<SNode>, h: int, t: int)
    requires 0 <= h < a.len()
    ensures ext(a, #[trigger] a.update(h, set_tparams_of(a[h], t))), wf_nodes(a) && kin(a, t, K::Array) ==> wf_nodes(a.update(h, set_tparams_of(a[h], t)))
{ reveal(node_ok); lemma_wf_update(a, h, set_tparams_of(a[h], t)); if wf_nodes(a) { lemma_wf_at(a, h); } }
pub broadcast proof fn lemma_upd_name(a: Seq<SNode>, h: int, t: int)
    requires 0 <= h < a.len()
    ensures ext(a, #[trigger] a.update(h, set_name_of(a[h], t))), wf_nodes(a) && kin(a, t, K::QName) ==> wf_nodes(a.update(h, set_name_of(a[h], t)))
{ reveal(node_ok); lemma_wf_update(a, h, set_name_of(a[h], t)); if wf_nodes(a) { lemma_wf_at(a, h); } }
pub broadcast proof fn lemma_upd_guard(a: Seq<SNode>, h: int, tp: Option<int>, thread: bool, scope: int)
    requires 0 <= h < a.len(), a[h] is Guard, a[h]->Guard_tp == tp
    ensures ext(a, #[trigger] a.update(h, SNode::Guard { tp: tp, thread: thread, scope: scope })), wf_nodes(a) ==> wf_nodes(a.update(h, SNode::Guard { tp: tp, thread: thread, scope: scope }))
{ reveal(node_ok); lemma_wf_update(a, h, SNode::Guard { tp: tp, thread: thread, scope: scope }); if wf_nodes(a) { lemma_wf_at(a, h); } }
pub broadcast proof fn lemma_upd_fname(a: Seq<SNode>, h: int, q: int, sig: int)
    requires 0 <= h < a.len(), a[h] is Func, a[h]->Func_sig == sig
    ensures ext(a, #[trigger] a.update(h, SNode::Func { name: Some(q), sig: sig })), wf_nodes(a) && kin(a, q, K::QName) ==> wf_nodes(a.update(h, SNode::Func { name: Some(q), sig: sig }))
{ reveal(node_ok); lemma_wf_update(a, h, SNode::Func { name: Some(q), sig: sig }); if wf_nodes(a) { lemma_wf_at(a, h); } }
pub broadcast proof fn lemma_upd_same(a: Seq<SNode>, h: int, n: SNode)
    requires 0 <= h < a.len(), a[h] == n
    ensures #[trigger] a.update(h, n) == a
{ assert(a.update(h, n) =~= a); }
pub broadcast group group_upd { lemma_upd_quals, lemma_upd_class, lemma_upd_tparams, lemma_upd_name }

pub broadcast proof fn lemma_offs_done(s: PS, n: int, acc: Seq<int>)
    requires acc.len() >= n
    ensures #[trigger] p_offsets(s, n, acc) == Ok::<_, ErrK>((s, acc))
{ reveal(p_offsets); }
pub broadcast proof fn lemma_ok_tref(a: Seq<SNode>, n: SNode)
    requires n is TRef || n is Int
    ensures #[trigger] node_ok(a, n) == (n matches SNode::TRef { symbol, .. } ==> kin_o(a, symbol, K::NSym))
{ reveal(node_ok); }
// the name a symbol has is a qualified name, with components
pub proof fn lemma_sym_name(a: Seq<SNode>, h: int)
    requires wf_nodes(a), 0 <= h < a.len()
    ensures name_of(a[h]) matches Some(q) ==> kin(a, q, K::QName) && node_ok(a, a[q]) && kin(a, a[q]->QName_comps, K::Array)
{ reveal(node_ok); lemma_wf_at(a, h); if let Some(q) = name_of(a[h]) { lemma_wf_at(a, q); } }

pub proof fn lemma_wf_at(a: Seq<SNode>, h: int)
    requires wf_nodes(a), 0 <= h < a.len()
    ensures node_ok(a, a[h])
{ reveal(wf_nodes); }

pub broadcast group group_ext { lemma_ext_refl, lemma_ext_trans, lemma_ext_kin, lemma_ext_len, lemma_ext_kin_o, lemma_ext_kin_s, lemma_ext_refs }

// what back references refer to
#[verifier::opaque]
pub open spec fn refs_ok(nodes: Seq<SNode>, fp: Seq<int>, nm: Seq<int>) -> bool { kin_s(nodes, fp, K::Type) && kin_s(nodes, nm, K::Named) }
pub broadcast proof fn lemma_ext_refs(a: Seq<SNode>, b: Seq<SNode>, fp: Seq<int>, nm: Seq<int>)
    requires #[trigger] ext(a, b), #[trigger] refs_ok(a, fp, nm)
    ensures refs_ok(b, fp, nm)
{ reveal(refs_ok); lemma_ext_kin_s(a, b, fp, K::Type); lemma_ext_kin_s(a, b, nm, K::Named); }
// the same without transitivity, for functions that go through many states
pub broadcast group group_step { lemma_ext_refl, lemma_ext_kin, lemma_ext_len, lemma_ext_kin_o, lemma_ext_kin_s, lemma_ext_refs }

// the parser state is well formed
pub open spec fn wf_ps(s: PS) -> bool {
    &&& wf_nodes(s.nodes)
    &&& tree(s.nodes)
    &&& s.nodes.len() <= 2048
    &&& s.fp.len() <= 10
    &&& s.nm.len() <= 10
    &&& refs_ok(s.nodes, s.fp, s.nm)
}

// ---- bits
pub broadcast proof fn lemma_or0_8(a: u8) ensures #[trigger] (a | 0u8) == a { assert(a | 0u8 == a) by (bit_vector); }
pub broadcast proof fn lemma_0or_8(a: u8) ensures #[trigger] (0u8 | a) == a { assert(0u8 | a == a) by (bit_vector); }
pub broadcast proof fn lemma_or0_16(a: u16) ensures #[trigger] (a | 0u16) == a { assert(a | 0u16 == a) by (bit_vector); }
pub broadcast proof fn lemma_0or_16(a: u16) ensures #[trigger] (0u16 | a) == a { assert(0u16 | a == a) by (bit_vector); }
pub broadcast proof fn lemma_orc_8(a: u8, b: u8) ensures #[trigger] (a | b) == b | a { assert(a | b == b | a) by (bit_vector); }
pub broadcast proof fn lemma_orc_16(a: u16, b: u16) ensures #[trigger] (a | b) == b | a { assert(a | b == b | a) by (bit_vector); }
pub broadcast group group_bits { lemma_or0_8, lemma_0or_8, lemma_or0_16, lemma_0or_16, lemma_orc_8, lemma_orc_16 }
pub broadcast proof fn lemma_nibbles(a: u8, b: u8)
    requires a < 16, b < 16
    ensures (#[trigger] ((a << 4u8) | b)) as int == a * 16 + b
{ assert((a << 4u8) | b == (a * 16 + b) as u8) by (bit_vector) requires a < 16, b < 16; }
pub broadcast proof fn lemma_bytes(a: u16, b: u16)
    requires a < 256, b < 256
    ensures (#[trigger] ((a << 8u16) | b)) as int == a * 256 + b
{ assert((a << 8u16) | b == (a * 256 + b) as u16) by (bit_vector) requires a < 256, b < 256; }
pub broadcast proof fn lemma_shl4(n: u64)
    ensures (#[trigger] (n << 4u64)) as int == (n * 16) % 18446744073709551616, (n << 4u64) <= 0xffff_ffff_ffff_fff0
{
    assert((n << 4u64) == (n & 0x0fff_ffff_ffff_ffffu64) * 16) by (bit_vector);
    assert(n & 0x0fff_ffff_ffff_ffffu64 == n % 0x1000_0000_0000_0000u64) by (bit_vector);
    assert((n << 4u64) <= 0xffff_ffff_ffff_fff0u64) by (bit_vector);
    let q = n as int / 0x1000_0000_0000_0000;
    let r = n as int % 0x1000_0000_0000_0000;
    assert(n * 16 == q * 18446744073709551616 + r * 16);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * 16, 18446744073709551616, q, r * 16);
}
// the rest of a hexadecimal number whose character `c` has been read
pub open spec fn hex1(s: PS, c: char, n: int) -> PR<int> {
    if c == '@' { Ok((s, n)) }
    else if is_rhex(c) { p_hex(s, (n * 16) % 18446744073709551616 + rhex(c)) }
    else { Err(ErrK::InvalidNumber) }
}
pub open spec fn le4(s: Seq<u8>, n: int) -> int {
    (if n >= 1 { s[0] as int } else { 0 }) + (if n >= 2 { 256 * s[1] } else { 0 }) + (if n >= 3 { 65536 * s[2] } else { 0 }) + (if n >= 4 { 16777216 * s[3] } else { 0 })
}
pub proof fn lemma_orshl(r: u32, c: u32, k: usize)
    requires c < 256, k == 0 && r == 0 || k == 8 && r < 256 || k == 16 && r < 65536 || k == 24 && r < 16777216
    ensures
        k == 0 ==> (r | (c << k)) == r + c,
        k == 8 ==> (r | (c << k)) == r + 256 * c,
        k == 16 ==> (r | (c << k)) == r + 65536 * c,
        k == 24 ==> (r | (c << k)) == r + 16777216 * c,
{
    if k == 0 { assert((0u32 | (c << 0usize)) == c) by (bit_vector); }
    if k == 8 { assert((r | (c << 8usize)) == add(r, mul(256u32, c))) by (bit_vector) requires c < 256, r < 256; }
    if k == 16 { assert((r | (c << 16usize)) == add(r, mul(65536u32, c))) by (bit_vector) requires c < 256, r < 65536; }
    if k == 24 { assert((r | (c << 24usize)) == add(r, mul(16777216u32, c))) by (bit_vector) requires c < 256, r < 16777216; }
}
pub proof fn lemma_boff_add(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures boff(s, b) == boff(s, a) + boff(s.subrange(a, s.len() as int), b - a)
{
    assert(s.subrange(0, a).add(s.subrange(a, b)) =~= s.subrange(0, b));
    assert(s.subrange(a, s.len() as int).subrange(0, b - a) =~= s.subrange(a, b));
    lemma_ulen_add(s.subrange(0, a), s.subrange(a, b));
}
// a prefix has its own length in bytes
pub broadcast proof fn lemma_starts_len(s: Seq<char>, p: Seq<char>)
    ensures #[trigger] starts(s, p) ==> s.len() >= p.len()
{ }
pub proof fn lemma_starts_prefix(s: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires starts(s, p), q.len() <= p.len(), p.subrange(0, q.len() as int) =~= q
    ensures starts(s, q)
{ assert(s.subrange(0, q.len() as int) =~= s.subrange(0, p.len() as int).subrange(0, q.len() as int)); }
pub broadcast proof fn lemma_starts_short(s: Seq<char>, p: Seq<char>)
    ensures
        p.len() == 1 ==> #[trigger] starts(s, p) == at(s, p[0]),
        p.len() == 2 ==> starts(s, p) == (at(s, p[0]) && s.len() > 1 && s[1] == p[1]),
        p.len() == 3 ==> starts(s, p) == (at(s, p[0]) && s.len() > 2 && s[1] == p[1] && s[2] == p[2]),
{
    if p.len() <= s.len() && p.len() <= 3 {
        let q = s.subrange(0, p.len() as int);
        if p.len() == 1 { assert(q[0] == s[0]); if s[0] == p[0] { assert(q =~= p); } }
        if p.len() == 3 { assert(q[0] == s[0] && q[1] == s[1] && q[2] == s[2]); if s[0] == p[0] && s[1] == p[1] && s[2] == p[2] { assert(q =~= p); } }
        if p.len() == 2 { assert(q[0] == s[0] && q[1] == s[1]); if s[0] == p[0] && s[1] == p[1] { assert(q =~= p); } }
    }
}
pub broadcast proof fn lemma_starts_boff(s: Seq<char>, p: Seq<char>)
    ensures #[trigger] starts(s, p) ==> boff(s, p.len() as int) == ulen(p)
{
    if starts(s, p) { assert(s.subrange(0, p.len() as int) =~= p); }
}

// two's complement truncation, as `as` casts do it
pub broadcast proof fn lemma_cast_u32(x: i64)
    ensures #[trigger] (x as u32) as int == tr_u32(x as int)
{
    let r = x as u32; let q = x >> 32;
    assert(x == add(mul(q, 4294967296i64), r as i64) && -2147483648i64 <= q && q <= 2147483647i64) by (bit_vector) requires r == x as u32, q == x >> 32;
    assert(q * 4294967296 + (r as i64) == x as int);
}
pub broadcast proof fn lemma_cast_i32(x: i64)
    ensures #[trigger] (x as i32) as int == tr_i32(x as int)
{
    let r = x as u32; let i = x as i32;
    lemma_cast_u32(x);
    assert((r < 2147483648u32 ==> i as i64 == r as i64) && (r >= 2147483648u32 ==> i as i64 == sub(r as i64, 4294967296i64))) by (bit_vector) requires r == x as u32, i == x as i32;
}

// ---- printing
pub proof fn lemma_sup(r: Seq<nat>, ks: Seq<int>, i: int)
    requires 0 <= i < ks.len(), 0 <= ks[i] < r.len()
    ensures r[ks[i]] < sup(r, ks)
    decreases ks.len()
{
    reveal_with_fuel(sup, 2);
    if i < ks.len() - 1 { assert(ks.drop_last()[i] == ks[i]); lemma_sup(r, ks.drop_last(), i); }
}
pub proof fn lemma_sup_le(r: Seq<nat>, ks: Seq<int>, b: nat)
    requires forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() && 0 <= ks[i] < r.len() ==> r[ks[i]] < b
    ensures sup(r, ks) <= b
    decreases ks.len()
{
    reveal_with_fuel(sup, 2);
    if ks.len() > 0 {
        let d = ks.drop_last();
        assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() && 0 <= d[i] < r.len() implies r[d[i]] < b by { assert(d[i] == ks[i]); }
        lemma_sup_le(r, d, b);
        assert(ks.last() == ks[ks.len() - 1]);
    }
}
pub broadcast proof fn lemma_norm(fl: u16, n: SNode)
    ensures kids_of(#[trigger] norm(fl, n)) == kids_of(n), same_k(n, norm(fl, n)), n is Named || norm(fl, n) == n
{ }
pub broadcast proof fn lemma_cx(nodes: Seq<SNode>, fl: u16)
    ensures #![trigger mkcx(nodes, fl)] mkcx(nodes, fl).flags == fl, mkcx(nodes, fl).nodes.len() == nodes.len()
{ }
pub broadcast proof fn lemma_cx_at(nodes: Seq<SNode>, fl: u16, h: int)
    requires 0 <= h < nodes.len()
    ensures #[trigger] mkcx(nodes, fl).nodes[h] == norm(fl, nodes[h])
{ }
// on a tree, printing goes down
pub broadcast proof fn lemma_kid(nodes: Seq<SNode>, fl: u16, n: SNode, h: int)
    requires tree(nodes), kid(n, h), 0 <= h < nodes.len()
    ensures #[trigger] desc(mkcx(nodes, fl).nodes, norm(fl, n), h)
{
    let c = mkcx(nodes, fl).nodes;
    lemma_norm(fl, n);
    assert(tree(c)) by {
        reveal(tree);
        let r = choose|r: Seq<nat>| ranked(nodes, r);
        assert forall|i: int, k: int| 0 <= i < c.len() && #[trigger] kid(c[i], k) implies 0 <= k < c.len() && r[k] < r[i] by {
            lemma_cx_at(nodes, fl, i); lemma_norm(fl, nodes[i]); assert(kid(nodes[i], k));
        }
        assert(ranked(c, r));
    }
    reveal(height);
    let r = choose|r: Seq<nat>| ranked(c, r);
    assert(ranked(c, r)) by { reveal(tree); }
    let ks = kids_of(c[h]);
    assert forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() && 0 <= ks[i] < r.len() implies r[ks[i]] < r[h] by { assert(kid(c[h], ks[i])); }
    lemma_sup_le(r, ks, r[h]);
    let js = kids_of(n);
    let i = choose|i: int| 0 <= i < js.len() && js[i] == h;
    lemma_sup(r, js, i);
}
// what children there are
pub broadcast proof fn lemma_kids(n: SNode, h: int)
    ensures
        n matches SNode::Sig { f } ==> #[trigger] kid(n, h) == (f.ret == Some(h) || f.params == Some(h)),
        n matches SNode::Thunk { f, .. } ==> kid(n, h) == (f.ret == Some(h) || f.params == Some(h)),
        n matches SNode::Ptr { parent, pointee, .. } ==> kid(n, h) == (parent == Some(h) || pointee == h),
        n matches SNode::Tag { name, .. } ==> kid(n, h) == (name == h),
        n matches SNode::Arr { elem, .. } ==> kid(n, h) == (elem == h),
        n matches SNode::Custom { ident, .. } ==> kid(n, h) == (ident == h),
        n matches SNode::DynStruct { target, .. } ==> kid(n, h) == (target == h),
        n matches SNode::Named { tp, .. } ==> kid(n, h) == (tp == Some(h)),
        n matches SNode::Intrinsic { tp, .. } ==> kid(n, h) == (tp == Some(h)),
        n matches SNode::LitOp { tp, .. } ==> kid(n, h) == (tp == Some(h)),
        n matches SNode::Conv { tp, target } ==> kid(n, h) == (tp == Some(h) || target == Some(h)),
        n matches SNode::Structor { tp, class, .. } ==> kid(n, h) == (tp == Some(h) || class == Some(h)),
        n matches SNode::QName { comps } ==> kid(n, h) == (comps == h),
        n matches SNode::TRef { symbol, .. } ==> kid(n, h) == (symbol == Some(h)),
        n matches SNode::Md5 { name } ==> kid(n, h) == (name == h),
        n matches SNode::Table { name, target, .. } ==> kid(n, h) == (name == h || target == Some(h)),
        n matches SNode::GuardVar { name } ==> kid(n, h) == (name == h),
        n matches SNode::Var { name, ty, .. } ==> kid(n, h) == (ty == Some(h) || name == Some(SVarName::Q(h))),
        n matches SNode::Func { name, sig } ==> kid(n, h) == (name == Some(h) || sig == h),
{
    let ks = kids_of(n);
    assert forall|x: int| #[trigger] seq![x].contains(h) == (x == h) by { assert(seq![x][0] == x); }
    assert forall|o: Option<int>| #[trigger] opt_seq(o).contains(h) == (o == Some(h)) by { if let Some(x) = o { assert(opt_seq(o)[0] == x); } }
    assert forall|a: Seq<int>, b: Seq<int>| #[trigger] a.add(b).contains(h) == (a.contains(h) || b.contains(h)) by {
        if a.contains(h) { let i = choose|i: int| 0 <= i < a.len() && a[i] == h; assert(a.add(b)[i] == h); }
        if b.contains(h) { let i = choose|i: int| 0 <= i < b.len() && b[i] == h; assert(a.add(b)[a.len() + i] == h); }
    }
    assert forall|a: Seq<int>, x: int| #[trigger] a.push(x).contains(h) == (a.contains(h) || x == h) by {
        if a.contains(h) { let i = choose|i: int| 0 <= i < a.len() && a[i] == h; assert(a.push(x)[i] == h); }
        assert(a.push(x)[a.len() as int] == x);
    }
}
pub broadcast proof fn lemma_node_at(a: Seq<SNode>, h: int)
    requires wf_nodes(a), 0 <= h < a.len()
    ensures #[trigger] node_ok(a, a[h])
{ reveal(wf_nodes); }
pub broadcast group group_out { lemma_norm, lemma_cx, lemma_cx_at, lemma_kid, lemma_kids, lemma_node_at }

pub proof fn lemma_kid_o(nodes: Seq<SNode>, fl: u16, n: SNode, o: Option<int>)
    requires tree(nodes), o matches Some(h) ==> 0 <= h < nodes.len() && kid(n, h)
    ensures o matches Some(h) ==> desc(mkcx(nodes, fl).nodes, norm(fl, n), h) && mkcx(nodes, fl).nodes[h] == norm(fl, nodes[h])
{ if let Some(h) = o { lemma_kid(nodes, fl, n, h); } }
pub proof fn lemma_kid_i(nodes: Seq<SNode>, fl: u16, n: SNode, i: int)
    requires tree(nodes), n is Array, 0 <= i < n->Array_nodes.len(), 0 <= n->Array_nodes[i] < nodes.len()
    ensures desc(mkcx(nodes, fl).nodes, n, n->Array_nodes[i]), mkcx(nodes, fl).nodes[n->Array_nodes[i]] == norm(fl, nodes[n->Array_nodes[i]])
{ let h = n->Array_nodes[i]; assert(kids_of(n)[i] == h); lemma_kid(nodes, fl, n, h); }
